#!/bin/bash
# check.sh build | check.sh ID [quick|thorough]
# Builds everything from /repo's current tree, then runs the check of property ID.
cd "$(dirname "$0")" || exit 2
if ! out=$(./build.sh 2>&1); then
  echo "$out" >&2
  echo "build failed" >&2
  exit 2
fi
[ "$1" = build ] && exit 0
exec ./target/release/mc check "$1" "$2"
