//! What each worker is working on, in memory shared with the supervising process, so that a
//! case that hangs, exhausts memory or kills the process can be named.
use crate::engine::{Case, THREADS};
use crate::model::Span;
use std::sync::atomic::{AtomicPtr, Ordering::*};

const SLOT: usize = 1 << 18;
const IN: usize = SLOT / 2;
static BASE: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());

unsafe extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

pub fn open(path: &str) {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
    f.set_len((SLOT * THREADS) as u64).unwrap();
    let p = unsafe { mmap(std::ptr::null_mut(), SLOT * THREADS, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1);
    BASE.store(p, SeqCst);
}

fn write(at: usize, s: &str, max: usize) {
    let b = BASE.load(Relaxed);
    if b.is_null() {
        return;
    }
    let s = &s.as_bytes()[..s.len().min(max - 8)];
    unsafe {
        let p = b.add(at);
        (p as *mut u32).write_volatile(s.len() as u32 + 1);
        std::ptr::copy_nonoverlapping(s.as_ptr(), p.add(4), s.len());
    }
}

fn read(at: usize) -> Option<String> {
    let b = BASE.load(SeqCst);
    if b.is_null() {
        return None;
    }
    unsafe {
        let n = (b.add(at) as *const u32).read_volatile();
        if n == 0 {
            return None;
        }
        let v = std::slice::from_raw_parts(b.add(at + 4), n as usize - 1).to_vec();
        Some(String::from_utf8_lossy(&v).into_owned())
    }
}

pub fn table(w: usize, table: &str, fwd: bool) {
    write(w * SLOT + IN, "", SLOT - IN);
    write(w * SLOT, &format!("{}{}", if fwd { 'F' } else { 'B' }, table), IN);
}

pub fn input(w: usize, input: &str, spans: &[Span]) {
    if spans.is_empty() {
        write(w * SLOT + IN, input, SLOT - IN);
    } else {
        let mut s = input.to_string();
        for p in spans {
            s += &format!("\u{1}{} {} {}", p.class, p.start, p.end);
        }
        write(w * SLOT + IN, &s, SLOT - IN);
    }
}

pub fn clear(w: usize) {
    let b = BASE.load(Relaxed);
    if !b.is_null() {
        unsafe { (b.add(w * SLOT) as *mut u32).write_volatile(0) }
    }
}

pub fn get(w: usize) -> Option<Case> {
    let t = read(w * SLOT)?;
    let i = read(w * SLOT + IN).unwrap_or_default();
    let mut it = i.split('\u{1}');
    let input = it.next().unwrap_or("").to_string();
    let spans = it
        .filter_map(|s| {
            let f: Vec<&str> = s.split(' ').collect();
            Some(Span { class: f.first()?.to_string(), start: f.get(1)?.parse().ok()?, end: f.get(2)?.parse().ok()? })
        })
        .collect();
    Some(Case { fwd: t.starts_with('F'), table: t[1..].to_string(), input, spans })
}
