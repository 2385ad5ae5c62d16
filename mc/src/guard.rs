//! A global allocator that judges how memory is used: every block lies between
//! guard bytes, is freed once, with the layout it was requested with, and is
//! not written to after that (freed blocks wait in a quarantine). Blocks of a
//! tracked section are counted, so that leaks show.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};

pub struct Guard;

const LIVE: u64 = 0x6c69_7665_626c_6f63;
const DEAD: u64 = 0x6465_6164_626c_6f63;
const ZONE: usize = 16;
const HEAD: usize = 48;
const FILL: usize = 4096;
const QN: usize = 48;

#[repr(C)]
struct Head { magic: u64, size: usize, align: usize, counted: u64 }

struct Quarantine { ring: UnsafeCell<[usize; QN]>, at: Cell<usize> }

thread_local! {
    static TRACK: Cell<bool> = const { Cell::new(false) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static BYTES: Cell<i64> = const { Cell::new(0) };
    static Q: Quarantine = const { Quarantine { ring: UnsafeCell::new([0; QN]), at: Cell::new(0) } };
    static WRONG: Cell<(usize, usize, usize)> = const { Cell::new((0, 0, 0)) };
}
fn wrong(kind: usize, a: usize, b: usize) {
    // what was wrong first on this thread: kind and two numbers
    let _ = WRONG.try_with(|w| if w.get().0 == 0 { w.set((kind, a, b)) });
}

/// The first misuse since the last call.
pub fn misuse() -> Option<String> {
    let (k, a, b) = WRONG.with(|w| w.replace((0, 0, 0)));
    if k == 0 { return None }
    Some(match k {
        1 => format!("memory freed that is no live block (freed with size {})", a),
        2 => format!("memory freed twice (size {})", a),
        3 => format!("block of size {} freed with size {}", a, b),
        4 => format!("block of alignment {} freed with alignment {}", a, b),
        5 => format!("bytes in front of a block of size {} overwritten", a),
        6 => format!("bytes behind a block of size {} overwritten", a),
        7 => format!("freed block of size {} written to, at byte {}", a, b),
        _ => format!("block of size {} resized with size {}", a, b),
    })
}

fn prefix(align: usize) -> usize { (HEAD + align - 1) / align * align }
fn whole(size: usize, align: usize) -> Layout { unsafe { Layout::from_size_align_unchecked(prefix(align) + size + ZONE, align.max(16)) } }

unsafe fn head(p: *mut u8) -> *mut Head { p.sub(HEAD) as *mut Head }

unsafe fn zones(p: *mut u8, size: usize) -> bool {
    for i in 0..ZONE { if *p.sub(ZONE).add(i) != 0xa5 { wrong(5, size, 0); return false } }
    for i in 0..ZONE { if *p.add(size + i) != 0x5a { wrong(6, size, 0); return false } }
    true
}

unsafe fn release(p: *mut u8) {
    let h = &mut *head(p);
    let (size, align) = (h.size, h.align);
    for i in 0..size.min(FILL) { if *p.add(i) != 0xd7 { wrong(7, size, i); break } }
    zones(p, size);
    h.magic = 0;
    System.dealloc(p.sub(prefix(align)), whole(size, align));
}

unsafe fn take(l: Layout, zero: bool) -> *mut u8 {
    if l.size() > isize::MAX as usize - 4096 { return std::ptr::null_mut() }
    let w = whole(l.size(), l.align());
    let b = if zero { System.alloc_zeroed(w) } else { System.alloc(w) };
    if b.is_null() { return b }
    let p = b.add(prefix(l.align()));
    let counted = TRACK.try_with(|t| t.get()).unwrap_or(false);
    *head(p) = Head { magic: LIVE, size: l.size(), align: l.align(), counted: counted as u64 };
    std::ptr::write_bytes(p.sub(ZONE), 0xa5, ZONE);
    std::ptr::write_bytes(p.add(l.size()), 0x5a, ZONE);
    if !zero { std::ptr::write_bytes(p, 0xc3, l.size().min(FILL)) }
    if counted {
        let _ = BLOCKS.try_with(|b| b.set(b.get() + 1));
        let _ = BYTES.try_with(|b| b.set(b.get() + l.size() as i64));
    }
    p
}

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { take(l, false) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { take(l, true) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = &mut *head(p);
        if h.magic == DEAD { return wrong(2, l.size(), 0) }
        if h.magic != LIVE { return wrong(1, l.size(), 0) }
        if h.size != l.size() { return wrong(3, h.size, l.size()) }
        if h.align != l.align() { return wrong(4, h.align, l.align()) }
        if !zones(p, h.size) { return }
        if h.counted != 0 {
            let _ = BLOCKS.try_with(|b| b.set(b.get() - 1));
            let _ = BYTES.try_with(|b| b.set(b.get() - l.size() as i64));
        }
        h.magic = DEAD;
        std::ptr::write_bytes(p, 0xd7, l.size().min(FILL));
        // wait in the quarantine, except for big blocks
        if l.size() > 1 << 20 { return release(p) }
        let old = Q.try_with(|q| {
            let i = q.at.get();
            q.at.set((i + 1) % QN);
            std::mem::replace(&mut (*q.ring.get())[i], p as usize)
        });
        match old { Ok(0) => {} Ok(o) => release(o as *mut u8), Err(_) => release(p) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let h = &*head(p);
        if h.magic == LIVE && h.size != l.size() { wrong(8, h.size, l.size()) }
        let q = take(Layout::from_size_align_unchecked(n, l.align()), false);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}

/// Run `f` and return what it left allocated: blocks and bytes.
pub fn tracked<T>(f: impl FnOnce() -> T) -> (T, i64, i64) {
    let (a, b) = (BLOCKS.with(|x| x.get()), BYTES.with(|x| x.get()));
    TRACK.with(|t| t.set(true));
    let r = f();
    TRACK.with(|t| t.set(false));
    (r, BLOCKS.with(|x| x.get()) - a, BYTES.with(|x| x.get()) - b)
}

/// Something the harness does while a section is tracked.
pub fn untracked<T>(f: impl FnOnce() -> T) -> T {
    let was = TRACK.with(|t| t.replace(false));
    let r = f();
    TRACK.with(|t| t.set(was));
    r
}

/// Check the freed blocks that are still in the quarantine.
pub fn sweep() {
    Q.with(|q| unsafe {
        for p in (*q.ring.get()).iter() {
            if *p == 0 { continue }
            let p = *p as *mut u8;
            let size = (*head(p)).size;
            for i in 0..size.min(FILL) { if *p.add(i) != 0xd7 { wrong(7, size, i); break } }
        }
    });
}

// ---------------------------------------------------------------------------
// Text at the edge of accessible memory.

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
}
const PAGE: usize = 4096;
const SPAN: usize = 64 * PAGE;

/// A region between two inaccessible pages.
pub struct Edge { base: *mut u8 }
impl Edge {
    pub fn new() -> Edge {
        unsafe {
            let base = mmap(std::ptr::null_mut(), SPAN + 2 * PAGE, 3, 0x22, -1, 0);
            assert!(base as isize != -1, "harness: mmap");
            assert!(mprotect(base, PAGE, 0) == 0 && mprotect(base.add(PAGE + SPAN), PAGE, 0) == 0, "harness: mprotect");
            Edge { base }
        }
    }
    /// `s`, ending right before the inaccessible page.
    pub fn end<'a>(&'a self, s: &str) -> &'a str {
        assert!(s.len() <= SPAN);
        unsafe {
            let p = self.base.add(PAGE + SPAN - s.len());
            std::ptr::copy_nonoverlapping(s.as_ptr(), p, s.len());
            std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, s.len()))
        }
    }
    /// `s`, starting right behind the inaccessible page.
    pub fn start<'a>(&'a self, s: &str) -> &'a str {
        assert!(s.len() <= SPAN);
        unsafe {
            let p = self.base.add(PAGE);
            std::ptr::copy_nonoverlapping(s.as_ptr(), p, s.len());
            std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, s.len()))
        }
    }
}
