//! Explorer and reference models for model checking json-rust.
#![allow(clippy::all)]
pub mod engine;
pub mod model;
pub mod gen;
pub mod guard;
pub mod sched;
pub mod iso;

pub use engine::{clip, hash_bytes, q, Ctl, Res, Runner};

/// System allocator whose small reallocations go through malloc and free:
/// glibc's realloc takes the lock of the arena the block came from, and blocks
/// handed from the main thread to a worker stay in its cache for ever. Fresh
/// and freed memory is overwritten, so that reading it shows.
pub struct Fast;
const SMALL: usize = 16384;
unsafe impl std::alloc::GlobalAlloc for Fast {
    #[inline]
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let p = std::alloc::System.alloc(l);
        if !p.is_null() { std::ptr::write_bytes(p, 0xc3, l.size().min(SMALL)) }
        p
    }
    #[inline]
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::ptr::write_bytes(p, 0xd7, l.size().min(SMALL));
        std::alloc::System.dealloc(p, l)
    }
    #[inline]
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 { std::alloc::System.alloc_zeroed(l) }
    #[inline]
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        if l.size() > SMALL || n > SMALL { return std::alloc::System.realloc(p, l, n) }
        let q = std::alloc::System.alloc(std::alloc::Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            let k = l.size().min(n);
            std::ptr::copy_nonoverlapping(p, q, k);
            if n > k { std::ptr::write_bytes(q.add(k), 0xc3, n - k) }
            self.dealloc(p, l);
        }
        q
    }
}

#[macro_export]
macro_rules! fast_alloc { () => { #[global_allocator] static GLOBAL: $crate::Fast = $crate::Fast; } }
