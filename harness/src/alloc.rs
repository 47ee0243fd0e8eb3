use std::alloc::{GlobalAlloc, Layout, System};
pub struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > (3usize << 30) { crate::ctx::alloc_blowup(); }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > (3usize << 30) { crate::ctx::alloc_blowup(); }
        System.realloc(p, l, n)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > (3usize << 30) { crate::ctx::alloc_blowup(); }
        System.alloc_zeroed(l)
    }
}
