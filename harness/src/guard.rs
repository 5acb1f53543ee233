//! Copies of a text that lie directly before, or directly after, memory that cannot be read, so
//! that an access outside the text kills the process.
use std::cell::RefCell;

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
    fn munmap(addr: *mut u8, len: usize) -> i32;
}
const PAGE: usize = 4096;

/// Readable memory between two unreadable pages.
struct Arena {
    base: *mut u8,
    room: usize,
}
impl Arena {
    fn new(len: usize) -> Arena {
        let room = len.max(1).next_multiple_of(PAGE);
        // private, anonymous, unreadable
        let base = unsafe { mmap(std::ptr::null_mut(), room + 2 * PAGE, 0, 0x22, -1, 0) };
        assert!(base as isize != -1, "mmap failed");
        let rc = unsafe { mprotect(base.add(PAGE), room, 3) };
        assert!(rc == 0, "mprotect failed");
        Arena { base, room }
    }
}
impl Drop for Arena {
    fn drop(&mut self) {
        unsafe { munmap(self.base, self.room + 2 * PAGE) };
    }
}
thread_local! {
    static ARENA: RefCell<Option<Arena>> = const { RefCell::new(None) };
}

/// Runs `f` on a copy of `doc` that ends (or, with `front`, starts) at an unreadable page.
pub fn guarded<T>(doc: &[u8], front: bool, f: impl FnOnce(&[u8]) -> T) -> T {
    let a = ARENA.with(|a| a.borrow_mut().take()).filter(|a| a.room >= doc.len());
    let a = a.unwrap_or_else(|| Arena::new(doc.len().max(1 << 16)));
    let at = if front { PAGE } else { PAGE + a.room - doc.len() };
    let t = unsafe {
        std::ptr::copy_nonoverlapping(doc.as_ptr(), a.base.add(at), doc.len());
        f(std::slice::from_raw_parts(a.base.add(at), doc.len()))
    };
    ARENA.with(|s| *s.borrow_mut() = Some(a));
    t
}
