//! Allocator wrapper: on demand, records the contents of every block at the moment it is released.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

pub struct Spy;
/// hand out zeroed memory only, so that no block carries a stale content of somebody else
static CLEAN: AtomicBool = AtomicBool::new(false);
const PER_BLOCK: usize = 1 << 18;
struct Ring {
    buf: Vec<u8>,
    at: Vec<(usize, usize)>,
    blocks: u64,
    bytes: u64,
    skipped: u64,
}
thread_local! { static REC: Cell<*mut Ring> = const { Cell::new(std::ptr::null_mut()) } }

fn note(p: *mut u8, n: usize) {
    let r = REC.try_with(|r| r.get()).unwrap_or(std::ptr::null_mut());
    if r.is_null() { return }
    unsafe {
        let r = &mut *r;
        r.blocks += 1;
        r.bytes += n as u64;
        if n < 6 { return }
        if n > PER_BLOCK {
            // of a large block, its two ends
            r.skipped += 1;
            if r.buf.len() + PER_BLOCK / 2 > r.buf.capacity() || r.at.len() + 2 > r.at.capacity() { return }
            for from in [0, n - PER_BLOCK / 4] {
                let s = r.buf.len();
                std::ptr::copy_nonoverlapping(p.add(from), r.buf.as_mut_ptr().add(s), PER_BLOCK / 4);
                r.buf.set_len(s + PER_BLOCK / 4);
                r.at.push((s, PER_BLOCK / 4));
            }
            return;
        }
        if r.buf.len() + n > r.buf.capacity() || r.at.len() == r.at.capacity() {
            r.skipped += 1;
            return;
        }
        let s = r.buf.len();
        std::ptr::copy_nonoverlapping(p, r.buf.as_mut_ptr().add(s), n);
        r.buf.set_len(s + n);
        r.at.push((s, n));
    }
}
fn recording() -> bool {
    REC.try_with(|r| !r.get().is_null()).unwrap_or(false)
}
unsafe impl GlobalAlloc for Spy {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if CLEAN.load(Relaxed) { System.alloc_zeroed(l) } else { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(p, l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if CLEAN.load(Relaxed) || recording() {
            // the allocator may always move a block: the old one is then released as it is
            let q = System.alloc_zeroed(Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                note(p, l.size());
                System.dealloc(p, l);
            }
            return q;
        }
        System.realloc(p, l, n)
    }
}
pub fn clean_memory() {
    CLEAN.store(true, Relaxed);
}

#[derive(Default)]
pub struct Released {
    pub blocks: Vec<Vec<u8>>,
    pub count: u64,
    pub bytes: u64,
    pub skipped: u64,
}
struct Off(*mut Ring);
impl Drop for Off {
    fn drop(&mut self) {
        REC.with(|r| r.set(std::ptr::null_mut()));
    }
}
/// Runs `f` and appends what it released to `rel`.
pub fn record<T>(rel: &mut Released, f: impl FnOnce() -> T) -> T {
    let ring = Box::into_raw(Box::new(Ring { buf: Vec::with_capacity(1 << 20), at: Vec::with_capacity(4096), blocks: 0, bytes: 0, skipped: 0 }));
    let res = {
        let off = Off(ring);
        REC.with(|r| r.set(off.0));
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
    };
    let ring = unsafe { Box::from_raw(ring) };
    rel.blocks.extend(ring.at.iter().map(|(s, n)| ring.buf[*s..s + n].to_vec()));
    rel.count += ring.blocks;
    rel.bytes += ring.bytes;
    rel.skipped += ring.skipped;
    match res { Ok(t) => t, Err(e) => std::panic::resume_unwind(e) }
}
