//! A global allocator that checks what is asked of it: that no layout is
//! empty, that blocks are freed once and with the layout they were allocated
//! with, and that nothing is written around or after them. What is wrong ends
//! the process, so that it shows whatever the case under test catches.

use std::alloc::{GlobalAlloc, Layout, System};
use std::io::Write;
use std::ptr::null_mut;
use std::sync::atomic::{AtomicPtr, AtomicUsize, Ordering};

const LIVE: u64 = 0x6C69_7665_626C_6F63;
const DEAD: u64 = 0xDEAD_B10C_DEAD_B10C;
const TAIL: usize = 16;
const HEAD: usize = 64;
const FRESH: u8 = 0xA5;
const FREED: u8 = 0xDD;
const ZONE: u8 = 0xEE;
/// Freed blocks up to this size are kept for a while.
const KEEP: usize = 1 << 16;

#[repr(C)]
struct Head { base: *mut u8, size: usize, align: usize, zone: [u8; 32], magic: u64 }

static RING: [AtomicPtr<u8>; 2048] = [const { AtomicPtr::new(null_mut()) }; 2048];
static AT: AtomicUsize = AtomicUsize::new(0);

pub struct Checked;

#[cold]
fn bad(what: &str, layout: Layout, h: Option<&Head>) -> ! {
	let mut e = std::io::stderr();
	let _ = writeln!(e, "allocator: {what} (size {}, align {})", layout.size(), layout.align());
	if let Some(h) = h { let _ = writeln!(e, "allocator: allocated with size {}, align {}", h.size, h.align); }
	std::process::abort()
}

fn pre(align: usize) -> usize { HEAD.max(align) }

fn outer(size: usize, align: usize) -> Option<Layout> {
	Layout::from_size_align(size.checked_add(pre(align) + TAIL)?, align.max(16)).ok()
}

unsafe fn head(p: *mut u8) -> *mut Head { p.sub(HEAD).cast() }

unsafe fn filled(p: *const u8, n: usize, x: u8) -> bool { (0..n).all(|i| *p.add(i) == x) }

unsafe fn check(p: *mut u8, layout: Layout) {
	let h = &*head(p);
	if h.magic == DEAD { bad("block freed twice, or used after it was freed", layout, None) }
	if h.magic != LIVE { bad("a block that was never allocated, or written before its start", layout, None) }
	if h.size != layout.size() || h.align != layout.align() { bad("block freed with another layout", layout, Some(h)) }
	if !filled(h.zone.as_ptr(), 32, ZONE) { bad("written before the start of a block", layout, None) }
	if !filled(p.add(h.size), TAIL, ZONE) { bad("written beyond the end of a block", layout, None) }
}

unsafe impl GlobalAlloc for Checked {
	unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
		if layout.size() == 0 { bad("an empty block is requested", layout, None) }
		let Some(o) = outer(layout.size(), layout.align()) else { return null_mut() };
		let base = System.alloc(o);
		if base.is_null() { return base }
		let p = base.add(pre(layout.align()));
		head(p).write(Head { base, size: layout.size(), align: layout.align(), zone: [ZONE; 32], magic: LIVE });
		p.write_bytes(FRESH, layout.size());
		p.add(layout.size()).write_bytes(ZONE, TAIL);
		p
	}

	unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
		if layout.size() == 0 { bad("an empty block is freed", layout, None) }
		check(p, layout);
		(*head(p)).magic = DEAD;
		p.write_bytes(FREED, layout.size());
		let mut out = p;
		if layout.size() <= KEEP {
			let i = AT.fetch_add(1, Ordering::Relaxed) % RING.len();
			out = RING[i].swap(p, Ordering::AcqRel);
			if out.is_null() { return }
		}
		let h = &mut *head(out);
		let l = Layout::from_size_align_unchecked(h.size, h.align);
		if h.magic != DEAD || !filled(out, h.size, FREED) { bad("written to after it was freed", l, None) }
		h.magic = 0;
		System.dealloc(h.base, outer(h.size, h.align).unwrap());
	}

	unsafe fn realloc(&self, p: *mut u8, layout: Layout, size: usize) -> *mut u8 {
		if size == 0 { bad("a block is shrunk to nothing", layout, None) }
		check(p, layout);
		let q = self.alloc(Layout::from_size_align_unchecked(size, layout.align()));
		if !q.is_null() {
			p.copy_to_nonoverlapping(q, size.min(layout.size()));
			self.dealloc(p, layout);
		}
		q
	}
}
