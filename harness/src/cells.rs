//! C18: shared and lazily built values.
//!
//! The content is made of probes that look, while they are being encoded, at
//! the lock or cell that they live in.

use crate::engine::{catch, unit, Gen, Obs, Unit};
use crate::ensure;
use crate::model::hex;
use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output};
use oct::error::{ItemEncodeError, RefCellEncodeError, CollectionEncodeError};
use std::cell::{Cell, LazyCell, RefCell};
use std::rc::Rc;
use std::sync::atomic::*;
use std::sync::{mpsc, Arc, LazyLock, Mutex, RwLock, TryLockError};
use std::time::Duration;

type R = Result<(), String>;
type Watch = Box<dyn Fn() -> Result<(), String>>;

thread_local! {
	static WATCH: RefCell<Option<Watch>> = const { RefCell::new(None) };
	static SEEN: RefCell<(u32, Option<String>)> = const { RefCell::new((0, None)) };
	static INITS: Cell<u32> = const { Cell::new(0) };
	static CONTENT: RefCell<Vec<Probe>> = const { RefCell::new(Vec::new()) };
	static INIT_PANICS: Cell<bool> = const { Cell::new(false) };
}

fn look() {
	let r = WATCH.with(|w| w.borrow().as_ref().map(|f| f()));
	SEEN.with(|s| {
		let mut s = s.borrow_mut();
		s.0 += 1;
		if let Some(Err(m)) = r { s.1.get_or_insert(m); }
	});
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Probe { x: u16, act: Act }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Act { Fine, Fail, Panic, Empty }

#[derive(Debug, PartialEq, Clone)]
pub struct Refused(u16);
impl std::fmt::Display for Refused { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "refused {}", self.0) } }
impl std::error::Error for Refused {}

impl Encode for Probe {
	type Error = Refused;
	fn encode(&self, o: &mut Output) -> Result<(), Refused> {
		look();
		match self.act {
			Act::Fine => { self.x.encode(o).unwrap(); look(); Ok(()) },
			Act::Fail => Err(Refused(self.x)),
			Act::Panic => panic!("the content panics"),
			Act::Empty => { look(); Ok(()) },
		}
	}
}

fn gen_probe(g: &mut Gen) -> Probe {
	let act = match g.draw(11) { 0..=7 => Act::Fine, 8 => Act::Empty, 9 => Act::Fail, 10 => Act::Panic, _ => Act::Fine };
	Probe { x: match g.fancy() { Some(x) => x as u16, None => g.draw(0xFFFF) as u16 }, act }
}
fn gen_probes(g: &mut Gen) -> Vec<Probe> { let n = g.range(0, 6); (0..n).map(|_| gen_probe(g)).collect() }

#[derive(Debug, PartialEq, Clone)]
enum Out { Bytes(Vec<u8>), Bad(usize, u16), Borrow, Panic }

/// What a bare sequence of the probes does; `prefix` bytes were written on the
/// way.
fn model(ps: &[Probe], room: usize, counted: bool) -> Out {
	let mut d = if counted { (ps.len() as u16).to_le_bytes().to_vec() } else { Vec::new() };
	if d.len() > room { return Out::Panic }
	for (i, p) in ps.iter().enumerate() {
		match p.act {
			Act::Fine => d.extend(p.x.to_le_bytes()),
			Act::Empty => (),
			Act::Fail => return Out::Bad(i, p.x),
			Act::Panic => return Out::Panic,
		}
		if d.len() > room { return Out::Panic }
	}
	Out::Bytes(d)
}

/// Looks through an error for the refusal.
trait Refusal { fn out(&self) -> Out; }
impl Refusal for Refused { fn out(&self) -> Out { Out::Bad(0, self.0) } }
impl<E: Refusal> Refusal for RefCellEncodeError<E> { fn out(&self) -> Out { match self { RefCellEncodeError::BadBorrow(_) => Out::Borrow, RefCellEncodeError::BadValue(e) => e.out() } } }
impl<L, E: Refusal> Refusal for CollectionEncodeError<L, ItemEncodeError<usize, E>> {
	fn out(&self) -> Out { match self { CollectionEncodeError::BadItem(e) => match e.error.out() { Out::Bad(_, x) => Out::Bad(e.index, x), o => o }, CollectionEncodeError::BadLength(_) => Out::Bad(usize::MAX, 0) } }
}
impl<E: Refusal> Refusal for ItemEncodeError<usize, E> { fn out(&self) -> Out { match self.error.out() { Out::Bad(_, x) => Out::Bad(self.index, x), o => o } } }

fn run<T: Encode<Error: Refusal> + ?Sized>(x: &T, room: usize) -> Out {
	let mut d = vec![0xA5u8; room];
	let r = catch(|| {
		let mut o = Output::new(&mut d);
		let r = x.encode(&mut o).map_err(|e| e.out());
		(r, o.position())
	});
	match r {
		Ok((Ok(()), n)) => Out::Bytes(d[..n].to_vec()),
		Ok((Err(o), _)) => o,
		Err(_) => Out::Panic,
	}
}

/// Encodes with a watch; every look must find what the watch demands.
fn watched<T: Encode<Error: Refusal> + ?Sized>(x: &T, room: usize, w: Watch) -> Result<(Out, u32), String> {
	SEEN.with(|s| *s.borrow_mut() = (0, None));
	WATCH.with(|c| *c.borrow_mut() = Some(w));
	let o = run(x, room);
	WATCH.with(|c| *c.borrow_mut() = None);
	let (n, m) = SEEN.with(|s| s.borrow().clone());
	if let Some(m) = m { return Err(m) }
	Ok((o, n))
}

fn note(o: &mut Obs, out: &Out) { o.class(match out { Out::Bytes(_) => "encoded", Out::Bad(..) => "content refuses", Out::Borrow => "borrow refused", Out::Panic => "content or output panics" }) }

fn room(g: &mut Gen, n: usize) -> usize { match g.draw(4) { 0 => 2 * n + 2, 1 => g.range(0, 2 * n + 2), _ => 64 } }

/// Poisons a lock by panicking with it held.
fn poison_mutex<T: ?Sized>(m: &Mutex<T>) { let _ = catch(|| { let _g = m.lock(); panic!("poison") }); }
fn poison_rw<T: ?Sized>(m: &RwLock<T>) { let _ = catch(|| { let _g = m.write(); panic!("poison") }); }

macro_rules! lock_history { ($name:ident, $lock:ident, $poison:ident, $make:expr, $t:ty, $counted:expr) => {
fn $name(g: &mut Gen, o: &mut Obs) -> R {
	let ps = gen_probes(g);
	let pre = g.chance(1, 3);
	let n = g.range(1, 4);
	o.key(format!("{ps:?}{pre}{n}").as_bytes());
	o.nontrivial(!ps.is_empty());
	o.describe(|| format!("{} around {ps:?}{}, encoded {n} times", stringify!($lock), if pre { ", poisoned" } else { "" }));
	#[allow(clippy::redundant_closure_call)]
	let l: Arc<$lock<$t>> = ($make)(ps.clone());
	if pre { $poison(&l); o.class("poisoned") }
	for k in 0..n {
		let room = room(g, ps.len());
		let d = format!("{} around {ps:?}{}, room for {room} bytes, time {k}", stringify!($lock), if l.is_poisoned() { ", poisoned" } else { "" });
		let w = l.clone();
		let (out, looks) = watched(&*l, room, Box::new(move || lock_history!(@held $lock w))).map_err(|m| format!("{d}: {m}"))?;
		let want = model(&ps, room, $counted);
		ensure!(out == want, "{d}: {out:?} instead of {want:?}");
		ensure!(ps.is_empty() || looks > 0 || room < 2, "{d}: the content is not encoded");
		note(o, &out);
		lock_history!(@free $lock l d);
		let now = lock_history!(@content $lock l);
		ensure!(now == ps, "{d}: the content became {now:?}");
	}
	Ok(())
}
};
(@held Mutex $w:ident) => { match $w.try_lock() { Err(TryLockError::WouldBlock) => Ok(()), _ => Err("the mutex is not locked while its content is encoded".into()) } };
(@held RwLock $w:ident) => {
	if !matches!($w.try_write(), Err(TryLockError::WouldBlock)) { Err("the lock is not held while its content is encoded".into()) }
	else if matches!($w.try_read(), Err(TryLockError::WouldBlock)) { Err("the lock is held for writing while its content is encoded".into()) }
	else { Ok(()) }
};
(@free Mutex $l:ident $d:ident) => { ensure!(!matches!($l.try_lock(), Err(TryLockError::WouldBlock)), "{}: the mutex stays locked", $d) };
(@free RwLock $l:ident $d:ident) => { ensure!(!matches!($l.try_write(), Err(TryLockError::WouldBlock)), "{}: the lock stays held", $d) };
(@content Mutex $l:ident) => { $l.lock().unwrap_or_else(|e| e.into_inner()).to_vec() };
(@content RwLock $l:ident) => { $l.read().unwrap_or_else(|e| e.into_inner()).to_vec() };
}

lock_history!(mutex_vec, Mutex, poison_mutex, |p: Vec<Probe>| Arc::new(Mutex::new(p)), Vec<Probe>, true);
lock_history!(mutex_slice, Mutex, poison_mutex, |p: Vec<Probe>| -> Arc<Mutex<[Probe]>> {
	match p.len() {
		0 => Arc::new(Mutex::new([])),
		1 => Arc::new(Mutex::new(<[Probe; 1]>::try_from(p).unwrap())),
		2 => Arc::new(Mutex::new(<[Probe; 2]>::try_from(p).unwrap())),
		3 => Arc::new(Mutex::new(<[Probe; 3]>::try_from(p).unwrap())),
		4 => Arc::new(Mutex::new(<[Probe; 4]>::try_from(p).unwrap())),
		5 => Arc::new(Mutex::new(<[Probe; 5]>::try_from(p).unwrap())),
		_ => Arc::new(Mutex::new(<[Probe; 6]>::try_from(p).unwrap())),
	}
}, [Probe], true);
lock_history!(rw_vec, RwLock, poison_rw, |p: Vec<Probe>| Arc::new(RwLock::new(p)), Vec<Probe>, true);
lock_history!(rw_slice, RwLock, poison_rw, |p: Vec<Probe>| -> Arc<RwLock<[Probe]>> {
	match p.len() {
		0 => Arc::new(RwLock::new([])),
		1 => Arc::new(RwLock::new(<[Probe; 1]>::try_from(p).unwrap())),
		2 => Arc::new(RwLock::new(<[Probe; 2]>::try_from(p).unwrap())),
		3 => Arc::new(RwLock::new(<[Probe; 3]>::try_from(p).unwrap())),
		4 => Arc::new(RwLock::new(<[Probe; 4]>::try_from(p).unwrap())),
		5 => Arc::new(RwLock::new(<[Probe; 5]>::try_from(p).unwrap())),
		_ => Arc::new(RwLock::new(<[Probe; 6]>::try_from(p).unwrap())),
	}
}, [Probe], true);

/// Arrays have no count.
fn mutex_array(g: &mut Gen, o: &mut Obs) -> R {
	let ps = [gen_probe(g), gen_probe(g), gen_probe(g)];
	o.key(format!("{ps:?}").as_bytes());
	o.nontrivial(true);
	o.describe(|| format!("Mutex, RwLock, RefCell and references around {ps:?}"));
	let room = room(g, 3);
	let want = model(&ps, room, false);
	let m = Arc::new(Mutex::new(ps.clone()));
	let w = m.clone();
	let a = watched(&*m, room, Box::new(move || lock_history!(@held Mutex w)))?;
	let m = Arc::new(RwLock::new(ps.clone()));
	let w = m.clone();
	let b = watched(&*m, room, Box::new(move || lock_history!(@held RwLock w)))?;
	let m = Rc::new(RefCell::new(ps.clone()));
	let w = m.clone();
	let c = watched(&*m, room, Box::new(move || if w.try_borrow_mut().is_err() { Ok(()) } else { Err("the cell is not borrowed while its content is encoded".into()) }))?;
	ensure!(a.0 == want && b.0 == want && c.0 == want, "around {ps:?}, room for {room} bytes: {a:?}, {b:?} and {c:?} instead of {want:?}");
	note(o, &want);
	Ok(())
}

fn ref_cells(g: &mut Gen, o: &mut Obs) -> R {
	let ps = gen_probes(g);
	let cell = Rc::new(RefCell::new(ps.clone()));
	o.key(format!("{ps:?}").as_bytes());
	let mut log = Vec::new();
	let r = (|| -> R {
		for _ in 0..g.range(1, 5) {
			let room = room(g, ps.len());
			let want = model(&ps, room, true);
			let w = cell.clone();
			let check: Watch = Box::new(move || if w.try_borrow_mut().is_ok() { Err("the cell is not borrowed while its content is encoded".into()) } else if w.try_borrow().is_err() { Err("the cell is borrowed mutably while its content is encoded".into()) } else { Ok(()) });
			match g.draw(3) {
				0 => {
					log.push("free".to_string());
					let (out, _) = watched(&*cell, room, check)?;
					ensure!(out == want, "{out:?} instead of {want:?}");
					note(o, &out);
				},
				1 => {
					let k = g.range(1, 3);
					log.push(format!("{k} shared"));
					o.nontrivial(true);
					o.class("shared-borrowed");
					let b: Vec<_> = (0..k).map(|_| cell.borrow()).collect();
					let (out, _) = watched(&*cell, room, check)?;
					ensure!(out == want, "with {k} shared borrows {out:?} instead of {want:?}");
					ensure!(b.iter().all(|b| **b == ps), "the content changes");
					drop(b);
				},
				2 => {
					log.push("mutable".to_string());
					o.nontrivial(true);
					let b = cell.borrow_mut();
					let (out, looks) = watched(&*cell, room, Box::new(|| Ok(())))?;
					ensure!(out == Out::Borrow, "borrowed mutably, {out:?} instead of a borrow error");
					ensure!(looks == 0, "borrowed mutably, its content is encoded");
					ensure!(*b == ps, "the content changes");
					note(o, &out);
				},
				_ => {
					// Inside other values.
					log.push("nested".to_string());
					let v = vec![cell.clone(), cell.clone()];
					let b = g.boolean().then(|| cell.borrow_mut());
					let (out, _) = watched(&v, 128, Box::new(|| Ok(())))?;
					let one = model(&ps, 126, true);
					let want = match (b.is_some(), one) {
						(true, _) => Out::Borrow,
						(false, Out::Bytes(x)) => { let mut d = vec![2, 0]; d.extend(&x); d.extend(&x); Out::Bytes(d) },
						// The outer index is that of the first cell.
						(false, Out::Bad(_, x)) => Out::Bad(0, x),
						(false, x) => x,
					};
					ensure!(out == want, "twice in a vector, {out:?} instead of {want:?}");
				},
			}
			ensure!(cell.try_borrow_mut().is_ok(), "the cell stays borrowed");
			ensure!(*cell.borrow() == ps, "the content becomes {:?}", cell.borrow());
		}
		Ok(())
	})();
	o.describe(|| format!("RefCell around {ps:?}: {}", log.join(", ")));
	r.map_err(|m| format!("RefCell around {ps:?}: {}: {m}", log.join(", ")))
}

/// Locks and cells in each other, and the same one twice.
fn nested(g: &mut Gen, o: &mut Obs) -> R {
	let p = gen_probe(g);
	let room = *g.pick(&[64usize, 0, 1, 2, 3, 4]);
	let kind = g.draw(6);
	o.key(format!("{p:?}{room}{kind}").as_bytes());
	o.nontrivial(true);
	o.describe(|| format!("kind {kind} around {p:?}, room for {room} bytes"));
	let one = std::slice::from_ref(&p);
	let twice = [p.clone(), p.clone()];
	let d = format!("kind {kind} around {p:?}, room for {room} bytes");
	// (No watch: only what comes out, and that all is free afterwards.)
	let (out, want, free) = match kind {
		0 => {
			let m = Mutex::new(RefCell::new(p.clone()));
			let r = run(&m, room);
			let f = match m.try_lock() {
				Ok(m) => m.try_borrow_mut().is_ok(),
				Err(TryLockError::Poisoned(e)) => e.into_inner().try_borrow_mut().is_ok(),
				Err(TryLockError::WouldBlock) => false,
			};
			(r, model(one, room, false), f)
		},
		1 => { let m = RefCell::new(Mutex::new(p.clone())); let r = run(&m, room); let f = m.try_borrow_mut().is_ok_and(|m| !matches!(m.try_lock(), Err(TryLockError::WouldBlock))); (r, model(one, room, false), f) },
		2 => { let m = Arc::new(RwLock::new(Mutex::new(p.clone()))); let r = run(&m, room); let f = m.try_write().is_ok_and(|m| !matches!(m.try_lock(), Err(TryLockError::WouldBlock))); (r, model(one, room, false), f) },
		3 => {
			let m = Mutex::new(p.clone());
			let r = run(&[&m, &m], room);
			let f = !matches!(m.try_lock(), Err(TryLockError::WouldBlock));
			(r, model(&twice, room, false), f)
		},
		4 => {
			let m = RwLock::new(p.clone());
			let r = run(&[&m, &m], room);
			let f = m.try_write().is_ok();
			(r, model(&twice, room, false), f)
		},
		5 => {
			let m = RefCell::new(p.clone());
			let r = run(&[&m, &m], room);
			let f = m.try_borrow_mut().is_ok();
			(r, model(&twice, room, false), f)
		},
		_ => { let m = Rc::new(RefCell::new(RefCell::new(p.clone()))); let r = run(&*m, room); let f = m.try_borrow_mut().is_ok_and(|m| m.try_borrow_mut().is_ok()); (r, model(one, room, false), f) },
	};
	ensure!(out == want, "{d}: {out:?} instead of {want:?}");
	ensure!(free, "{d}: something stays locked or borrowed");
	note(o, &want);
	Ok(())
}

fn lazy_content() -> Vec<Probe> {
	INITS.with(|i| i.set(i.get() + 1));
	if INIT_PANICS.with(|p| p.get()) { panic!("the initialiser panics") }
	CONTENT.with(|c| c.borrow().clone())
}

fn lazies(g: &mut Gen, o: &mut Obs) -> R {
	let ps = gen_probes(g);
	INITS.with(|i| i.set(0));
	CONTENT.with(|c| *c.borrow_mut() = ps.clone());
	let blow = g.chance(1, 8);
	INIT_PANICS.with(|c| c.set(blow));
	let sync = g.boolean();
	let forced = g.boolean();
	let n = g.range(1, 4);
	o.key(format!("{ps:?}{blow}{sync}{forced}{n}").as_bytes());
	o.nontrivial(true);
	if blow { o.class("initialiser panics") }
	o.class(if sync { "LazyLock" } else { "LazyCell" });
	let d = format!("{} of {ps:?}{}{}", if sync { "LazyLock" } else { "LazyCell" }, if forced { ", forced before" } else { "" }, if blow { ", the initialiser panics" } else { "" });
	o.describe(|| format!("{d}, encoded {n} times"));
	let a: LazyCell<Vec<Probe>> = LazyCell::new(lazy_content);
	let b: LazyLock<Vec<Probe>> = LazyLock::new(lazy_content);
	let inits = || INITS.with(|i| i.get());
	ensure!(inits() == 0, "{d}: initialised on construction");
	if forced && !blow { if sync { LazyLock::force(&b); } else { LazyCell::force(&a); } }
	for k in 0..n {
		let room = room(g, ps.len());
		let out = if sync { run(&b, room) } else { run(&a, room) };
		let want = if blow { Out::Panic } else { model(&ps, room, true) };
		ensure!(out == want, "{d}, time {k}, room for {room} bytes: {out:?} instead of {want:?}");
		ensure!(inits() == 1, "{d}, time {k}: the initialiser ran {} times", inits());
		note(o, &out);
	}
	if !blow {
		let now = if sync { &*b } else { &*a };
		ensure!(*now == ps && inits() == 1, "{d}: the content became {now:?}");
	}
	Ok(())
}

static RACE: Mutex<()> = Mutex::new(());
static RACE_INITS: AtomicU32 = AtomicU32::new(0);

/// Several threads encode a lazy value at once.
fn lazy_race(g: &mut Gen, o: &mut Obs) -> R {
	fn init() -> (u32, u32) {
		let n = RACE_INITS.fetch_add(1, Ordering::SeqCst);
		std::thread::yield_now();
		(n, 0xABCD)
	}
	let _one = RACE.lock().unwrap_or_else(|e| e.into_inner());
	let n = g.range(2, 4);
	o.key(&g.draw(u64::MAX).to_le_bytes());
	o.nontrivial(true);
	o.describe(|| format!("{n} threads encode a new LazyLock"));
	RACE_INITS.store(0, Ordering::SeqCst);
	let l: LazyLock<(u32, u32)> = LazyLock::new(init);
	let go = std::sync::Barrier::new(n);
	let outs: Vec<Vec<u8>> = std::thread::scope(|s| {
		let h: Vec<_> = (0..n).map(|_| s.spawn(|| {
			go.wait();
			let mut d = [0u8; 8];
			let mut o = Output::new(&mut d);
			l.encode(&mut o).unwrap();
			let p = o.position();
			d[..p].to_vec()
		})).collect();
		h.into_iter().map(|h| h.join().unwrap()).collect()
	});
	let n = RACE_INITS.load(Ordering::SeqCst);
	ensure!(n == 1, "the initialiser ran {n} times");
	for x in &outs { ensure!(**x == [0, 0, 0, 0, 0xCD, 0xAB, 0, 0], "a thread encodes {}", hex(x)) }
	Ok(())
}

/// Another thread holds the lock, changing the content in steps.
fn contended(g: &mut Gen, o: &mut Obs) -> R {
	let steps = g.range(1, 4) as u32;
	let rw = g.boolean();
	let pause = g.draw(40);
	o.key(&g.draw(u64::MAX).to_le_bytes());
	o.nontrivial(true);
	o.describe(|| format!("{} changed {steps} times by another thread, {pause} us apart", if rw { "RwLock" } else { "Mutex" }));
	let m = Mutex::new([0u32; 3]);
	let r = RwLock::new([0u32; 3]);
	let (tx, rx) = mpsc::channel();
	let outs: Result<Vec<(usize, Vec<u8>)>, String> = std::thread::scope(|s| {
		s.spawn(|| {
			let change = |a: &mut [u32; 3], k: u32| {
				a[0] = k;
				std::thread::sleep(Duration::from_micros(pause));
				a[1] = k;
				std::thread::yield_now();
				a[2] = k;
			};
			for k in 1..=steps {
				if rw { let mut g = r.write().unwrap(); tx.send(k).unwrap(); change(&mut g, k) }
				else { let mut g = m.lock().unwrap(); tx.send(k).unwrap(); change(&mut g, k) }
				std::thread::yield_now();
			}
			drop(tx);
		});
		let mut outs = Vec::new();
		// Each time the lock is known to be held by the other thread, or to
		// have been since.
		while let Ok(k) = rx.recv() {
			for _ in 0..2 {
				let mut d = [0u8; 12];
				let mut out = Output::new(&mut d);
				let res = catch(|| if rw { r.encode(&mut out).map_err(|_| ()) } else { m.encode(&mut out).map_err(|_| ()) });
				let p = out.position();
				match res { Ok(Ok(())) => outs.push((k as usize, d[..p].to_vec())), x => return Err(format!("encoding a lock that another thread holds gives {x:?}")) }
			}
		}
		Ok(outs)
	});
	let mut last = 0;
	for (k, x) in outs? {
		ensure!(x.len() == 12 && x[..4] == x[4..8] && x[..4] == x[8..], "a half-changed content is encoded: {}", hex(&x));
		let v = u32::from_le_bytes([x[0], x[1], x[2], x[3]]) as usize;
		ensure!(v >= k && v >= last, "after change {k} began, {v} is encoded");
		last = v;
	}
	Ok(())
}

/// Other threads encode the lock at the same time, while one keeps reading.
fn readers(g: &mut Gen, o: &mut Obs) -> R {
	let n = g.range(1, 3);
	let x = g.draw(u64::MAX);
	o.key(&x.to_le_bytes());
	o.nontrivial(true);
	o.describe(|| format!("an RwLock of {x} is encoded by {n} threads and read by another"));
	let l = Arc::new(RwLock::new(x));
	let held = l.read().unwrap();
	// A thread that cannot finish is left behind rather than waited for.
	let (tx, rx) = mpsc::channel();
	for _ in 0..n {
		let (l, tx) = (l.clone(), tx.clone());
		std::thread::spawn(move || {
			let mut d = [0u8; 8];
			let r = catch(|| { let mut o = Output::new(&mut d); l.encode(&mut o).is_ok() });
			let _ = tx.send((r, d));
		});
	}
	for _ in 0..n {
		match rx.recv_timeout(Duration::from_secs(20)) {
			Ok((Ok(true), d)) => ensure!(d == x.to_le_bytes(), "a thread encodes {}", hex(&d)),
			Ok((r, _)) => return Err(format!("encoding beside a reader gives {r:?}")),
			Err(_) => return Err("encoding waits for a reader to finish".into()),
		}
	}
	drop(held);
	Ok(())
}

/// Cells and atomics: value for value, and unchanged.
fn plain(g: &mut Gen, o: &mut Obs) -> R {
	fn enc<T: Encode + ?Sized>(x: &T) -> Result<Vec<u8>, ()> {
		let mut d = [0u8; 64];
		let mut o = Output::new(&mut d);
		let r = x.encode(&mut o);
		let p = o.position();
		r.map(|()| d[..p].to_vec()).map_err(|_| ())
	}
	let x = g.uint(64) as u64;
	let kind = g.draw(17);
	o.key(&x.to_le_bytes());
	o.key(&[kind as u8]);
	o.nontrivial(x != 0);
	o.describe(|| format!("kind {kind} of {x:#x}"));
	macro_rules! at { ($a:ty, $t:ty) => { {
		let v = x as $t;
		let a = <$a>::new(v);
		for _ in 0..2 {
			let (e, f) = (enc(&a), enc(&v));
			ensure!(e == f, "{} of {v}: {e:?} instead of {f:?}", stringify!($a));
			ensure!(a.load(Ordering::SeqCst) == v, "{} of {v} becomes {a:?}", stringify!($a));
		}
		// And it follows changes.
		let w = !v;
		a.store(w, Ordering::SeqCst);
		let (e, f) = (enc(&a), enc(&w));
		ensure!(e == f, "{} changed to {w}: {e:?} instead of {f:?}", stringify!($a));
		if let Ok(d) = f {
			let b = <$a>::decode(&mut Input::new(&d)).map_err(|_| format!("{} of {w} does not decode", stringify!($a)))?;
			ensure!(b.into_inner() == w, "{} of {w} decodes to something else", stringify!($a));
		}
	} } }
	macro_rules! cell { ($t:ty, $v:expr) => { {
		let v: $t = $v;
		let c = Cell::new(v);
		let (e, f) = (enc(&c), enc(&v));
		ensure!(e == f && enc(&c) == f, "Cell of {v:?}: {e:?} instead of {f:?}");
		ensure!(c.get() == v, "Cell of {v:?} becomes {c:?}");
		let (b, m, r) = (RefCell::new(v), Mutex::new(v), RwLock::new(v));
		ensure!(enc(&b) == f && enc(&m) == f && enc(&r) == f, "RefCell, Mutex or RwLock of {v:?}: {:?}, {:?}, {:?} instead of {f:?}", enc(&b), enc(&m), enc(&r));
		ensure!(b.into_inner() == v && m.into_inner().is_ok_and(|m| m == v) && r.into_inner().is_ok_and(|r| r == v), "the content {v:?} changes");
		if let Ok(d) = f {
			let c = Cell::<$t>::decode(&mut Input::new(&d)).map_err(|_| format!("Cell of {v:?} does not decode"))?;
			ensure!(c.get() == v, "Cell of {v:?} decodes to {c:?}");
			let m = Mutex::<$t>::decode(&mut Input::new(&d)).map_err(|_| format!("Mutex of {v:?} does not decode"))?;
			ensure!(!m.is_poisoned() && m.try_lock().is_ok_and(|m| *m == v), "Mutex of {v:?} decodes to {m:?}");
			let m = RwLock::<$t>::decode(&mut Input::new(&d)).map_err(|_| format!("RwLock of {v:?} does not decode"))?;
			ensure!(!m.is_poisoned() && m.try_write().is_ok_and(|m| *m == v), "RwLock of {v:?} decodes to {m:?}");
			let m = RefCell::<$t>::decode(&mut Input::new(&d)).map_err(|_| format!("RefCell of {v:?} does not decode"))?;
			ensure!(m.try_borrow_mut().is_ok_and(|m| *m == v), "RefCell of {v:?} decodes to {m:?}");
		}
	} } }
	match kind {
		0 => at!(AtomicU8, u8), 1 => at!(AtomicU16, u16), 2 => at!(AtomicU32, u32), 3 => at!(AtomicU64, u64), 4 => at!(AtomicUsize, usize),
		5 => at!(AtomicI8, i8), 6 => at!(AtomicI16, i16), 7 => at!(AtomicI32, i32), 8 => at!(AtomicI64, i64), 9 => at!(AtomicIsize, isize),
		10 => {
			let v = x % 2 == 1;
			let a = AtomicBool::new(v);
			ensure!(enc(&a) == enc(&v) && a.load(Ordering::SeqCst) == v, "AtomicBool of {v}: {:?}", enc(&a));
			a.store(!v, Ordering::SeqCst);
			ensure!(enc(&a) == enc(&!v), "AtomicBool of {}: {:?}", !v, enc(&a));
		},
		11 => cell!(u8, x as u8), 12 => cell!(i64, x as i64), 13 => cell!(usize, x as usize), 14 => cell!(char, char::from_u32(x as u32 & 0xFFFF).unwrap_or('x')),
		15 => cell!((u16, u16), (x as u16, (x >> 16) as u16)), 16 => cell!(isize, x as isize), _ => cell!([u32; 3], [x as u32, (x >> 8) as u32, 7]),
	}
	Ok(())
}

/// An atomic that other threads flip between two values.
fn torn(g: &mut Gen, o: &mut Obs) -> R {
	let (a, b) = (g.draw(u64::MAX), g.draw(u64::MAX));
	o.key(&a.to_le_bytes());
	o.nontrivial(a != b);
	o.describe(|| format!("an atomic flips between {a:#x} and {b:#x}"));
	let x = AtomicU64::new(a);
	let stop = AtomicBool::new(false);
	let r = std::thread::scope(|s| {
		s.spawn(|| { let mut k = false; while !stop.load(Ordering::Relaxed) { x.store(if k { a } else { b }, Ordering::Relaxed); k = !k } });
		let mut r = Ok(());
		for _ in 0..500 {
			let mut d = [0u8; 8];
			let _ = x.encode(&mut Output::new(&mut d));
			let v = u64::from_le_bytes(d);
			if v != a && v != b { r = Err(format!("an atomic that is {a:#x} or {b:#x} encodes as {v:#x}")); break }
		}
		stop.store(true, Ordering::Relaxed);
		r
	});
	r
}

/// How the encoding of anything ended: its bytes, that its cell was refused, that its content was, or a panic.
fn outcome<T: Encode + ?Sized>(x: &T, room: usize, start: usize, refused: impl Fn(&T::Error) -> bool) -> Result<Out, String> {
	let mut d = vec![0xA5u8; start + room];
	let r = catch(|| {
		let mut o = Output::new(&mut d);
		o.write(&vec![0x5A; start]).map_err(|_| "the output is too small")?;
		let r = x.encode(&mut o);
		Ok::<_, &str>((match r { Ok(()) => None, Err(e) if refused(&e) => Some(Out::Borrow), Err(_) => Some(Out::Bad(0, 0)) }, o.position()))
	});
	match r {
		Ok(r) => {
			let (out, n) = r?;
			ensure!(d[..start].iter().all(|&b| b == 0x5A), "what was written before changes");
			ensure!(n >= start, "the cursor goes back from {start} to {n}");
			match out {
				None => Ok(Out::Bytes(d[start..n].to_vec())),
				Some(Out::Borrow) => {
					ensure!(n == start && d[start..].iter().all(|&b| b == 0xA5), "a refused cell leaves octets");
					Ok(Out::Borrow)
				},
				Some(o) => Ok(o),
			}
		},
		Err(_) => Ok(Out::Panic),
	}
}

thread_local! { static MADE: RefCell<(u32, Option<Box<dyn std::any::Any>>)> = const { RefCell::new((0, None)) }; }

/// What a lazy value of the current thread is made by.
fn made<T: Clone + 'static>() -> T {
	MADE.with(|m| { let mut m = m.borrow_mut(); m.0 += 1; m.1.as_ref().unwrap().downcast_ref::<T>().unwrap().clone() })
}

/// Everything that may stand around `v`, in every state it may be in.
fn around<T: Encode + Clone + PartialEq + std::fmt::Debug + Send + Sync + 'static>(v: T, g: &mut Gen, o: &mut Obs) -> R {
	let (room, start) = (if g.chance(1, 4) { g.range(0, 12) } else { 1 << 12 }, g.range(0, 5));
	let want = outcome(&v, room, start, |_| false)?;
	let name = std::any::type_name::<T>();
	o.key(format!("{name} {v:?} {room} {start}").as_bytes());
	let cell = RefCell::new(v.clone());
	let borrow = |e: &RefCellEncodeError<T::Error>| matches!(e, RefCellEncodeError::BadBorrow(_));
	let mut log = Vec::new();
	for _ in 0..g.range(1, 5) {
		match g.draw(4) {
			0 => {
				log.push("free");
				let x = outcome(&cell, room, start, borrow)?;
				ensure!(x == want, "a free RefCell gives {x:?} instead of {want:?}");
			},
			1 => {
				log.push("shared");
				let b = (cell.borrow(), cell.borrow());
				let x = outcome(&cell, room, start, borrow)?;
				ensure!(x == want, "a RefCell that is borrowed gives {x:?} instead of {want:?}");
				ensure!(cell.try_borrow_mut().is_err() && *b.0 == v && *b.1 == v, "the borrows are gone");
			},
			2 => {
				log.push("mutable");
				let b = cell.borrow_mut();
				let x = outcome(&cell, room, start, borrow)?;
				ensure!(x == Out::Borrow, "a RefCell that is borrowed mutably gives {x:?}");
				let x = outcome(&&&cell, room, start, borrow)?;
				ensure!(x == Out::Borrow, "a reference to a RefCell that is borrowed mutably gives {x:?}");
				let p: Rc<&RefCell<T>> = Rc::new(&cell);
				let x = outcome(&p, room, start, borrow)?;
				ensure!(x == Out::Borrow, "a shared pointer to a RefCell that is borrowed mutably gives {x:?}");
				let p = Some(&cell);
				if room > 0 {
					let x = outcome(&p, room, start, |_| false)?;
					ensure!(!matches!(x, Out::Bytes(_)), "an optional RefCell that is borrowed mutably gives {x:?}");
				}
				ensure!(cell.try_borrow().is_err() && *b == v, "the borrow is gone");
			},
			3 => {
				log.push("locks");
				let (m, r) = (Mutex::new(v.clone()), RwLock::new(v.clone()));
				let poisoned = g.boolean();
				if poisoned { poison_mutex(&m); poison_rw(&r); log.push("poisoned") }
				for _ in 0..2 {
					let (x, y) = (outcome(&m, room, start, |_| false)?, outcome(&r, room, start, |_| false)?);
					ensure!(x == want && y == want, "Mutex and RwLock give {x:?} and {y:?} instead of {want:?}");
				}
				if want != Out::Panic { ensure!(m.is_poisoned() == poisoned && r.is_poisoned() == poisoned, "poison comes or goes") }
				{
					let b = r.read().unwrap_or_else(|e| e.into_inner());
					let y = outcome(&r, room, start, |_| false)?;
					ensure!(y == want && *b == v, "a RwLock that is being read gives {y:?} instead of {want:?}");
				}
				ensure!(!matches!(m.try_lock(), Err(TryLockError::WouldBlock)) && !matches!(r.try_write(), Err(TryLockError::WouldBlock)), "a lock stays locked");
				ensure!(m.into_inner().unwrap_or_else(|e| e.into_inner()) == v && r.into_inner().unwrap_or_else(|e| e.into_inner()) == v, "the content changes");
			},
			_ => {
				log.push("lazies");
				let forced = g.boolean();
				macro_rules! lazy { ($l:ident) => { {
					MADE.with(|m| *m.borrow_mut() = (0, Some(Box::new(v.clone()))));
					let l = $l::<T>::new(made::<T>);
					if forced { let _ = &*l; }
					for _ in 0..2 {
						let x = outcome(&l, room, start, |_| false)?;
						ensure!(x == want, "a {} gives {x:?} instead of {want:?}", stringify!($l));
						let n = MADE.with(|m| m.borrow().0);
						ensure!(n == 1, "a {} is made {n} times", stringify!($l));
					}
					ensure!(*l == v, "the content of a {} changes", stringify!($l));
				} } }
				lazy!(LazyCell);
				lazy!(LazyLock);
			},
		}
		ensure!(cell.try_borrow_mut().is_ok_and(|c| *c == v), "the RefCell stays borrowed, or changes");
	}
	o.nontrivial(log.len() > 1);
	o.describe(|| format!("{v:?} in cells and locks: {}", log.join(", ")));
	Ok(())
}

/// Contents of all sorts: what is around them must not care.
fn contents(g: &mut Gen, o: &mut Obs) -> R {
	use std::marker::PhantomData;
	let x = g.uint(64) as u64;
	let s: String = (0..g.range(0, 6)).map(|_| *g.pick(&['a', '\0', 'é', '𝄞'])).collect();
	let r = match g.draw(23) {
		0 => around((), g, o), 1 => around([0u8; 0], g, o), 2 => around(PhantomData::<u64>, g, o), 3 => around([(); 3], g, o),
		4 => around(x as u8, g, o), 5 => around(x % 2 == 0, g, o), 6 => around(x as u32, g, o), 7 => around(x as u128, g, o),
		8 => around(x as usize, g, o), 9 => around(x as isize, g, o),
		10 => around(char::from_u32(x as u32 & 0xFFFF).unwrap_or('x'), g, o), 11 => around((x % 2 == 0).then_some(x as u16), g, o),
		12 => around(None::<()>, g, o), 13 => around(s, g, o), 14 => around(s.into_bytes(), g, o), 15 => around(s.into_boxed_str(), g, o),
		16 => around(vec![(); x as usize % 9], g, o), 17 => around(vec![x as usize; 3], g, o),
		18 => around(oct::SizedStr::<6>::new(&s).unwrap_or_default(), g, o), 19 => around([(); 4].iter().map(|_| ()).collect::<oct::SizedSlice<(), 3>>(), g, o),
		20 => around((x as u8, x as u64), g, o), 21 => around(std::net::IpAddr::from([x as u8, 1, 2, 3]), g, o),
		22 => around(std::time::Duration::from_millis(x >> 20), g, o), _ => around(std::num::NonZero::new(x as i16 | 1), g, o),
	};
	r.map_err(|m| format!("x = {x:#x}: {m}"))
}

pub fn units() -> Vec<Unit> {
	vec![
		unit("C18", "contents", 40_000, contents),
		unit("C18", "Mutex<Vec>", 15_000, mutex_vec),
		unit("C18", "Mutex<[T]>", 10_000, mutex_slice),
		unit("C18", "RwLock<Vec>", 15_000, rw_vec),
		unit("C18", "RwLock<[T]>", 10_000, rw_slice),
		unit("C18", "arrays", 10_000, mutex_array),
		unit("C18", "RefCell", 20_000, ref_cells),
		unit("C18", "nested", 10_000, nested),
		unit("C18", "lazies", 15_000, lazies),
		unit("C18", "lazy, several threads", 400, lazy_race),
		unit("C18", "contended locks", 600, contended),
		unit("C18", "beside readers", 400, readers),
		unit("C18", "cells and atomics", 40_000, plain),
		unit("C18", "atomic changed meanwhile", 100, torn),
	]
}
