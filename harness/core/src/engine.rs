//! Choice-sequence property engine: every random decision of a case is a
//! recorded choice, so that cases replay from (seed) or (choices) and shrink
//! as one value.

#[macro_export]
macro_rules! ensure { ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)) } } }

use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::fs::File;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- randomness

pub fn splitmix(state: &mut u64) -> u64 {
	*state = state.wrapping_add(0x9E37_79B9_7F4A_7C15);
	let mut z = *state;
	z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
	z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
	z ^ (z >> 31)
}

pub fn hash_bytes(mut h: u64, data: &[u8]) -> u64 {
	h ^= 0xCBF2_9CE4_8422_2325;
	for b in data {
		h ^= *b as u64;
		h = h.wrapping_mul(0x0000_0100_0000_01B3);
	}
	let mut s = h;
	splitmix(&mut s)
}

pub struct Gen {
	rng: u64,
	forced: Vec<u64>,
	random: bool,
	pub rec: Vec<u64>,
	trace: Option<File>,
	/// A number that this case is fond of.
	bias: Option<u128>,
}

/// The numbers in the source of what is tested (`VH_DICT`), as fuzzers have it.
fn dict() -> &'static [u128] {
	static DICT: OnceLock<Vec<u128>> = OnceLock::new();
	DICT.get_or_init(|| std::env::var("VH_DICT").unwrap_or_default().split(',').filter_map(|x| x.parse().ok()).collect())
}

/// Whether a number is in the dictionary.
pub fn in_dict(x: u128) -> bool { dict().binary_search(&x).is_ok() }

impl Gen {
	pub fn fresh(seed: u64) -> Self {
		Gen { rng: seed, forced: Vec::new(), random: true, rec: Vec::new(), trace: None, bias: None }
	}
	/// The first draws are forced, later ones random.
	pub fn prefixed(prefix: Vec<u64>, seed: u64) -> Self {
		Gen { rng: seed, forced: prefix, random: true, rec: Vec::new(), trace: None, bias: None }
	}
	/// All draws are forced; missing ones are zero (the simplest).
	pub fn replay(choices: Vec<u64>) -> Self {
		Gen { rng: 0, forced: choices, random: false, rec: Vec::new(), trace: None, bias: None }
	}
	pub fn set_trace(&mut self, path: &str) {
		self.trace = File::create(path).ok();
	}

	/// A number in `0..=max`; zero is the simplest.
	pub fn draw(&mut self, max: u64) -> u64 {
		let i = self.rec.len();
		let v = if i < self.forced.len() {
			self.forced[i].min(max)
		} else if self.random {
			let r = splitmix(&mut self.rng);
			if max == u64::MAX { r } else { ((r as u128 * (max as u128 + 1)) >> 64) as u64 }
		} else {
			0
		};
		self.rec.push(v);
		if let Some(f) = self.trace.as_mut() {
			let _ = f.write_all(format!("{v}\n").as_bytes());
		}
		v
	}
	pub fn below(&mut self, n: usize) -> usize {
		debug_assert!(n > 0);
		self.draw(n as u64 - 1) as usize
	}
	pub fn range(&mut self, lo: usize, hi: usize) -> usize {
		lo + self.draw((hi - lo) as u64) as usize
	}
	pub fn boolean(&mut self) -> bool { self.draw(1) == 1 }
	/// True in about `n` of `d` cases; false is the simplest.
	pub fn chance(&mut self, n: u64, d: u64) -> bool {
		let x = self.draw(d - 1);
		x >= d - n
	}
	pub fn byte(&mut self) -> u8 { self.draw(255) as u8 }
	pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.byte()).collect() }
	pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.below(xs.len())] }
	/// Perhaps chooses a number of the dictionary for the rest of the case.
	fn take_fancy(&mut self) {
		if !dict().is_empty() && self.draw(3) == 3 { self.bias = Some(dict()[self.below(dict().len())]) }
	}
	/// Perhaps the number that this case is fond of, or one near it.
	pub fn fancy(&mut self) -> Option<u128> {
		let c = self.bias?;
		if !self.boolean() { return None }
		Some(match self.draw(7) {
			5 => c.wrapping_add(1),
			6 => c.wrapping_sub(1),
			7 => c.wrapping_neg(),
			_ => c,
		})
	}
	/// The same, within `lo..=hi`.
	pub fn fancy_in(&mut self, lo: usize, hi: usize) -> Option<usize> {
		let c = self.bias?;
		if c > hi as u128 + 1 || c + 1 < lo as u128 { return None }
		let c = self.fancy()?;
		if c >= lo as u128 && c <= hi as u128 { Some(c as usize) } else { None }
	}
	/// An unsigned integer of `bits` bits, biased to the edges.
	pub fn uint(&mut self, bits: u32) -> u128 {
		let mask = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
		if let Some(c) = self.fancy() { return c & mask }
		let v = match self.draw(7) {
			0 => self.draw(3) as u128,
			1 => self.draw(255) as u128,
			2 => mask - self.draw(3) as u128,
			3 => {
				// near a power of two
				let b = self.draw(bits as u64 - 1) as u32;
				let d = self.draw(2) as u128;
				(1u128 << b).wrapping_add(d).wrapping_sub(1)
			},
			4 => {
				// the sign boundary
				let d = self.draw(4) as u128;
				(1u128 << (bits - 1)).wrapping_add(d).wrapping_sub(2)
			},
			_ => {
				let lo = self.draw(u64::MAX) as u128;
				let hi = if bits > 64 { self.draw(u64::MAX) as u128 } else { 0 };
				(hi << 64) | lo
			},
		};
		v & mask
	}
	pub fn raw128(&mut self) -> u128 {
		((self.draw(u64::MAX) as u128) << 64) | self.draw(u64::MAX) as u128
	}
}

// --------------------------------------------------------------- observation

#[derive(Default)]
pub struct Obs {
	want_desc: bool,
	print_desc: bool,
	pub desc: Option<String>,
	pub nontrivial: bool,
	pub key: Option<u64>,
	pub classes: Vec<&'static str>,
	pub excluded: u64,
}

impl Obs {
	pub fn describe(&mut self, f: impl FnOnce() -> String) {
		if self.want_desc || self.print_desc {
			let d = f();
			if self.print_desc {
				println!("case: {d}");
				let _ = std::io::stdout().flush();
			}
			self.desc = Some(d);
		}
	}
	pub fn class(&mut self, c: &'static str) {
		if !self.classes.contains(&c) { self.classes.push(c) }
	}
	pub fn nontrivial(&mut self, yes: bool) { self.nontrivial |= yes }
	pub fn key(&mut self, data: &[u8]) {
		self.key = Some(hash_bytes(self.key.unwrap_or(0), data));
	}
}

// ------------------------------------------------------------------- panics

thread_local! {
	static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
	std::panic::set_hook(Box::new(|info| {
		let msg = payload_str(info.payload());
		let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
		if std::env::var_os("VH_PANICS").is_some() { eprintln!("panic: {msg}{loc}") }
		let _ = LAST_PANIC.try_with(|p| {
			if let Ok(mut p) = p.try_borrow_mut() { *p = format!("{msg}{loc}") }
		});
	}));
}

fn payload_str(p: &(dyn Any + Send)) -> String {
	if let Some(s) = p.downcast_ref::<&str>() { (*s).to_string() }
	else if let Some(s) = p.downcast_ref::<String>() { s.clone() }
	else { "<non-string panic>".to_string() }
}

/// Runs `f`, turning an unwinding panic into its message.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
	match catch_unwind(AssertUnwindSafe(f)) {
		Ok(r) => Ok(r),
		Err(p) => {
			let m = LAST_PANIC.with(|p| p.borrow().clone());
			// The payload's own drop must not unwind out of here.
			let _ = catch_unwind(AssertUnwindSafe(move || drop(p)));
			Err(m)
		},
	}
}

// -------------------------------------------------------------------- units

pub type CaseFn = Box<dyn Fn(&mut Gen, &mut Obs) -> Result<(), String> + Send + Sync>;

pub struct Unit {
	pub prop: &'static str,
	pub name: String,
	/// Cases at scale 1 (quick).
	pub cases: u64,
	/// `Some(n)`: the first draw enumerates `0..n` and `cases` is ignored.
	pub exhaustive: Option<u64>,
	pub f: CaseFn,
}

pub fn unit(
	prop: &'static str,
	name: impl Into<String>,
	cases: u64,
	f: impl Fn(&mut Gen, &mut Obs) -> Result<(), String> + Send + Sync + 'static,
) -> Unit {
	Unit { prop, name: name.into(), cases, exhaustive: None, f: Box::new(f) }
}

pub fn exhaustive(
	prop: &'static str,
	name: impl Into<String>,
	n: u64,
	f: impl Fn(&mut Gen, &mut Obs) -> Result<(), String> + Send + Sync + 'static,
) -> Unit {
	Unit { prop, name: name.into(), cases: n, exhaustive: Some(n), f: Box::new(f) }
}

#[derive(Clone)]
struct Fail {
	unit: usize,
	case: u64,
	choices: Vec<u64>,
	msg: String,
	desc: String,
}

#[derive(Default)]
struct Stats {
	evaluations: u64,
	nontrivial: u64,
	excluded: u64,
	ignored: u64,
	keys: HashSet<u64>,
	classes: BTreeMap<&'static str, u64>,
	samples: Vec<(usize, String)>,
	/// Cases and time per unit, if asked for.
	times: BTreeMap<usize, (u64, Duration)>,
}

fn run_case(u: &Unit, g: &mut Gen, o: &mut Obs) -> Result<(), String> {
	if u.exhaustive.is_none() { g.take_fancy() }
	match catch(|| (u.f)(g, o)) {
		Ok(r) => r,
		Err(p) => Err(format!("unexpected panic: {p}")),
	}
}

fn case_gen(u: &Unit, seed: u64, case: u64) -> Gen {
	let mut s = hash_bytes(seed, u.prop.as_bytes());
	s = hash_bytes(s, u.name.as_bytes());
	s = hash_bytes(s, &case.to_le_bytes());
	match u.exhaustive {
		Some(_) => Gen::prefixed(vec![case], s),
		None => Gen::fresh(s),
	}
}

fn shrink(u: &Unit, fail: &mut Fail, budget: Duration) {
	let end = Instant::now() + budget;
	let attempt = |choices: Vec<u64>, best: &mut Fail| -> bool {
		let mut g = Gen::replay(choices);
		let mut o = Obs { want_desc: true, ..Obs::default() };
		let r = run_case(u, &mut g, &mut o);
		if let Err(msg) = r {
			let smaller = g.rec.len() < best.choices.len()
				|| (g.rec.len() == best.choices.len() && g.rec < best.choices);
			if smaller {
				best.choices = g.rec;
				best.msg = msg;
				best.desc = o.desc.unwrap_or_default();
				return true;
			}
		}
		false
	};
	let mut improved = true;
	while improved && Instant::now() < end {
		improved = false;
		for block in [64usize, 32, 16, 8, 4, 2, 1] {
			let mut i = 0;
			while i + block <= fail.choices.len() && Instant::now() < end {
				let mut c = fail.choices.clone();
				c.drain(i..i + block);
				if attempt(c, fail) { improved = true } else { i += 1.max(block / 2) }
			}
		}
		for block in [16usize, 4, 1] {
			let mut i = 0;
			while i + block <= fail.choices.len() && Instant::now() < end {
				if fail.choices[i..i + block].iter().any(|c| *c != 0) {
					let mut c = fail.choices.clone();
					c[i..i + block].iter_mut().for_each(|x| *x = 0);
					if attempt(c, fail) { improved = true }
				}
				i += block;
			}
		}
		// Lower single choices; and lower one while dropping a later one.
		let mut i = 0;
		while i < fail.choices.len() && Instant::now() < end {
			let (mut lo, mut hi) = (0u64, fail.choices[i]);
			while lo < hi && Instant::now() < end {
				let mid = lo + (hi - lo) / 2;
				let mut c = fail.choices.clone();
				if i >= c.len() { break }
				c[i] = mid;
				if attempt(c, fail) { improved = true; hi = mid.min(fail.choices.get(i).copied().unwrap_or(0)) } else { lo = mid + 1 }
			}
			if i < fail.choices.len() && fail.choices[i] > 0 {
				for j in i + 1..(i + 10).min(fail.choices.len()) {
					if i >= fail.choices.len() || j >= fail.choices.len() || fail.choices[i] == 0 { break }
					let mut c = fail.choices.clone();
					c[i] -= 1;
					c.remove(j);
					if attempt(c, fail) { improved = true; break }
				}
			}
			i += 1;
		}
	}
}

pub fn json_str(s: &str) -> String {
	let mut o = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			'\n' => o.push_str("\\n"),
			c if (c as u32) < 0x20 || c as u32 == 0x7F => { let _ = write!(o, "\\u{:04x}", c as u32); },
			c => o.push(c),
		}
	}
	o.push('"');
	o
}

pub fn clip(s: &str, n: usize) -> String {
	if s.chars().count() <= n { s.to_string() } else {
		let t: String = s.chars().take(n).collect();
		format!("{t}… ({} chars)", s.chars().count())
	}
}

// --------------------------------------------------------------------- main

pub struct Known {
	pub prop: &'static str,
	pub sig: &'static str,
	pub what: String,
}

/// Whether the command line asks for a property: making units is slow in
/// slow tools.
pub fn asked(prop: &str) -> bool {
	let a: Vec<String> = std::env::args().collect();
	match a.iter().position(|a| a == "--prop").and_then(|i| a.get(i + 1)) {
		Some(p) => p == "all" || p.split(',').any(|p| p == prop),
		None => true,
	}
}

/// The entry point shared by all harness binaries.
///
/// `known` runs the fixed batteries of known findings of a property. It
/// returns findings that reproduced with their exact signature, or an error
/// for any other departure from the contract.
pub fn main_with(units: Vec<Unit>, known: fn(&str) -> Result<Vec<Known>, String>) {
	install_hook();
	let args: Vec<String> = std::env::args().collect();
	let get = |k: &str| -> Option<String> {
		args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned())
	};
	let prop = get("--prop").expect("--prop");
	let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
	let scale: f64 = get("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
	let threads: usize = get("--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
	let out = get("--out");
	let slice: Option<(u64, u64)> = get("--slice").and_then(|s| {
		let (a, b) = s.split_once('/')?;
		Some((a.parse().ok()?, b.parse().ok()?))
	});
	// For the checks that only ask whether cases crash.
	let keep_going = args.iter().any(|a| a == "--keep-going");
	let want_times = args.iter().any(|a| a == "--times");
	// For slow tools: no further case is begun after so many seconds.
	let deadline = get("--deadline").and_then(|s| s.parse().ok()).map(Duration::from_secs);
	let skip_exhaustive = args.iter().any(|a| a == "--no-exhaustive");
	let units: Vec<Unit> = units.into_iter()
		.filter(|u| prop == "all" || prop.split(',').any(|p| p == u.prop))
		.filter(|u| !(skip_exhaustive && u.exhaustive.is_some()))
		.collect();

	if args.iter().any(|a| a == "--list") {
		for u in &units { println!("{} {} {}", u.prop, u.name, u.cases) }
		return;
	}

	// One case, from its number or its choices.
	if let Some(name) = get("--unit") {
		let u = units.iter().find(|u| u.name == name).expect("no such unit");
		let mut g = if let Some(path) = get("--choices") {
			let t = std::fs::read_to_string(path).unwrap();
			Gen::replay(t.split_whitespace().map(|x| x.parse().unwrap()).collect())
		} else {
			let case: u64 = get("--case").unwrap().parse().unwrap();
			case_gen(u, seed, case)
		};
		if let Some(t) = get("--trace") { g.set_trace(&t) }
		let mut o = Obs { want_desc: true, print_desc: true, ..Obs::default() };
		match run_case(u, &mut g, &mut o) {
			Ok(()) => { println!("held"); },
			Err(m) => { println!("FAIL: {m}"); if !keep_going { std::process::exit(1) } },
		}
		return;
	}

	let started = Instant::now();
	let known_res = if keep_going || args.iter().any(|a| a == "--no-known") { Ok(Ok(Vec::new())) } else { catch(|| known(&prop)) };
	let journal: Option<File> = get("--journal").map(|p| File::create(p).unwrap());

	// Jobs of at most `chunk` cases, interleaved over the units.
	let mut jobs: Vec<(usize, u64, u64)> = Vec::new();
	for (i, u) in units.iter().enumerate() {
		let n = match u.exhaustive {
			Some(n) => n,
			None => ((u.cases as f64 * scale).ceil() as u64).max(1),
		};
		let chunk = (n / 16).clamp(1, 2000);
		let mut lo = 0;
		while lo < n {
			let hi = (lo + chunk).min(n);
			jobs.push((i, lo, hi));
			lo = hi;
		}
	}
	// A deterministic interleaving, so that the slices of a sliced run are even.
	let mut order: Vec<(u64, usize)> = (0..jobs.len())
		.map(|i| (hash_bytes(seed, &(i as u64).to_le_bytes()), i)).collect();
	order.sort_unstable();
	let mut jobs: Vec<_> = order.into_iter().map(|(_, i)| jobs[i]).collect();
	if let Some((a, b)) = slice {
		jobs = jobs.into_iter().enumerate().filter(|(i, _)| *i as u64 % b == a).map(|(_, j)| j).collect();
	}

	let next = AtomicUsize::new(0);
	let stop = AtomicBool::new(false);
	let failure: Mutex<Option<Fail>> = Mutex::new(None);
	let total: Mutex<Stats> = Mutex::new(Stats::default());

	let worker = |tid: usize| {
		let mut st = Stats::default();
		let mut sampled: HashSet<usize> = HashSet::new();
		'jobs: loop {
			let j = next.fetch_add(1, Ordering::Relaxed);
			if j >= jobs.len() || stop.load(Ordering::Relaxed) { break }
			let (ui, lo, hi) = jobs[j];
			let u = &units[ui];
			for case in lo..hi {
				if deadline.is_some_and(|d| started.elapsed() > d) { break 'jobs }
				if let Some(f) = &journal {
					let mut rec = [0u8; 24];
					rec[..8].copy_from_slice(&(ui as u64 + 1).to_le_bytes());
					rec[8..16].copy_from_slice(&case.to_le_bytes());
					rec[16..].copy_from_slice(&lo.to_le_bytes());
					let _ = f.write_at(&rec, tid as u64 * 24);
				}
				let mut g = case_gen(u, seed, case);
				let want = !sampled.contains(&ui) && sampled.len() < 3;
				let mut o = Obs { want_desc: want, ..Obs::default() };
				let began = if want_times { Some(Instant::now()) } else { None };
				let r = run_case(u, &mut g, &mut o);
				if let Some(b) = began {
					let t = st.times.entry(ui).or_default();
					t.0 += 1;
					t.1 += b.elapsed();
				}
				st.evaluations += 1;
				st.excluded += o.excluded;
				for c in &o.classes { *st.classes.entry(c).or_default() += 1 }
				if o.nontrivial {
					st.nontrivial += 1;
					let k = match o.key {
						Some(k) => hash_bytes(k, &(ui as u64).to_le_bytes()),
						None => {
							let mut h = ui as u64;
							for c in &g.rec { h = hash_bytes(h, &c.to_le_bytes()) }
							h
						},
					};
					// (Distinct cases are counted up to four million per thread.)
					if st.keys.len() < (4 << 20) { st.keys.insert(k); }
					if want {
						if let Some(d) = o.desc.take() {
							sampled.insert(ui);
							st.samples.push((ui, d));
						}
					}
				}
				if keep_going && r.is_err() { st.ignored += 1; continue }
				if let Err(msg) = r {
					let mut f = failure.lock().unwrap();
					if f.is_none() {
						*f = Some(Fail { unit: ui, case, choices: g.rec.clone(), msg, desc: o.desc.unwrap_or_default() });
					}
					stop.store(true, Ordering::Relaxed);
					break 'jobs;
				}
				if stop.load(Ordering::Relaxed) { break 'jobs }
			}
		}
		let mut t = total.lock().unwrap();
		t.evaluations += st.evaluations;
		t.nontrivial += st.nontrivial;
		t.excluded += st.excluded;
		t.ignored += st.ignored;
		t.keys.extend(st.keys);
		for (c, n) in st.classes { *t.classes.entry(c).or_default() += n }
		t.samples.extend(st.samples);
		for (u, (n, d)) in st.times { let t = t.times.entry(u).or_default(); t.0 += n; t.1 += d }
	};

	if threads <= 1 { worker(0) } else {
		std::thread::scope(|s| {
			let worker = &worker;
			for t in 0..threads {
				std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, move || worker(t)).unwrap();
			}
		});
	}

	let st = total.into_inner().unwrap();
	let mut fail = failure.into_inner().unwrap();

	for (u, (n, d)) in &st.times { eprintln!("{:9.3} ms/case {:9.1} ms {n:6} {} {}", d.as_secs_f64() * 1e3 / *n as f64, d.as_secs_f64() * 1e3, units[*u].prop, units[*u].name) }

	let write_out = |fail: &Option<Fail>, shrunk: bool| {
		let mut o = String::from("{\n");
		let _ = writeln!(o, "\"evaluations\": {},", st.evaluations);
		let _ = writeln!(o, "\"nontrivial\": {},", st.nontrivial);
		let _ = writeln!(o, "\"distinct_nontrivial\": {},", st.keys.len());
		let _ = writeln!(o, "\"excluded_known\": {},", st.excluded);
		let _ = writeln!(o, "\"ignored_failures\": {},", st.ignored);
		let _ = writeln!(o, "\"units\": {},", units.len());
		let ex: Vec<_> = units.iter().filter(|u| u.exhaustive.is_some()).map(|u| json_str(&u.name)).collect();
		let _ = writeln!(o, "\"exhaustive_units\": [{}],", ex.join(", "));
		let cl: Vec<_> = st.classes.iter().map(|(k, v)| format!("{}: {v}", json_str(k))).collect();
		let _ = writeln!(o, "\"classes\": {{{}}},", cl.join(", "));
		let sm: Vec<_> = st.samples.iter().take(12)
			.map(|(u, d)| json_str(&format!("[{}] {}", units[*u].name, clip(d, 500)))).collect();
		let _ = writeln!(o, "\"samples\": [{}],", sm.join(",\n "));
		match &known_res {
			Ok(Ok(k)) => {
				let ks: Vec<_> = k.iter().map(|k| format!("{{\"property\": {}, \"sig\": {}, \"what\": {}}}",
					json_str(k.prop), json_str(k.sig), json_str(&k.what))).collect();
				let _ = writeln!(o, "\"known\": [{}],", ks.join(", "));
			},
			Ok(Err(m)) | Err(m) => { let _ = writeln!(o, "\"known_battery_violation\": {},", json_str(m)); },
		}
		if let Some(f) = fail {
			let ch: Vec<_> = f.choices.iter().map(|c| c.to_string()).collect();
			let _ = writeln!(o, "\"failure\": {{\"prop\": {}, \"unit\": {}, \"case\": {}, \"shrunk\": {}, \"message\": {}, \"description\": {}, \"choices\": [{}]}},",
				json_str(units[f.unit].prop), json_str(&units[f.unit].name), f.case, shrunk, json_str(&f.msg), json_str(&f.desc), ch.join(","));
		}
		let _ = writeln!(o, "\"wall_s\": {:.3}\n}}", started.elapsed().as_secs_f64());
		match &out {
			Some(p) => std::fs::write(p, o).unwrap(),
			None => println!("{o}"),
		}
	};

	if fail.is_some() {
		if out.is_some() { write_out(&fail, false) }
		let f = fail.as_mut().unwrap();
		let budget: u64 = get("--shrink").and_then(|s| s.parse().ok()).unwrap_or(20);
		shrink(&units[f.unit], f, Duration::from_secs(budget));
		if f.desc.is_empty() {
			let mut g = Gen::replay(f.choices.clone());
			let mut o = Obs { want_desc: true, ..Obs::default() };
			let _ = run_case(&units[f.unit], &mut g, &mut o);
			f.desc = o.desc.unwrap_or_default();
		}
		write_out(&fail, true);
		std::process::exit(1);
	}
	let bad_known = !matches!(known_res, Ok(Ok(_)));
	write_out(&None, false);
	if bad_known { std::process::exit(1) }
}
