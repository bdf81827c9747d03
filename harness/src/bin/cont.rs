//! Streams, slots, containers, comparisons, cells and the drop ledger.

use vh::engine::Known;

#[cfg(feature = "ckalloc")]
#[global_allocator]
static ALLOCATOR: vh::ckalloc::Checked = vh::ckalloc::Checked;

fn known(p: &str) -> Result<Vec<Known>, String> {
	match p {
		"C15" => vh::sslice::known_c15(),
		"C16" => vh::ledger::known_c16(),
		_     => Ok(Vec::new()),
	}
}

fn main() {
	let mut u = Vec::new();
	u.extend(vh::streams::units());
	u.extend(vh::slots::units());
	u.extend(vh::sslice::units());
	u.extend(vh::ledger::units());
	u.extend(vh::sstr::units());
	u.extend(vh::cmp::units());
	u.extend(vh::cells::units());
	u.extend(vh::small::container_units());
	#[cfg(feature = "dense")]
	u.extend(vh::dense::units());
	vh::engine::main_with(u, known);
}
