//! The codec properties over the registry of concrete types.

use vh::engine::Known;

#[cfg(feature = "ckalloc")]
#[global_allocator]
static ALLOCATOR: vh::ckalloc::Checked = vh::ckalloc::Checked;

fn known(p: &str) -> Result<Vec<Known>, String> {
	if p == "C04" { vh::codec::known_c04() } else { Ok(Vec::new()) }
}

fn main() {
	let es: &'static [_] = vh::registry::entries().leak();
	let mut u = vh::codec::units(es);
	u.extend(vh::small::codec_units());
	u.extend(vh::errors::units());
	vh::engine::main_with(u, known);
}
