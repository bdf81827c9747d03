# Descriptions of planted bugs, second batch; see mkbug.py.
import runpy, os
B1 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs1.py"))
globals().update({k: v for k, v in B1.items() if k.isupper() and k != "BUGS"})
BUGS = []
def bug(id, property, needs, breaks, edits, main, **kw):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=PRE + "fn main() {\n" + main + "\n}\n" + kw.pop("items", ""), **kw))

LIB = '''#!/bin/bash
# Builds the library beside this script, which has no standard library, against
# the library in the current directory.
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTUP_TOOLCHAIN=stable
HERE=$(cd "$(dirname "$0")" && pwd) || exit 2
REPO=$(pwd)
D=$(mktemp -d) || exit 2
trap 'rm -rf -- "$D"' EXIT
mkdir "$D/src"
cp "$HERE/main.rs" "$D/src/lib.rs" || exit 2
cp "$REPO/Cargo.lock" "$D/Cargo.lock"
cat > "$D/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
oct = { path = "$REPO/oct"@FEAT@ }
[workspace]
TOML
cd "$D" || exit 2
cargo build --offline --quiet --target-dir "$D/target" || exit 3
'''
PANIC = '''#![no_std]
pub use oct;
#[panic_handler] fn panic(_: &core::panic::PanicInfo) -> ! { loop { } }
'''
def lib(id, property, needs, breaks, edits, src, **kw):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=src, demo_sh=LIB, compile=True, **kw))

lib("c19-cstr-gate", "C19", "a build without the alloc feature that encodes a CStr",
 "CStr, which needs nothing but core, is encodable with the alloc feature alone",
 [(ENC, "impl Encode for CStr {", '#[cfg(feature = "alloc")]\n#[cfg_attr(doc, doc(cfg(feature = "alloc")))]\nimpl Encode for CStr {')],
 "#![no_std]\npub fn f(s: &core::ffi::CStr, o: &mut oct::encode::Output) -> bool { oct::encode::Encode::encode(s, o).is_ok() }\n", features=[])

lib("c19-std-link", "C19", "a target without std, and the alloc feature",
 "the standard library is linked when only alloc is asked for",
 [("oct/src/lib.rs", '#[cfg(feature = "std")]\nextern crate std;', '#[cfg(any(feature = "alloc", feature = "std"))]\nextern crate std;')],
 PANIC, features=["alloc"])

lib("c19-derive-std", "C19", "a no_std crate that derives Decode for an enumeration",
 "the derived decoder of enumerations names std",
 [("oct-macros/src/impls/decode_enum.rs", "::core::result::Result::Ok(this)", "::std::result::Result::Ok(this)")],
 "#![no_std]\n#[derive(oct::decode::Decode)] pub enum E { A, B }\n", features=["proc-macro"])

bug("c19-usize-wrap", "C19", "a build without the std feature and a usize above 65535",
 "without std, usize is truncated rather than refused",
 [(ENC, '''		let value = u16::try_from(*self)
			.map_err(|_e| UsizeEncodeError(*self))?;
''', '''		#[cfg(feature = "std")]
		let value = u16::try_from(*self)
			.map_err(|_e| UsizeEncodeError(*self))?;

		#[cfg(not(feature = "std"))]
		let value = *self as u16;
''')],
 'let mut b = [0; 4]; assert!(0x10001usize.encode(&mut Output::new(&mut b)).is_err());', features=["alloc"])

bug("c19-cow-bound", "C19", "alloc without std, and the size bound of a shared pointer",
 "Rc claims a smaller bound when std is off",
 [(SZ, '''impl<T: SizedEncode> SizedEncode for Rc<T> {
	const MAX_ENCODED_SIZE: usize = T::MAX_ENCODED_SIZE;''', '''impl<T: SizedEncode> SizedEncode for Rc<T> {
	#[cfg(feature = "std")]
	const MAX_ENCODED_SIZE: usize = T::MAX_ENCODED_SIZE;
	#[cfg(not(feature = "std"))]
	const MAX_ENCODED_SIZE: usize = size_of::<T>();''')],
 'assert_eq!(<std::rc::Rc<Option<std::num::NonZero<u32>>> as SizedEncode>::MAX_ENCODED_SIZE, 5);', features=["alloc"])
