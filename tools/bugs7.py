# Descriptions of planted bugs, seventh batch; see mkbug.py.
import runpy, os
B1 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs1.py"))
globals().update({k: v for k, v in B1.items() if k.isupper() and k != "BUGS"})
CMP="oct/src/sized_slice/cmp.rs"
BUGS = []
def bug(id, property, needs, breaks, edits, main, **kw):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=PRE + "fn main() {\n" + main + "\n}\n" + kw.pop("items", ""), **kw))


bug("c13-copy-word", "C13", "copying more than 65535 elements",
 "the number of copied elements is cut to 16 bits, as is the length",
 [(SS, "			let count = data.len();\n\n			// SAFETY: `T`", "			let count = data.len() & 0xFFFF;\n\n			// SAFETY: `T`")],
 'let v = vec![3u8; 0x10005]; let mut s = SizedSlice::<u8, 0x10010>::default(); s.copy_from_slice(&v); assert_eq!(s.as_slice(), &v[..]);')

bug("c15-back-word", "C15", "taking elements from the back of an iterator of more than 65536",
 "places are counted in 16 bits from the back",
 [(IT, "		let index = self.pos + self.len - 0x1;", "		let index = self.pos + (self.len - 0x1) as u16 as usize;")],
 'let v: Vec<u32> = (0..0x10005).collect(); let s = Box::new(SizedSlice::<u32, 0x10005>::new(&v).unwrap()); let mut i = s.into_iter(); for x in v.iter().rev() { assert_eq!(i.next_back(), Some(*x)); }')

bug("c21-eq-word", "C21", "slices whose lengths differ by a multiple of 65536",
 "lengths are compared in 16 bits",
 [(CMP, '''	fn eq(&self, other: &Vec<U>) -> bool {
		self.as_slice() == other.as_slice()''', '''	fn eq(&self, other: &Vec<U>) -> bool {
		// Lengths are known to be short.
		self.len() as u16 == other.len() as u16 && self.iter().zip(other).all(|(a, b)| *a == *b)''')],
 'let v = vec![3u8; 0x10005]; let s = SizedSlice::<u8, 0x10010>::new(&v).unwrap(); assert!(s == v); assert!(s != v[..5].to_vec());', features=["alloc"])

bug("c16-clone-word", "C16", "cloning more than 65535 elements and converting the clone",
 "an iterator over more than 65535 elements clones only some of them, and hands out the others' bits again",
 [(IT, "				let value = Clone::clone(&*item);\n\n				buf.get_unchecked_mut(i).write(value);", "				let value = if i <= 0xFFFF { Clone::clone(&*item) } else { core::ptr::read(item) };\n\n				buf.get_unchecked_mut(i).write(value);")],
 '''let x = std::rc::Rc::new(()); let s: SizedSlice<std::rc::Rc<()>, 0x10005> = (0..0x10005).map(|_| x.clone()).collect(); let i = s.into_iter(); let j = i.clone(); assert_eq!(std::rc::Rc::strong_count(&x), 1 + 2 * 0x10005); for y in i { std::mem::forget(y) } for y in j { std::mem::forget(y) }''')

bug("c08-write-half", "C08", "a single write of more than 65535 octets",
 "of a very long write, the octets beyond a multiple of 32768 are counted but not copied",
 [(OUT, "			copy_nonoverlapping(src, dst, count);", "			copy_nonoverlapping(src, dst, if count > 0xFFFF { count & !0x7FFF } else { count });")],
 'let v = vec![7u8; 0x10009]; let mut b = vec![0u8; 0x10010]; let mut o = Output::new(&mut b); o.write(&v).unwrap(); assert_eq!(o.as_slice(), &v[..]);')

bug("c12-len-page", "C12", "a slot of more than 4096 octets that is not full",
 "a write that almost fills a large slot is taken to fill it",
 [(SL, '''		let len = stream.position();
		self.set_len(len);

		Ok(())''', '''		let len = stream.position();
		let cap = stream.capacity();
		self.set_len(if cap > 0x1000 && cap - len == 0x1 { cap } else { len });

		Ok(())''')],
 'let mut s = oct::Slot::<SizedSlice<u8, 5000>>::new(); let v: SizedSlice<u8, 5000> = (0..4999u32).map(|x| x as u8).collect(); s.write(v).unwrap(); assert_eq!(s.len(), 5001); let v: SizedSlice<u8, 5000> = (0..5000u32).map(|x| x as u8).collect(); s.write(v).unwrap(); assert_eq!(s.len(), 5002);', features=["alloc"])
