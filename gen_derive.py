#!/usr/bin/env python3
"""Generates Rust programs full of derived types, with their reference models.

The model side (discriminant values, field order, representation) is computed
here, independently of the derive macros.
"""
import random, sys

INTS = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"]
MODEL = {t: t[0].upper() + t[1:] for t in INTS}
# Numbers worth trying: those in the source of what is tested.
DICT = []

# Largest non-negative in-memory discriminant.
DMAX = {"u8": 2**8-1, "u16": 2**16-1, "u32": 2**32-1, "u64": 2**64-1, "u128": 2**128-1, "usize": 2**64-1,
        "i8": 2**7-1, "i16": 2**15-1, "i32": 2**31-1, "i64": 2**63-1, "i128": 2**127-1, "isize": 2**63-1}
ENCMAX = dict(DMAX, usize=2**16-1, isize=2**15-1)

class T:
    """A field type: Rust text, error classes, and what it supports."""
    def __init__(s, rs, enc="N", dec="N", sized=True, copy=False, key=False, deps=()):
        s.rs, s.enc, s.dec, s.sized, s.copy, s.key, s.deps = rs, enc, dec, sized, copy, key, frozenset(deps)

def leafs():
    r = []
    for i in INTS:
        e = {"usize": "U", "isize": "I"}.get(i, "N")
        r.append(T(i, e, "N", copy=True, key=True))
        r.append(T(f"NonZero<{i}>", e, "Z", copy=True, key=True))
    r += [T("bool", copy=True, key=True), T("()", copy=True, key=True), T("f32", copy=True), T("f64", copy=True),
          T("Duration", copy=True, key=True), T("SystemTime", "N", "TM", copy=True, key=True),
          T("Ipv4Addr", copy=True, key=True), T("Ipv6Addr", copy=True, key=True), T("SocketAddrV4", copy=True, key=True),
          T("SocketAddrV6", copy=True, key=True),
          T("IpAddr", "EN", "ED", copy=True, key=True), T("SocketAddr", "N", "ED", copy=True, key=True),
          T("RangeFull", copy=True), T("PhantomData<u8>", copy=True), T("AtomicU32"), T("AtomicBool"), T("AtomicI16")]
    for n in (0, 1, 3, 6, 20):
        r.append(T(f"SizedStr<{n}>", "CU:I:N", "CL:8", key=True))
    r += [T("String", "CU:I:N", "CN:8", sized=False, key=True), T("CString", "CU:I:N", "NUL", sized=False, key=True),
          ]
    return r

LEAFS = leafs()

def field(rng, derived, depth=0, want_sized=False):
    """A random field type."""
    while True:
        t = field1(rng, derived, depth, want_sized)
        if t is not None and len(t.rs) < 160 and (t.sized or not want_sized):
            return t

def field1(rng, derived, depth, ws):
    k = rng.random()
    if depth >= 3 or k < 0.42:
        if derived and rng.random() < 0.3:
            return rng.choice(derived)
        if rng.random() < 0.5:
            return rng.choice([t for t in LEAFS if t.rs in INTS or t.rs in ("bool", "()")])
        return rng.choice(LEAFS)
    f = lambda **kw: field(rng, derived, depth + 1, kw.get("ws", ws))
    c = rng.choice(["opt", "opt", "arr", "arr", "slice", "slice", "vec", "vec", "tup", "tup", "box", "rc", "arc", "wrap", "cell",
                    "refcell", "mutex", "rwlock", "range", "rangei", "bound", "map", "set", "tup1", "rfrom", "rto", "cow"])
    if c == "opt":
        t = f(); return T(f"Option<{t.rs}>", t.enc, t.dec, t.sized, t.copy, t.key, t.deps)
    if c == "arr":
        t = f(); n = rng.choice([0, 1, 2, 3, 5])
        return T(f"[{t.rs}; {n}]", f"CN:I:{t.enc}", f"CN:I:{t.dec}", t.sized, t.copy, t.key, t.deps)
    if c == "slice":
        t = f(); n = rng.choice([0, 1, 2, 4])
        return T(f"SizedSlice<{t.rs}, {n}>", f"CU:I:{t.enc}", f"CL:I:{t.dec}", t.sized, False, False, t.deps)
    if c == "vec":
        if ws: return None
        t = f(); return T(f"Vec<{t.rs}>", f"CU:I:{t.enc}", f"CN:I:{t.dec}", False, False, t.key, t.deps)
    if c == "tup":
        t = f()
        same = [x for x in LEAFS + derived if (x.enc, x.dec) == (t.enc, t.dec) and (x.sized or not ws)] + [t]
        ts = [t] + [rng.choice(same) for _ in range(rng.randint(1, 3))]
        rng.shuffle(ts)
        return T("(" + ", ".join(x.rs for x in ts) + ")", t.enc, t.dec, all(x.sized for x in ts),
                 all(x.copy for x in ts), all(x.key for x in ts), frozenset().union(*[x.deps for x in ts]))
    if c == "tup1":
        t = f(); return T(f"({t.rs},)", t.enc, t.dec, t.sized, t.copy, t.key, t.deps)
    if c in ("box", "rc", "arc"):
        t = f(); n = {"box": "Box", "rc": "Rc", "arc": "Arc"}[c]
        return T(f"{n}<{t.rs}>", t.enc, t.dec, t.sized, False, t.key, t.deps)
    if c == "wrap":
        t = rng.choice([x for x in LEAFS if x.rs in INTS])
        n = rng.choice(["Wrapping", "Saturating"])
        return T(f"{n}<{t.rs}>", t.enc, t.dec, True, True, False)
    if c == "cell":
        t = f()
        if not t.copy: return None
        return T(f"Cell<{t.rs}>", t.enc, t.dec, t.sized, False, False, t.deps)
    if c == "refcell":
        # Its encode error must convert to the generic one; see `generic_ok`.
        return None
    if c in ("mutex", "rwlock"):
        t = f(); n = {"mutex": "Mutex", "rwlock": "RwLock"}[c]
        return T(f"{n}<{t.rs}>", t.enc, t.dec, t.sized, False, False, t.deps)
    if c in ("range", "rangei"):
        t = f(); n = {"range": "Range", "rangei": "RangeInclusive"}[c]
        return T(f"{n}<{t.rs}>", t.enc, t.dec, t.sized, False, False, t.deps)
    if c in ("rfrom", "rto"):
        t = f(); n = rng.choice(["RangeFrom"] if c == "rfrom" else ["RangeTo", "RangeToInclusive"])
        return T(f"{n}<{t.rs}>", t.enc, t.dec, t.sized, False, False, t.deps)
    if c == "bound":
        t = f(); return T(f"Bound<{t.rs}>", f"E8:{t.enc}", f"E8:{t.dec}", t.sized, t.copy, False, t.deps)
    if c == "map":
        if ws: return None
        ks = [x for x in LEAFS if x.key]
        k = rng.choice(ks)
        v = rng.choice([x for x in LEAFS if (x.enc, x.dec) == (k.enc, k.dec)])
        return T(f"HashMap<{k.rs}, {v.rs}, H>", f"CU:I:{k.enc}", f"CN:I:{k.dec}", False, False, False)
    if c == "set":
        if ws: return None
        k = rng.choice([x for x in LEAFS if x.key])
        return T(f"HashSet<{k.rs}, H>", f"CU:I:{k.enc}", f"CN:I:{k.dec}", False, False, False)
    if c == "cow":
        t = rng.choice([x for x in LEAFS if x.rs in INTS])
        return T(f"Cow<'static, {t.rs}>", t.enc, t.dec, True, False, False)

NAMES = ["a", "b", "c", "x", "y", "stream", "value", "value0", "value1", "value2", "this", "discriminant", "error", "input",
         "output", "len", "index", "e", "r#type", "r#match", "r#fn", "current_size", "total_size", "self_", "oct", "core", "v", "_z"]
VNAMES = ["A", "B", "C", "D", "E", "F", "Ok", "Err", "Some", "None", "Result", "Option", "Encode", "Decode", "Value", "Stream",
          "Infallible", "Self_", "SizedEncode", "Input", "Output", "Into", "GenericDecodeError"]

def literal(rng, v, ty):
    k = rng.random()
    if k < 0.4: s = str(v)
    elif k < 0.6: s = hex(v) if rng.random() < 0.5 else "0x" + format(v, "X")
    elif k < 0.7: s = oct(v)
    elif k < 0.8: s = bin(v)
    else:
        d = str(v); s = "_".join([d[max(0, i-3):i] for i in range(len(d), 0, -3)][::-1])
        if rng.random() < 0.3: s += "_"
    if rng.random() < 0.2: s += ty
    return s

class Def:
    """A derived type: its source text, its model, and its dependencies."""
    pass

def fields_of(rng, derived, n, sized):
    named = rng.random() < 0.5
    ts = [field(rng, derived, 0 if n <= 10 else 2, sized) for _ in range(n)]
    if named:
        # (Of many fields, the order of declaration is none of their names'.)
        names = rng.sample(NAMES, n) if n <= len(NAMES) else [f"{c}{j}" for j, c in enumerate(rng.choices("zyabfx", k=n))]
    else:
        names = [str(i) for i in range(n)]
    return named, names, ts

def make(rng, i, derived, wide=None):
    d = Def()
    d.name = f"D{i}"
    d.generics = ""
    d.where = ""
    d.inst = ""
    sized = rng.random() < 0.6
    use = [t for t in derived if t.sized or not sized]
    kind = wide or ("struct" if rng.random() < 0.4 else "enum")
    gen = rng.random() < 0.3
    d.attrs = rng.choice(["", "", "", "#[allow(dead_code)]\n", "/// Documented.\n", "#[must_use]\n", "#[non_exhaustive]\n"])
    # Where attributes stand, and whether the derives share one.
    d.repr_at = rng.randint(0, 2)
    d.split = rng.random() < 0.2
    d.docs = rng.random() < 0.15
    d.wrap = rng.random() < 0.1
    gparams = []  # (decl, name, instance text, T)
    if gen:
        if rng.random() < 0.4:
            gparams.append(("'a", "'a", "'static", None))
        for g in rng.sample(["T", "U", "V"], rng.randint(0, 2)):
            t = field(rng, use, 2, sized)
            gparams.append((g + (": Sized" if rng.random() < 0.3 else ""), g, t.rs, t))
        if rng.random() < 0.5 or not gparams:
            gparams.append(("const N: usize", "N", str(rng.randint(0, 5)), None))
    def subst(fields):
        """Chooses generic forms for some of the fields: (decl text, concrete text)."""
        out = []
        for t in fields:
            decl, conc, sz, deps = t.rs, t.rs, t.sized, t.deps
            if gparams and rng.random() < 0.6:
                g = rng.choice(gparams)
                if g[0].startswith("'"):
                    if sized:
                        decl, conc = "PhantomData<&'a ()>", "PhantomData<&'static ()>"
                    else:
                        decl, conc, sz = "Cow<'a, String>", "Cow<'static, String>", False
                    deps = frozenset()
                elif g[0].startswith("const"):
                    f = rng.choice(["[u8; {}]", "SizedStr<{}>", "SizedSlice<u16, {}>", "[Option<u32>; {}]"])
                    decl, conc, deps, sz = f.format("N"), f.format(g[2]), frozenset(), True
                else:
                    f = rng.choice(["{}", "Option<{}>", "[{}; 2]", "SizedSlice<{}, 3>", "Box<{}>"])
                    decl, conc, deps, sz = f.format(g[1]), f.format(g[2]), g[3].deps, g[3].sized
            out.append((decl, conc, sz, deps))
        return out
    d.kind = kind
    allf = []
    if kind == "struct":
        n = rng.randint(11, 34) if wide else rng.choice([0, 0, 1, 1, 2, 3, 3, 4, 5, 7])
        named, names, ts = fields_of(rng, use, n, sized)
        fs = subst(ts)
        unit = n == 0 and rng.random() < 0.5
        d.named, d.unit, d.fields = named, unit, list(zip(names, fs))
        allf = fs
    else:
        d.repr = rng.choice([None, None, None] + INTS)
        r = d.repr or "isize"
        nv = rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 12])
        allunit = not wide and rng.random() < 0.3
        if allunit and rng.random() < 0.2:
            nv = rng.choice([40, 128, 200])
        if nv > len(VNAMES): vn = [f"V{j}" for j in range(nv)]
        else: vn = rng.sample(VNAMES, nv)
        can_explicit = d.repr is not None or allunit
        top = DMAX[r] if rng.random() < 0.12 else ENCMAX[r]
        explicit_rate = rng.choice([0, 0.3, 0.6, 1.0]) if can_explicit else 0
        d.variants = []
        used, prev = set(), None
        for j in range(nv):
            fs, named, names = [], False, []
            if allunit:
                style = "unit"
            else:
                style = rng.choice(["unit", "fields", "fields", "empty"]) if not wide or j else "fields"
                if style == "empty" and d.repr is None: style = "unit"
            if style == "fields":
                named, names, ts = fields_of(rng, use, rng.randint(11, 20) if wide and (j < 2 or rng.random() < 0.3) else rng.choice([1, 1, 2, 3, 4]), sized)
                fs = subst(ts)
            elif style == "empty":
                named = rng.random() < 0.5
            nxt = 0 if prev is None else prev + 1
            ex = rng.random() < explicit_rate or nxt in used or nxt > DMAX[r]
            if ex and not can_explicit: break
            if ex:
                for _ in range(200):
                    v = rng.choice([rng.randint(0, min(top, 10)), rng.randint(0, top), top, max(0, top - rng.randint(0, 3)), min(top, 127),
                                    min(top, 128), min(top, 255), min(top, 256), min(top, 32767), 0] + ([min(top, rng.choice(DICT) + rng.choice([0, 0, 1, -1]))] * 2 if DICT else []))
                    if v not in used: break
                else: break
                lit = literal(rng, v, r)
            else:
                v, lit = nxt, None
            used.add(v); prev = v
            d.variants.append((vn[j], style, named, list(zip(names, fs)), v, lit))
            allf = allf + fs
        if not any(x[4] <= ENCMAX[r] for x in d.variants):
            return make(rng, i, derived, wide)
    # Only parameters that occur may be declared (types and lifetimes must be used).
    text = " ".join(f[0] for f in allf)
    keep = []
    import re
    for g in gparams:
        if g[0].startswith("const") or re.search(r"(?<![A-Za-z0-9_'])" + re.escape(g[1]) + r"(?![A-Za-z0-9_'(:])", text):
            keep.append(g)
    # A parameter must not be mentioned without being declared.
    d.sized = all(f[2] for f in allf)
    d.deps = frozenset().union(*[f[3] for f in allf]) if allf else frozenset()
    if keep:
        order = sorted(keep, key=lambda g: 0 if g[0].startswith("'") else 1)
        d.generics = "<" + ", ".join(g[0] for g in order) + ">"
        d.inst = "<" + ", ".join(g[2] for g in order) + ">"
        bounds = []
        for g in order:
            if g[3] is not None:
                b = "oct::encode::Encode<Error: Into<oct::error::GenericEncodeError>> + oct::decode::Decode<Error: Into<oct::error::GenericDecodeError>>"
                if d.sized: b += " + oct::encode::SizedEncode"
                bounds.append(f"{g[1]}: {b}")
        if bounds: d.where = "\nwhere\n\t" + ",\n\t".join(bounds) + ","
    d.ty = d.name + d.inst
    d.tdeps = frozenset([d.name]) | d.deps
    return d

def make_walk(rng, i):
    """An enumeration of long runs of omitted discriminants, across the values where something might change."""
    d = Def()
    d.name, d.generics, d.where, d.inst, d.attrs = f"D{i}", "", "", "", ""
    d.repr_at, d.split, d.docs, d.wrap = 0, False, False, False
    d.kind, d.sized, d.deps = "enum", True, frozenset()
    d.repr = rng.choice([None] + INTS)
    r = d.repr or "isize"
    top = ENCMAX[r]
    if top <= 255 and rng.random() < 0.7: runs = [(0, top + 1)]
    else:
        edges = [e for e in (0, 0x20, 0x7F, 0x80, 0xFF, 0x100, 0x3FF, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x7FFFFFFF, 0xFFFFFFFF, 2**63, 2**64, DMAX[r]) if e <= DMAX[r]]
        edges += [e for e in rng.sample(DICT, min(4, len(DICT))) if e <= DMAX[r]]
        runs, left = [], 260
        for e in rng.sample(edges, len(edges)):
            n = rng.randint(3, 120)
            runs.append((max(0, e - rng.randint(0, n)), n))
    d.variants, used = [], set()
    for start, n in runs:
        for k in range(n):
            v = start + k
            if v in used or v > DMAX[r] or len(d.variants) >= 300: break
            # The first may do without, if it is zero.
            lit = literal(rng, v, r) if k == 0 and not (v == 0 and not d.variants and rng.random() < 0.5) else None
            used.add(v)
            d.variants.append((f"V{len(d.variants)}", "unit", False, [], v, lit))
    if not any(x[4] <= ENCMAX[r] for x in d.variants): return make_walk(rng, i)
    d.ty, d.tdeps = d.name, frozenset([d.name])
    return d

def as_field(d):
    if d.kind == "struct": return T(d.ty, "GE", "GD", d.sized, False, False, d.tdeps)
    r = d.repr or "isize"
    return T(d.ty, f"EE:{r}", f"DE:{r}", d.sized, False, False, d.tdeps)

def emit_fields(named, fields, vis):
    if named: return "{ " + ", ".join(f"{vis}{n}: {f[0]}" for n, f in fields) + " }"
    return "(" + ", ".join(f"{vis}{f[0]}" for n, f in fields) + ")"

def emit(d, encode_only=False):
    o = []
    derives = ["Encode", "Decode"] + (["SizedEncode"] if d.sized else [])
    if d.split: derives = [x if k else "oct::encode::Encode" for k, x in enumerate(derives)]
    derive = [f"#[derive({x})]" for x in derives] if d.split else [f"#[derive({', '.join(derives)})]"]
    if d.kind == "enum" and d.repr: derive.insert([0, len(derive), len(derive) // 2][d.repr_at], f"#[repr({d.repr})]")
    if d.wrap: o.append("macro_rules! make_%s { () => {" % d.name)
    o.append(d.attrs + "\n".join(derive))
    if d.kind == "struct":
        if d.unit: o.append(f"pub struct {d.name}{d.generics}{d.where};" )
        elif d.named: o.append(f"pub struct {d.name}{d.generics}{d.where} {emit_fields(True, d.fields, 'pub ')}")
        else: o.append(f"pub struct {d.name}{d.generics}{emit_fields(False, d.fields, 'pub ')}{d.where};")
        if d.wrap: o.append("} }\nmake_%s! {}" % d.name)
        tys = ", ".join(f"<{f[1]} as Subject>::ty()" for _, f in d.fields)
        build = ", ".join(f"{n}: <{f[1]} as Subject>::build(&v.items()[{k}])" for k, (n, f) in enumerate(d.fields))
        view = ", ".join(f"self.{n}.view()" for n, f in d.fields)
        o.append(f"""impl Subject for {d.ty} {{
	fn ty() -> Ty {{ Ty::Struct(vec![{tys}]) }}
	fn build(v: &Val) -> Self {{ let _ = v; {d.name} {{ {build} }} }}
	fn view(&self) -> Val {{ list(vec![{view}]) }}
}}""")
    else:
        vs = []
        for (n, style, named, fields, v, lit) in d.variants:
            s = n
            if style == "fields": s += emit_fields(named, fields, "")
            elif style == "empty": s += " {}" if named else "()"
            if lit is not None: s += f" = {lit}"
            if d.docs: s = "/// A variant.\n" + s
            vs.append(s)
        o.append(f"pub enum {d.name}{d.generics}{d.where} {{ " + ", ".join(vs) + " }")
        if d.wrap: o.append("} }\nmake_%s! {}" % d.name)
        r = MODEL[d.repr or "isize"]
        tys, builds, views = [], [], []
        for k, (n, style, named, fields, v, lit) in enumerate(d.variants):
            tys.append(f"({v}u128, vec![" + ", ".join(f"<{f[1]} as Subject>::ty()" for _, f in fields) + "])")
            b = ", ".join(f"{fn}: <{f[1]} as Subject>::build(&x[{j}])" for j, (fn, f) in enumerate(fields))
            builds.append(f"Val::Variant({k}, x) => {{ let _ = &x; {d.name}::{n} {{ {b} }} }}")
            p = ", ".join(f"{fn}: b{j}" for j, (fn, f) in enumerate(fields))
            w = ", ".join(f"b{j}.view()" for j in range(len(fields)))
            views.append(f"{d.name}::{n} {{ {p} }} => Val::Variant({k}, ::std::rc::Rc::new(vec![{w}]))")
        o.append(f"""impl Subject for {d.ty} {{
	fn ty() -> Ty {{ Ty::Enum(Int::{r}, vec![{", ".join(tys)}]) }}
	fn build(v: &Val) -> Self {{ match v {{ {", ".join(builds)}, _ => panic!("model: variant") }} }}
	fn view(&self) -> Val {{ match self {{ {", ".join(views)} }} }}
}}""")
    return "\n".join(o)

# Borrowed field types for encode-only definitions: decl, owned type, projection, sized
BORROWED = [("&'a str", "String", "{}.as_str()", False), ("&'a [u16]", "Vec<u16>", "{}.as_slice()", False),
            ("&'a u32", "u32", "&{}", True), ("&'a [u8; 3]", "[u8; 3]", "&{}", True), ("Option<&'a u64>", "Option<u64>", "{}.as_ref()", True),
            ("&'a SizedStr<4>", "SizedStr<4>", "&{}", True), ("&'a &'a bool", None, None, None), ("Cow<'a, str>", "String", "Cow::Borrowed({}.as_str())", False),
            ("Cow<'a, [u16]>", "Vec<u16>", "Cow::Borrowed({}.as_slice())", False)]
BORROWED = [b for b in BORROWED if b[1]]

def make_borrowed(rng, i):
    """An owned definition and an encode-only borrowed twin."""
    sized = rng.random() < 0.5
    pool = [b for b in BORROWED if b[3] or not sized]
    n = rng.randint(1, 4)
    bs = [rng.choice(pool) for _ in range(n)]
    sz = all(b[3] for b in bs)
    names = rng.sample(NAMES, n)
    two = rng.random() < 0.3
    lt = "'a, 'b: 'a" if two else "'a"
    inst = "'_, '_" if two else "'_"
    extra_decl = ", PhantomData<&'b ()>" if two else ""
    o = []
    owned = ", ".join(f"{a}: {b[1]}" for a, b in zip(names, bs))
    o.append(f"#[derive(Encode, Decode{', SizedEncode' if sz else ''})]\npub struct O{i} {{ {owned} }}")
    tys = ", ".join(f"<{b[1]} as Subject>::ty()" for b in bs)
    build = ", ".join(f"{a}: <{b[1]} as Subject>::build(&v.items()[{k}])" for k, (a, b) in enumerate(zip(names, bs)))
    view = ", ".join(f"self.{a}.view()" for a in names)
    o.append(f"impl Subject for O{i} {{ fn ty() -> Ty {{ Ty::Struct(vec![{tys}]) }}\n\tfn build(v: &Val) -> Self {{ O{i} {{ {build} }} }}\n\tfn view(&self) -> Val {{ list(vec![{view}]) }} }}")
    decl = ", ".join(b[0] for b in bs)
    o.append(f"#[derive(Encode{', SizedEncode' if sz else ''})]\npub struct B{i}<{lt}>({decl}{extra_decl});")
    expr = ", ".join(b[2].format(f"x.{a}") for a, b in zip(names, bs)) + (", PhantomData" if two else "")
    mx = f"Some(<B{i}<{inst}> as oct::encode::SizedEncode>::MAX_ENCODED_SIZE)" if sz else "None"
    ent = f"\teo! {{ v: \"B{i}\" = O{i}, {mx}, |x| &B{i}({expr}); }}\n\t{'eds' if sz else 'ed'}!(v: O{i});"
    return "\n".join(o), ent

HEAD = """// Generated by gen_derive.py. Do not edit.
#![allow(dead_code, unused_imports, non_camel_case_types, unused_variables, non_shorthand_field_patterns, unused_must_use, non_snake_case)]
use %(vh)s::model::{list, Int, Ty, Val};
use %(vh)s::subject::{Entry, Subject};
use %(vh)s::{ed, eds, eo, es};
use %(vh)s::subject::H;
use oct::decode::Decode;
use oct::encode::{Encode, SizedEncode};
use oct::{SizedSlice, SizedStr};
use std::borrow::Cow;
use std::cell::Cell;
use std::collections::{HashMap, HashSet};
use std::ffi::CString;
use std::marker::PhantomData;
use std::net::*;
use std::num::{NonZero, Saturating, Wrapping};
use std::ops::*;
use std::rc::Rc;
use std::sync::atomic::*;
use std::sync::{Arc, Mutex, RwLock};
use std::time::{Duration, SystemTime};
"""

WALKS = 3
WIDE = ("struct", "enum")

def generate(seed, n, nb):
    rng = random.Random(seed)
    defs, derived = [], []
    for i in range(n):
        d = make(rng, i, derived[-12:])
        defs.append(d)
        derived.append(as_field(d))
    borrowed = [make_borrowed(rng, i) for i in range(nb)]
    defs += [make_walk(rng, n + k) for k in range(WALKS)]
    defs += [make(rng, n + WALKS + k, derived[-6:], kind) for k, kind in enumerate(WIDE)]
    return defs, borrowed

def render(defs, borrowed, vh):
    o = [HEAD % {"vh": vh}]
    for d in defs: o.append(emit(d))
    for s, _ in borrowed: o.append(s)
    o.append("pub fn entries() -> Vec<Entry> {\n\tlet mut v: Vec<Entry> = Vec::new();")
    for d in defs: o.append(f"\t{'eds' if d.sized else 'ed'}!(v: {d.ty});")
    for _, e in borrowed: o.append(e)
    o.append("\tv\n}")
    return "\n".join(o) + "\n"

def closure(defs, name):
    """The definition `name` and what it depends on."""
    by = {d.name: d for d in defs}
    want, todo = set(), [name]
    while todo:
        x = todo.pop()
        if x in want or x not in by: continue
        want.add(x)
        todo += list(by[x].deps)
    return [d for d in defs if d.name in want]

if __name__ == "__main__":
    seed, n, nb, vh = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    defs, borrowed = generate(seed, n, nb)
    sys.stdout.write(render(defs, borrowed, vh))
