#!/usr/bin/env python3
"""Like mutate.py, but the change only manifests under a rare condition: a
statement or expression of /repo's sources is replaced when a capacity, a length
or the size of a type has some value. A tool for development; no check uses it.

    guarded.py SEED        applies the SEEDth at random in the current directory
"""
import json, os, random, re, sys
sys.argv_, sys.argv = sys.argv, ["x", "list", "^$"]
import importlib.util, io, contextlib
s = importlib.util.spec_from_file_location("mutate", os.path.join(os.path.dirname(os.path.abspath(__file__)), "mutate.py"))
M = importlib.util.module_from_spec(s)
with contextlib.redirect_stdout(io.StringIO()): s.loader.exec_module(M)
R = random.Random(int(sys.argv_[1]))
LINE = re.compile(r"^(\t+)(let (?:mut )?\w+(?:: [^=]+)? = |return )?([^=].*?)(;?)$")

def balanced(e):
    d = 0
    for c in e:
        d += c in "([{"; d -= c in ")]}"
        if d < 0: return False
    return d == 0

def cond(p):
    k = R.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 100, 127, 128, 200, 255, 256])
    z = R.choice([0, 1, 2, 3, 4, 8, 12, 16, 24])
    pool = [f"core::mem::size_of::<T>() == {z}", f"core::mem::size_of::<Self>() == {z}", f"core::mem::align_of::<T>() == {R.choice([2, 4, 8])}", "core::mem::needs_drop::<T>()",
            f"N == {k}", f"N > {k}", f"self.len() == {k}", f"self.len == {k}", f"len == {k}", f"len > {k}", f"len % 8 == {R.randrange(8)}", "len == N", "self.len() == N", "self.len == N",
            f"self.pos == {k}", f"index == {k}", f"value == {k}", f"count == {k}", f"self.len() % 4 == {R.randrange(4)}", f"output.position() == {k}", f"input.position() == {k}", f"input.remaining() == {k}", f"output.remaining() == {k}",
            "core::mem::size_of::<K>() == 1", "core::mem::size_of::<V>() == 2", "core::mem::size_of::<E>() == 0", f"self.position == {k}", f"self.pos + {R.randrange(1,4)} == self.len", "*self as u64 as u8 == 0x5A"]
    return R.choice(pool)

def main():
    files = []
    for top in ("oct/src",):
        for dir, _, names in sorted(os.walk(top)):
            for n in sorted(names):
                if n.endswith(".rs") and n not in ("test.rs", "tests.rs", "generic_encode_error.rs", "generic_decode_error.rs"): files.append(os.path.join(dir, n))
    cands = []
    for p in files:
        ls = open(p).read().split("\n")
        for i, l in enumerate(ls):
            m = LINE.match(l)
            s = l.strip()
            if not m or s.startswith(("//", "#", "use ", "pub ", "mod ", "}", "*", "fn ", "impl", "type ", "where", "const ", "unsafe impl", "macro", "$", ".", "|")) or s.endswith(("{", ",", "(", "[")) or "write!" in s or not balanced(m[3]) or (m[2] is None and not m[4] and not re.match(r"^\t*\}", ls[i + 1])): continue
            cands.append((p, i, m))
    while True:
        p, i, m = R.choice(cands)
        ind, pre, e, semi = m[1], m[2] or "", m[3], m[4]
        news = []
        for a, b in M.OPS:
            for x in re.finditer(a, e):
                n = e[:x.start()] + b + e[x.end():]
                if n != e and not b.endswith("or(Some("): news.append(n)
        for x in M.NUM.finditer(e): news.append(e[:x.start()] + str(int(x[1], 0) + R.choice([1, 2, 7])) + e[x.end():])
        if not pre and semi: news += [""] * 3
        if not news: continue
        new = R.choice(news)
        near = "\n".join(open(p).read().split("\n")[max(0, i - 14):i + 1])
        for _ in range(400):
            c = cond(p)
            if all(re.search(rf"(?<!\w)(?<!\.){w}\b" if "self" not in w else re.escape(w), near) for w in re.findall(r"self\.\w+|\b(?:len|index|value|count|input|output|N|T|K|V|E)\b", c)) and ("Self" not in c or R.random() < 0.15): break
        else: continue
        w = f"if {c} {{ {new}{';' if not pre and semi and new else ''} }} else {{ {e}{';' if not pre and semi else ''} }}"
        ls = open(p).read().split("\n")
        ls[i] = ind + pre + w + (semi if pre else "")
        open(p, "w").write("\n".join(ls))
        print(json.dumps(dict(file=p, line=i + 1, old=e, new=new, cond=c)))
        return
main()
