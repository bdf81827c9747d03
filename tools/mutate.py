#!/usr/bin/env python3
"""Lists (or applies) small mechanical changes of /repo's sources, to look for
what no check notices. A tool for development; no check uses it.

    mutate.py list [FILE-REGEX]        one JSON object per line
    mutate.py apply N [FILE-REGEX]     applies the Nth in the current directory
"""
import json, os, re, sys

OPS = [
    (r"(?<=[\w)\]]) < (?=[\w(])", " <= "), (r"(?<=[\w)\]]) <= (?=[\w(])", " < "), (r"(?<=[\w)\]]) > (?=[\w(])", " >= "), (r"(?<=[\w)\]]) >= (?=[\w(])", " > "),
    (r" == ", " != "), (r" != ", " == "), (r"(?<=[\w)\]]) \+ (?=[\w(*])", " - "), (r"(?<=[\w)\]]) - (?=[\w(*])", " + "), (r" \+= ", " -= "), (r" -= ", " += "),
    (r"(?<=[\w)\]]) \* (?=[\w(])", " + "), (r" && ", " || "), (r" \|\| ", " && "), (r"\bif !", "if "), (r"\bif (?!let|!)(?=[\w(])", "if !"),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"\bto_le_bytes\b", "to_be_bytes"), (r"\bfrom_le_bytes\b", "from_be_bytes"), (r"\bto_be_bytes\b", "to_le_bytes"),
    (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\bmax\(", "min("), (r"\bmin\(", "max("),
    (r"\bstart\b(?!\w)", "end"), (r"\.end\b", ".start"), (r"\.\.=", ".."), (r"(?<=[\w)])\.\.(?=[\w(])", "..="),
    (r"\bu16\b", "u8"), (r"\bu16\b", "u32"), (r"\bi16\b", "i32"), (r"\bu32\b", "u16"), (r"\bu64\b", "u32"), (r"\bi64\b", "i32"), (r"\bu8\b", "i8"),
    (r"\bself\.len\b(?!\()", "N"), (r"\bself\.len\b(?!\()", "0"), (r"\bself\.pos\b", "0"), (r"\bself\.len\(\)", "N"), (r"\bcount\b", "(count - 1)"), (r"\bindex\b", "(index + 1)"), (r"\blen\b(?![(:])", "(len - 1)"),
    (r"\bSome\((?=\w)", "None::<_>.or(Some("), (r"\bunchecked_sub\b", "unchecked_add"), (r"\bunchecked_add\b", "unchecked_sub"),
    (r"\.ip\(\)", ".ip().clone()"), (r"\bflowinfo\b", "scope_id"), (r"\bscope_id\b", "flowinfo"), (r"\bas_secs\b", "subsec_nanos"), (r"\.checked_add\b", ".checked_sub"), (r"\.checked_sub\b", ".checked_add"),
    (r"\.read\(\)", ".write()"), (r"\bcopy_nonoverlapping\b", "copy"), (r"\bLess\b", "Greater"), (r"\bcmp\(other\)", "cmp(other).reverse()"), (r"\bV4\b", "V6"), (r"\bIncluded\b", "Excluded"), (r"\bOk\(", "Err("), (r"\bErr\(", "Ok("),
    (r"\bnext_back\b", "next"), (r"\bnext\(\)", "next_back()"), (r"\bas_ptr\(\)", "as_ptr().wrapping_add(1)"), (r"\bcapacity\b", "position"), (r"\bposition\b", "capacity"),
]
NUM = re.compile(r"(?<![\w.#])(0x[0-9A-Fa-f]+|[0-9]+)(?=\b)(?!\w)(?!\.[0-9])")
STMT = re.compile(r"^\t+(?!let |use |return |const |type |pub |static |\}|#|//|fn |mod |impl |where |break|continue|extern |macro)(\S.*);\s*$")

def mutants(root, rx):
    out = []
    for top in ("oct/src", "oct-macros/src"):
        for dir, _, names in sorted(os.walk(os.path.join(root, top))):
            for n in sorted(names):
                if not n.endswith(".rs") or n in ("test.rs", "tests.rs"): continue
                p = os.path.relpath(os.path.join(dir, n), root)
                if rx and not re.search(rx, p): continue
                ls = open(os.path.join(root, p)).read().split("\n")
                for i, l in enumerate(ls):
                    s = l.strip()
                    if not s or s.startswith(("//", "#", "use ", "pub use", "mod ", "pub mod", "*", "/*", "|")) or "write!" in s: continue
                    code = l.split("//")[0]
                    def add(new, what):
                        if new != code: out.append(dict(file=p, line=i + 1, old=l, new=new, what=what))
                    for a, b in OPS:
                        for m in list(re.finditer(a, code))[:3]:
                            new = code[:m.start()] + b + code[m.end():]
                            if b.endswith("or(Some("):
                                continue
                            add(new, f"{a} -> {b}")
                    for m in list(NUM.finditer(code))[:3]:
                        t = m.group(1)
                        v = int(t, 0) if t.startswith("0x") else int(t)
                        for w in {v + 1, max(0, v - 1)} - {v}:
                            add(code[:m.start()] + (hex(w) if t.startswith("0x") else str(w)) + code[m.end():], f"{t} -> {w}")
                    if STMT.match(code): add("", "deleted")
                    if re.match(r"^\t+(if .*)?return .*;( \};?)?$", code) : add("", "deleted")
                    # A statement and the one before it, swapped.
                    if i and STMT.match(code) and STMT.match(ls[i - 1].split("//")[0]) and ls[i - 1] != l:
                        out.append(dict(file=p, line=i + 1, old=l, new=ls[i - 1], swap=True, what="swapped with the line before"))
    return out

def main():
    rx = sys.argv[3] if len(sys.argv) > 3 and sys.argv[1] == "apply" else sys.argv[2] if len(sys.argv) > 2 and sys.argv[1] == "list" else None
    ms = mutants(os.environ.get("ROOT", "."), rx)
    if sys.argv[1] == "list":
        for k, m in enumerate(ms): print(json.dumps(dict(m, n=k)))
    else:
        m = ms[int(sys.argv[2])]
        ls = open(m["file"]).read().split("\n")
        i = m["line"] - 1
        assert ls[i] == m["old"]
        if m.get("swap"): ls[i - 1], ls[i] = ls[i], ls[i - 1]
        else: ls[i] = m["new"]
        open(m["file"], "w").write("\n".join(ls))
        print(json.dumps(m))

main()
