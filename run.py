#!/usr/bin/env python3
"""Runs one check: builds the harness against /repo's working tree, explores,
confirms and shrinks what fails, and writes the evidence.

	run.py C01 [--tier quick|thorough] [--seed N]
	run.py --replay replays/FILE
	run.py --setup
"""
import argparse, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
REPLAYS = os.path.join(VERIF, "replays")
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS")
CPUS = os.cpu_count() or 8
GB = 1 << 30
BEGAN = time.time()

ENV = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST", "MIRI", "ASAN", "VH_"))}
ENV.update(PATH="/root/.cargo/bin:" + os.environ.get("PATH", "/usr/bin:/bin"), HOME=os.environ.get("HOME", "/root"),
           CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never", RUSTUP_TOOLCHAIN="stable",
           RUSTC_WRAPPER="")

def dictionary(root="/repo"):
    """The numbers in the source of what is tested, as fuzzers take dictionaries: they only steer generation."""
    seen = set()
    for top in ("oct/src", "oct-macros/src"):
        for dir, _, names in os.walk(os.path.join(root, top)):
            for n in names:
                if not n.endswith(".rs"): continue
                with open(os.path.join(dir, n), encoding="utf-8", errors="replace") as f: s = f.read()
                s = re.sub(r"//[^\n]*", "", s)
                s = re.split(r"#\[cfg\(test\)\]", s)[0] if n not in ("lib.rs", "mod.rs") else s
                for m in re.finditer(r"(?<![\w.])(?:0x([0-9A-Fa-f_]+?)|0b([01_]+)|0o([0-7_]+)|([0-9][0-9_]*))(?:_?[iu](?:8|16|32|64|128|size))?(?!\w)", s):
                    for g, base in zip(m.groups(), (16, 2, 8, 10)):
                        if g and g.strip("_"): seen.add(int(g.replace("_", ""), base))
                for m in re.finditer(r"\\u\{([0-9A-Fa-f]{1,6})\}|'([^'\\\n])'", s): seen.add(int(m.group(1), 16) if m.group(1) else ord(m.group(2)))
                for m in re.finditer(r"\b([iu](?:8|16|32|64|128))::(MAX|MIN)\b", s):
                    b = int(m.group(1)[1:]); seen.add((1 << (b - (m.group(1)[0] == "i"))) - (m.group(2) == "MAX"))
    return sorted(x for x in seen if 17 <= x < 1 << 128)[:2000]

ENV["VH_DICT"] = ",".join(map(str, dictionary()))

class Inconclusive(Exception):
    """The check gives no answer."""

def say(*a):
    print(f"[{time.time() - BEGAN:6.1f}s]", *a, flush=True)

# ---------------------------------------------------------------- processes

def limits(mem):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if mem: resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    return f

class Res:
    def __init__(s, rc, out, err, timeout): s.rc, s.out, s.err, s.timeout = rc, out, err, timeout
    @property
    def crashed(s): return not s.timeout and (s.rc < 0 or s.rc not in (0, 1) or s.fatal)
    fatal = False
    @property
    def cause(s):
        if s.timeout: return "does not finish"
        if s.rc < 0:
            try: n = signal.Signals(-s.rc).name
            except ValueError: n = str(-s.rc)
            return f"is killed by {n}"
        return f"exits with {s.rc}"

def run(cmd, timeout, mem=8 * GB, env=None, cwd=None):
    with tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
        p = subprocess.Popen(cmd, stdout=fo, stderr=fe, stdin=subprocess.DEVNULL, env=env or ENV, cwd=cwd or VERIF, preexec_fn=limits(mem))
        to = False
        try: p.wait(timeout)
        except subprocess.TimeoutExpired:
            to = True
        finally:
            try: os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError: pass
            p.wait()
        fo.seek(0); fe.seek(0)
        return Res(p.returncode, fo.read().decode("utf-8", "replace"), fe.read()[-200_000:].decode("utf-8", "replace"), to)

def parallel(fs):
    """Runs the functions at once; their results, or the first exception."""
    out, exc = [None] * len(fs), []
    def go(i):
        try: out[i] = fs[i]()
        except BaseException as e: exc.append(e)
    ts = [threading.Thread(target=go, args=(i,)) for i in range(len(fs))]
    for t in ts: t.start()
    for t in ts: t.join()
    if exc: raise exc[0]
    return out

# ------------------------------------------------------------------- builds

class BuildFailed(Exception):
    def __init__(s, what, log): s.what, s.log = what, log; super().__init__(what)

def tail(log, n=60):
    errs = [i for i, l in enumerate(log.splitlines()) if l.startswith("error")]
    ls = log.splitlines()
    return "\n".join(ls[errs[0]:errs[0] + n] if errs else ls[-n:])

def cargo(args, target, env=None, cwd=HARNESS, timeout=800, what="the harness"):
    e = dict(ENV); e.update(env or {})
    r = run(["cargo"] + args + ["--offline", "--target-dir", target], timeout, mem=0, env=e, cwd=cwd)
    if r.timeout: raise Inconclusive(f"building {what} takes too long")
    if r.rc != 0: raise BuildFailed(what, r.err)
    return r

def build(profile, bin, features):
    t = os.path.join(BUILD, profile)
    cargo(["build", "--profile", profile, "--bin", bin, "--features", ",".join(features)], t, what=f"{bin} ({profile})")
    return os.path.join(t, profile, bin)

def build_harness(profile, bin, prop):
    """The binary and the features it was built with."""
    if bin == "codec":
        try: return build(profile, bin, ["registry", "derived"]), ["registry", "derived"]
        except BuildFailed as e:
            say("the fixed derived types do not build; going on without them:\n" + tail(e.log, 25))
            return build(profile, bin, ["registry"]), ["registry"]
    fs = ["dense"] if prop in ("C12", "C13", "C14", "C15", "C16", "C21") else []
    return build(profile, bin, fs), fs

# ----------------------------------------------------------- known findings

def known_findings():
    r = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if l.startswith("known:"):
                f = dict(x.split("=", 1) for x in l[6:].split()[:2])
                r.setdefault(f["property"], set()).add(f["sig"])
    return r

# -------------------------------------------------------------- exploration

class Violation:
    def __init__(s, what, replay): s.what, s.replay = what, replay

class Harness:
    """One built binary, as explored for one property."""
    def __init__(s, path, prop, seed, tag, env=None, mem=8 * GB, rebuild=None, extra=(), cwd=None, slow=1):
        s.path = [path] if isinstance(path, str) else list(path)
        s.prop, s.seed, s.tag, s.env, s.mem, s.cwd, s.slow = prop, seed, tag, env, mem, cwd, slow
        # Whether only crashes (and reports of tools, which end the process) count.
        s.crash_only = "--keep-going" in extra
        s.rebuild = rebuild or {}
        s.extra = list(extra)

    def cmd(s, *a): return s.path + ["--prop", s.prop, "--seed", str(s.seed)] + s.extra + [str(x) for x in a]

    def exec(s, *a, timeout): return s.judge(run(s.cmd(*a), timeout, mem=s.mem, env=s.env, cwd=s.cwd))

    def judge(s, r):
        """With the process going on after failures, whatever ends it is a crash."""
        if s.crash_only and r.rc == 1: r.fatal = True
        return r

    def single(s, unit, case=None, choices=None, trace=None, timeout=None):
        timeout = timeout or 30 * s.slow
        a = ["--unit", unit]
        f = None
        if choices is not None:
            f = tempfile.NamedTemporaryFile("w", suffix=".choices", delete=False)
            f.write("\n".join(map(str, choices))); f.close()
            a += ["--choices", f.name]
        else: a += ["--case", case]
        if trace: a += ["--trace", trace]
        try: return s.exec(*a, timeout=timeout)
        finally:
            if f: os.unlink(f.name)

    def replay_file(s, d, what):
        os.makedirs(REPLAYS, exist_ok=True)
        d = dict(d, dictionary=ENV["VH_DICT"], property=s.report_as, harness_property=s.prop, seed=s.seed, tag=s.tag, rebuild=s.rebuild, extra=s.extra, what=what)
        h = hashlib.sha256(json.dumps(d, sort_keys=True).encode()).hexdigest()[:10]
        p = os.path.join(REPLAYS, f"{s.report_as}-{h}.json")
        with open(p, "w") as f: json.dump(d, f, indent=1)
        return p

    report_as = None

    def bad(s, r, keep):
        """Whether a single run shows the failure that is being shrunk."""
        if s.crash_only: return r.crashed
        return r.timeout or r.crashed or (not keep and r.rc == 1)

    def shrink(s, unit, case, budget=25):
        """Shrinks a crash, one process per attempt."""
        end = time.time() + budget * min(s.slow, 4)
        t = tempfile.mktemp(suffix=".trace")
        s.single(unit, case=case, trace=t)
        try: ch = [int(x) for x in open(t).read().split()]
        except OSError: return None
        finally:
            if os.path.exists(t): os.unlink(t)
        if not s.bad(s.single(unit, choices=ch), False): return None
        def attempt(c):
            if time.time() > end: return False
            r = s.single(unit, choices=c, timeout=8 * s.slow)
            return s.bad(r, False)
        going = True
        while going and time.time() < end:
            going = False
            for block in (64, 16, 4, 2, 1):
                i = 0
                while i + block <= len(ch) and time.time() < end:
                    c = ch[:i] + ch[i + block:]
                    if attempt(c): ch, going = c, True
                    else: i += block
            for i in range(len(ch)):
                if time.time() > end: break
                for v in (0, ch[i] // 2, ch[i] - 1):
                    if 0 <= v < ch[i]:
                        c = ch[:i] + [v] + ch[i + 1:]
                        if attempt(c): ch, going = c, True; break
        return ch

    def telling(s, text):
        """What matters in the output of a crash."""
        ls = text.splitlines()
        for i, l in enumerate(ls):
            if re.search(r"Undefined Behavior|AddressSanitizer|^==\d+== \w|allocator:|unsafe precondition", l):
                return "\n".join(ls[i:i + 14])[:1500]
        return text[:1500]

    def confirm_crash(s, r, journal, scale_args):
        """The run `r` crashed or hung. What in it does so?"""
        units = [l.split(" ", 1)[1].rsplit(" ", 1)[0] for l in s.exec("--list", timeout=60 * s.slow).out.splitlines() if re.match(r"C\d\d .* \d+$", l)]
        recs = []
        try:
            d = open(journal, "rb").read()
            for i in range(0, len(d) - 23, 24):
                u, c, lo = (int.from_bytes(d[i + k:i + k + 8], "little") for k in (0, 8, 16))
                if u: recs.append((u - 1, c, lo))
        except OSError: pass
        say(f"{s.tag}: the run {r.cause}; {len(recs)} candidates")
        for u, c, lo in recs:
            x = s.single(units[u], case=c, timeout=60 * s.slow)
            if x.crashed and "memory allocation of" in x.err: raise Inconclusive(f"{s.tag}: out of memory in {units[u]} {c}")
            if x.crashed or (x.timeout and not s.crash_only):
                ch = s.shrink(units[u], c) if not x.timeout else None
                last = s.single(units[u], choices=ch) if ch is not None else x
                if ch is not None and not (last.crashed or last.timeout): ch, last = None, x
                desc = (last.err + last.out).strip()
                what = f"[{s.tag}: {units[u]}] the case {last.cause}: {s.telling(desc)}"
                return Violation(what, s.replay_file(dict(unit=units[u], case=c, choices=ch), what))
            if x.rc == 1 and "--keep-going" not in s.extra:
                what = f"[{units[u]}] {x.out.strip()[:1500]}"
                return Violation(what, s.replay_file(dict(unit=units[u], case=c, choices=None), what))
        if "memory allocation of" in r.err: raise Inconclusive(f"{s.tag}: out of memory")
        if r.timeout: raise Inconclusive(f"{s.tag}: the run does not finish, but no case of it hangs")
        if r.rc == -signal.SIGKILL: raise Inconclusive(f"{s.tag}: the run was killed")
        # What a lone case does not show, a sequence of them may.
        for k in range(3):
            x = s.exec(*scale_args, "--threads", 1 if k else 4, timeout=400)
            if x.crashed and x.rc != -signal.SIGKILL:
                what = f"the run {x.cause}: {x.err[-1200:]}"
                return Violation(what, s.replay_file(dict(args=list(map(str, scale_args)) + ["--threads", "1" if k else "4"]), what))
        if recs: u, c, lo = recs[0]
        what = f"the run {r.cause} (once): {r.err[-1200:]}"
        return Violation(what, s.replay_file(dict(args=list(map(str, scale_args))), what))

    def explore(s, scale, threads, timeout, more=()):
        """(evidence, violation or None)"""
        out, journal = tempfile.mktemp(suffix=".json"), tempfile.mktemp(suffix=".journal")
        sa = ["--scale", scale] + list(more)
        try:
            r = s.exec(*sa, "--threads", threads, "--out", out, "--journal", journal, timeout=timeout)
            d = {}
            if os.path.exists(out):
                try: d = json.load(open(out))
                except ValueError: pass
            f = d.get("failure")
            if f: return d, s.failed(f)
            if d.get("known_battery_violation"):
                what = d["known_battery_violation"]
                return d, Violation(what, s.replay_file(dict(battery=True), what))
            if r.rc == 0 and not r.timeout: return d, None
            if r.timeout and s.crash_only and s.slow > 2:
                say(f"{s.tag}: ended by its time limit, uncounted")
                return {}, None
            if r.rc == 1 and not r.timeout and not r.crashed: raise Inconclusive(f"{s.tag}: the run fails without saying why: {r.err[-800:]}")
            return d, s.confirm_crash(r, journal, sa)
        finally:
            for x in (out, journal):
                if os.path.exists(x): os.unlink(x)

    def failed(s, f):
        """A case failed in process."""
        what = f"[{f['unit']}] {f['message']}"
        for k in range(5):
            x = s.single(f["unit"], choices=f["choices"])
            if x.rc != 0:
                break
        else:
            what += " (does not fail every time)"
        return Violation(what, s.replay_file(dict(unit=f["unit"], case=f["case"], choices=f["choices"], description=f["description"], message=f["message"]), what))

# ------------------------------------------------------------------ evidence

RULES = {
    "codec": "A case draws a type from a registry of several hundred types and a derived set, then a value or wire image from its reference model (edges, limits, corruptions); it is non-trivial when the encoding or input in it is not empty (for fault properties: when it holds a fault); distinct by type and content.",
}

def write_evidence(prop, tier, seed, level, cov, viol, assumptions):
    os.makedirs(EVIDENCE, exist_ok=True)
    e = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - BEGAN, 2), violations=viol, assumptions=assumptions)
    with open(os.path.join(EVIDENCE, f"{prop}.json"), "w") as f: json.dump(e, f, indent=1)

def merge(runs):
    """runs: [(tag, data)]"""
    cov = dict(evaluations=0, distinct_nontrivial=0, excluded_known=0, samples=[], per_run={}, classes={})
    for tag, d in runs:
        cov["evaluations"] += d.get("evaluations", 0)
        # Runs may share cases, so that their distinct cases are not added up.
        cov["distinct_nontrivial"] = max(cov["distinct_nontrivial"], d.get("distinct_nontrivial", 0))
        cov["excluded_known"] += d.get("excluded_known", 0)
        cov["per_run"][tag] = {k: d.get(k) for k in ("evaluations", "nontrivial", "distinct_nontrivial", "units", "exhaustive_units", "ignored_failures", "wall_s")}
        for k, n in (d.get("classes") or {}).items(): cov["classes"][k] = cov["classes"].get(k, 0) + n
        cov["samples"] += (d.get("samples") or [])[:6]
    cov["samples"] = cov["samples"][:12] or ["none"]
    return cov

def finish(prop, tier, seed, level, cov, violations, known, assumptions):
    """Prints and records the outcome; the exit code."""
    listed = known_findings().get(prop, set())
    shown = set()
    for k in known:
        if k["sig"] in listed:
            if k["sig"] not in shown: print(f"KNOWN-FINDING: property={prop} {k['what']}", flush=True)
            shown.add(k["sig"])
        else:
            os.makedirs(REPLAYS, exist_ok=True)
            p = os.path.join(REPLAYS, f"{prop}-{k['sig']}.json")
            with open(p, "w") as f: json.dump(dict(property=prop, battery=True, sig=k["sig"], what=k["what"], rebuild=k.get("rebuild", {})), f, indent=1)
            violations.append(Violation(k["what"], p))
    cov["known_findings_reproduced"] = sorted(shown)
    write_evidence(prop, tier, seed, level, cov, len(violations), assumptions)
    say(f"{cov.get('evaluations', 0)} cases, {cov.get('distinct_nontrivial', 0)} distinct and non-trivial")
    for v in violations:
        say(v.what)
        print(f"VIOLATION property={prop} replay={v.replay}", flush=True)
    return 1 if violations else 0

# -------------------------------------------------------------------- checks

# property: (binary, scale in quick, scale in thorough)
GENERAL = {
    "C01": ("codec", 2.0, 60), "C02": ("codec", 3.0, 100), "C03": ("codec", 8.0, 200), "C04": ("codec", 0.8, 20),
    "C05": ("codec", 0.5, 12), "C06": ("codec", 2.5, 60), "C07": ("codec", 1.0, 30), "C09": ("codec", 0.5, 10),
    "C10": ("codec", 4.0, 100), "C20": ("codec", 20.0, 800),
    "C08": ("cont", 3.0, 120), "C12": ("cont", 3.0, 120), "C13": ("cont", 6.0, 200), "C14": ("cont", 2.0, 60),
    "C15": ("cont", 8.0, 300), "C16": ("cont", 6.0, 200), "C18": ("cont", 8.0, 200), "C21": ("cont", 8.0, 250),
}
RULE = {
    "C01": "A value of a registry type (edges, limits, containers up to their maximal counts); non-trivial when its encoding has bytes.",
    "C02": "A value of a registry type, its encoding compared with the reference layout; non-trivial when that has bytes.",
    "C03": "A value (half of them maximal) in a buffer and slot of exactly MAX_ENCODED_SIZE; non-trivial when it has bytes.",
    "C04": "A wire image (valid, near miss, truncated, noise, every leading byte or pair) against the reference decoder; non-trivial when not empty.",
    "C05": "A value that may hold, anywhere, what the format cannot represent, or sits at a limit; non-trivial when it does.",
    "C06": "A value encoded at a random offset of a guarded buffer, perhaps too short; non-trivial when its encoding has bytes.",
    "C07": "An encoding between random neighbours, perhaps cut short; non-trivial when it has bytes.",
    "C08": "A history of raw and typed reads or writes on one stream; non-trivial when at least two operations took effect.",
    "C09": "A faulty value or wire image, its error compared with that of the reference; non-trivial when it is faulty.",
    "C10": "One content in all equivalent forms; non-trivial when its encoding has items.",
    "C12": "A history of slot operations; non-trivial when at least one value was written and others followed.",
    "C13": "A history of operations on a SizedSlice beside a Vec; non-trivial when elements were held.",
    "C14": "A history of building and editing a SizedStr beside a String, or octets that may not be text; non-trivial when text was held or refused.",
    "C15": "A history of SizedIter operations beside a deque (and all short interleavings); non-trivial when taken from both ends or cloned.",
    "C16": "Decoding, cloning, conversion and iteration histories over accounted tokens with injected faults; non-trivial when tokens were made.",
    "C18": "Locks, cells and lazies around probes that watch their own lock, with faults, poison and other threads; non-trivial as the unit says.",
    "C20": "A duration or time point (edges, both sides of the epoch, platform limits) or its wire image; non-trivial when not zero.",
    "C21": "Two related sequences at two capacities with stale leftovers; non-trivial when both hold something.",
}
LEVEL = {"C16": "fault_enumeration"}
PROFILES = ("chk", "rel")

def general(prop, tier, seed):
    bin, quick, thorough = GENERAL[prop]
    profiles = PROFILES if tier == "quick" else PROFILES + ("opt",)
    built = parallel([lambda p=p: build_harness(p, bin, prop) for p in profiles])
    say("built", ", ".join(f"{p} [{','.join(b[1])}]" for p, b in zip(profiles, built)))
    hs = []
    for k, (p, (path, feats)) in enumerate(zip(profiles, built)):
        h = Harness(path, prop, seed * 16 + k, p, rebuild=dict(profile=p, bin=bin, features=feats))
        h.report_as = prop
        hs.append(h)
    scale, to = (quick, 240) if tier == "quick" else (thorough, 3000)
    res = parallel([lambda h=h: h.explore(scale, max(2, CPUS // len(hs)), to) for h in hs])
    cov = merge([(h.tag, d) for h, (d, _) in zip(hs, res)])
    cov["rule"] = RULE[prop]
    viol = [v for _, v in res if v]
    known = [dict(k, rebuild=h.rebuild) for h, (d, _) in zip(hs, res) for k in d.get("known", [])]
    return finish(prop, tier, seed, LEVEL.get(prop, "exploration"), cov, viol, known, ["the reference model in harness/core/src/model.rs and the unit's own oracle are right"])

# ------------------------------------------------- C11: generated programs

GEN = os.path.join(BUILD, "gen")
GEN_TOML = """[package]
name = "generated"
version = "0.1.0"
edition = "2021"

[dependencies]
oct = {{ path = "/repo/oct" }}
vh = {{ path = "{harness}" }}

[workspace]

{profiles}
"""
GEN_MAIN = """
fn main() {
	vh::engine::main_with(vh::codec::derived_units(entries().leak()), |_| Ok(Vec::new()));
}
"""

def gen_crate(dir, sources):
    """A crate with the given programs, {name: source}."""
    shutil.rmtree(os.path.join(dir, "src"), ignore_errors=True)
    os.makedirs(os.path.join(dir, "src", "bin"))
    toml = open(os.path.join(HARNESS, "Cargo.toml")).read()
    profiles = toml[toml.index("[profile.chk]"):]
    with open(os.path.join(dir, "Cargo.toml"), "w") as f: f.write(GEN_TOML.format(harness=HARNESS, profiles=profiles))
    shutil.copy(os.path.join(HARNESS, "Cargo.lock"), os.path.join(dir, "Cargo.lock"))
    for n, src in sources.items():
        with open(os.path.join(dir, "src", "bin", n + ".rs"), "w") as f: f.write(src + GEN_MAIN)

def gen_build(dir, profile, *what):
    t = os.path.join(BUILD, "gen-" + profile)
    cargo(["build", "--profile", profile] + list(what), t, cwd=dir, what="the generated program")
    return os.path.join(t, profile)

def failing_program(dir, profile, name, gen_seed, n, nb, log):
    """The smallest definitions of a program that does not build, and the compiler's word on them."""
    import gen_derive
    defs, borrowed = gen_derive.generate(gen_seed, n, nb)
    src = gen_derive.render(defs, borrowed, "vh")
    lines = src.splitlines()
    # The definitions the errors point to.
    marks = []
    for i, l in enumerate(lines):
        m = re.match(r"pub (?:struct|enum) ([DOB]\d+)", l)
        if m: marks.append((i + 1, m.group(1)))
    cands = []
    for m in re.finditer(re.escape(name) + r"\.rs:(\d+):", log):
        k = int(m.group(1))
        # Attributes come before the line of the name, so that both neighbours qualify.
        for x in [x for l, x in marks if l <= k][-1:] + [x for l, x in marks if l >= k][:1]:
            if x not in cands: cands.append(x)
    t0 = time.time()
    def attempt(ds, bs):
        s = gen_derive.render(ds, bs, "vh")
        d = dir + "-min"
        gen_crate(d, {"min": s})
        r = run(["cargo", "check", "--offline", "--profile", profile, "--bin", "min", "--target-dir", os.path.join(BUILD, "gen-" + profile)], 300, mem=0, env=ENV, cwd=d)
        return (s, r.err) if r.rc != 0 and not r.timeout else None
    for x in cands:
        if time.time() - t0 > 120: break
        if x.startswith("D"): r = attempt(gen_derive.closure(defs, x), [])
        else: r = attempt([], [borrowed[int(x[1:])]])
        if r: return r
    return src, log

def c11(prop, tier, seed):
    import gen_derive
    gen_derive.DICT = dictionary()
    n, nb = 20, 4
    batches, per, scale = (1, 4, 0.5) if tier == "quick" else (10, 8, 6)
    runs, viol, programs, defined = [], [], 0, 0
    for b in range(batches):
        seeds = {f"g{k}": (seed * 10007 + b * per + k) for k in range(per)}
        gens = {k: gen_derive.generate(s, n, nb) for k, s in seeds.items()}
        src = {k: gen_derive.render(d, bo, "vh") for k, (d, bo) in gens.items()}
        dirs = {}
        for p in PROFILES:
            dirs[p] = os.path.join(GEN, p)
            os.makedirs(dirs[p], exist_ok=True)
            gen_crate(dirs[p], src)
        # The harness comes first: if it does not build, the programs tell nothing.
        parallel([lambda p=p: gen_build(dirs[p], p, "-p", "vh") for p in PROFILES])
        def built(p):
            try: return gen_build(dirs[p], p, "--bins"), None
            except BuildFailed as e: return None, e
        out = dict(zip(PROFILES, parallel([lambda p=p: built(p) for p in PROFILES])))
        say(f"batch {b + 1} of {batches} built")
        e = next((x[1] for x in out.values() if x[1]), None)
        if e:
            bad = [k for k in seeds if re.search(r"\b" + k + r"\.rs:\d+:", e.log)] or list(seeds)
            s, log = failing_program(dirs["chk"], "chk", bad[0], seeds[bad[0]], n, nb, e.log)
            what = "a derived definition does not compile: " + tail(log, 14)
            p = os.path.join(REPLAYS, f"C11-{hashlib.sha256(s.encode()).hexdigest()[:10]}.json")
            os.makedirs(REPLAYS, exist_ok=True)
            with open(p, "w") as f: json.dump(dict(property=prop, rebuild=dict(kind="source", profile="chk", source=s), args=None, what=what), f, indent=1)
            viol.append(Violation(what, p))
            break
        hs = []
        for p in PROFILES:
            for k in seeds:
                h = Harness(os.path.join(out[p][0], k), "C11", seed * 16 + PROFILES.index(p), f"{p}/{seeds[k]}", rebuild=dict(kind="source", profile=p, source=src[k]))
                h.report_as, h.gen = prop, gens[k]
                hs.append(h)
        res = []
        width = CPUS
        for i in range(0, len(hs), width):
            res += parallel([lambda h=h: h.explore(scale, max(1, CPUS // len(hs[i:i + width])), 240 if tier == "quick" else 2000) for h in hs[i:i + width]])
        programs += per; defined += per * (n + nb + gen_derive.WALKS + len(gen_derive.WIDE))
        runs += [(h.tag, d) for h, (d, _) in zip(hs, res)]
        for h, (_, v) in zip(hs, res):
            if v and len(viol) < 3: viol.append(smaller_program(h, v))
        if viol: break
    cov = merge(runs)
    cov["per_run"] = dict(list(cov["per_run"].items())[:16])
    # (Programs differ, so that their distinct cases add up over one profile.)
    cov["distinct_nontrivial"] = sum(d.get("distinct_nontrivial", 0) for t, d in runs if t.startswith("chk"))
    cov.update(programs=programs, definitions=defined, rule="Programs of 20 derived definitions (structs, enums, generics, representations, discriminants), 3 enumerations of long runs of discriminants, 2 definitions of many fields and 4 borrowed twins each are generated and compiled; a case is a value or wire image of one; non-trivial as in the property the case comes from (a non-empty encoding, or a fault).")
    return finish(prop, tier, seed, "exploration", cov, viol, [], ["the generator's own assignment of discriminants and layouts (gen_derive.py) and the reference model are right"])

def smaller_program(h, v):
    """The replay file of `v`, with only the definitions it needs if these do."""
    import gen_derive
    try:
        d = json.load(open(v.replay))
        m = re.match(r"c11 ([DOB])(\d+)", d.get("unit") or "")
        if not m: return v
        defs, borrowed = h.gen
        if m.group(1) == "D": s = gen_derive.render(gen_derive.closure(defs, m.group(1) + m.group(2)), [], "vh")
        else: s = gen_derive.render([], [borrowed[int(m.group(2))]], "vh")
        dir = os.path.join(GEN, "small")
        os.makedirs(dir, exist_ok=True)
        gen_crate(dir, {"small": s})
        exe = os.path.join(gen_build(dir, h.rebuild["profile"], "--bin", "small"), "small")
        h2 = Harness(exe, h.prop, h.seed, h.tag, rebuild=dict(h.rebuild, source=s))
        h2.report_as = h.report_as
        r = h2.single(d["unit"], case=d.get("case"), choices=d.get("choices"))
        if r.rc != 0 or r.timeout:
            return Violation(v.what, h2.replay_file({k: d.get(k) for k in ("unit", "case", "choices", "description", "message") if k in d}, v.what))
    except (BuildFailed, Inconclusive, OSError, ValueError): pass
    return v

# ------------------------------------------------------------- C17: the tools

ALL = ["registry", "derived"]
UB_CODEC = "C01,C03,C04,C06,C07,C10"
MIRI = "-Zmiri-disable-isolation -Zmiri-ignore-leaks "

def tool_build(tool, profile, bins, features):
    """The directory of the binaries."""
    t = os.path.join(BUILD, {"plain": profile, "ck": "ck-" + profile, "asan": "asan"}[tool])
    bins = [x for b in bins for x in ("--bin", b)]
    if tool == "asan":
        cargo(["+nightly", "build", "--profile", profile, "--target", "x86_64-unknown-linux-gnu", "--features", ",".join(features)] + bins, t,
              env=dict(RUSTFLAGS="-Zsanitizer=address"), what="the harness (AddressSanitizer)")
        return os.path.join(t, "x86_64-unknown-linux-gnu", profile)
    if tool == "ck": features = features + ["ckalloc"]
    cargo(["build", "--profile", profile, "--features", ",".join(features)] + bins, t, what=f"the harness ({tool}, {profile})")
    return os.path.join(t, profile)

def miri_env(flags): return dict(ENV, MIRIFLAGS=MIRI + flags, RUSTFLAGS="-Awarnings")

def miri_cmd(bin, features):
    return ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--target-dir", os.path.join(BUILD, "miri"), "--bin", bin, "--features", ",".join(features), "--"]

def tool_harness(tool, profile, bin, dir, props, seed, features, extra=(), flags=""):
    rb = dict(kind="tool", tool=tool, profile=profile, bin=bin, features=features, flags=flags)
    extra = ["--keep-going"] + list(extra)
    tag = f"{tool}/{bin}" + (f"/{profile}" if tool == "ck" else "")
    exe = os.path.join(dir, bin) if dir else None
    if tool == "asan":
        h = Harness(exe, props, seed, tag, env=dict(ENV, ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1:abort_on_error=0"), mem=0, rebuild=rb, extra=extra, slow=2)
    elif tool == "memcheck":
        h = Harness(["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", exe], props, seed, tag, mem=0, rebuild=rb, extra=extra, slow=4)
    elif tool == "miri":
        h = Harness(miri_cmd(bin, features), props, seed, tag, env=miri_env(flags), mem=0, rebuild=rb, extra=extra, cwd=HARNESS, slow=8)
    else: h = Harness(exe, props, seed, tag, rebuild=rb, extra=extra)
    h.report_as = "C17"
    return h

def c17(prop, tier, seed):
    quick = tier == "quick"
    began = time.time()
    def until(share, most):
        """A share of the time that is left on a slow machine, as a deadline."""
        if not quick: return ["--deadline", str(most)]
        return ["--deadline", str(int(max(15, min(most, share * (640 - (time.time() - began))))))]
    bins, feats = ["codec", "cont"], list(ALL)
    profiles = ["chk", "rel"] + ([] if quick else ["opt"])
    def build_all(feats):
        jobs = {("ck", p): (lambda p=p: tool_build("ck", p, bins, feats)) for p in profiles}
        jobs[("plain", "rel")] = lambda: tool_build("plain", "rel", bins, feats)
        jobs[("asan", "rel")] = lambda: tool_build("asan", "rel", bins, feats)
        def miri():
            for b in bins:
                e = dict(miri_env("")); e.pop("RUSTC_WRAPPER", None)
                r = run(miri_cmd(b, feats) + ["--prop", "none", "--list"], 600, mem=0, env=e, cwd=HARNESS)
                if r.rc != 0: raise BuildFailed("the harness (Miri)", r.err)
        jobs["miri"] = miri
        return dict(zip(jobs, parallel(list(jobs.values()))))
    try: dirs = build_all(feats)
    except BuildFailed as e:
        say(f"{e.what} does not build; trying without the fixed derived types:\n{tail(e.log, 20)}")
        feats = ["registry"]
        dirs = build_all(feats)
    say("built")
    runs, viol = [], []
    def phase(hs, scale, threads, timeout, more=()):
        res = parallel([lambda h=h: h.explore(scale if not isinstance(scale, dict) else scale[h.rebuild["bin"]], threads, timeout, more) for h in hs])
        for h, (d, v) in zip(hs, res):
            runs.append((h.tag, d))
            if v: viol.append(v)
        say(f"{hs[0].tag.split('/')[0]}: {sum(d.get('evaluations', 0) for d, _ in [(d, 0) for d, _ in res])} cases")
    prop_of = dict(codec=UB_CODEC, cont="all")
    T = 1 if quick else 12
    # The checking allocator, in every profile.
    phase([tool_harness("ck", p, b, dirs[("ck", p)], prop_of[b], seed * 16 + k, feats) for k, p in enumerate(profiles) for b in bins],
          dict(codec=0.1 * T, cont=0.7 * T), 4, 300 * T, until(0.35, 300 * T))
    if not viol:
        phase([tool_harness("asan", "rel", b, dirs[("asan", "rel")], prop_of[b], seed * 16 + 3, feats) for b in bins],
              dict(codec=0.03 * T, cont=0.3 * T), 4, 300 * T, ["--no-exhaustive"] + until(0.3, 300 * T))
    slices = CPUS
    small = ["--no-exhaustive"]
    if not viol:
        hs = [tool_harness("memcheck", "rel", b, dirs[("plain", "rel")], prop_of[b], seed * 16 + 4, feats, ["--slice", f"{k}/{slices}"]) for b in bins for k in range(slices)]
        for k, h in enumerate(hs): h.tag += f"/{k % slices}"
        phase(hs[:slices], dict(codec=0.01 * T, cont=0), 1, 400 * T, small + until(0.2, 90 * T))
        phase(hs[slices:], dict(codec=0, cont=0.02 * T), 1, 400 * T, small + until(0.2, 90 * T))
    if not viol:
        for flags, secs in [("-Zmiri-disable-stacked-borrows", 75 if quick else 900)] + ([] if quick else [("-Zmiri-tree-borrows", 900)]):
            for b, props, scale in (("cont", "all", 0.0008 * T), ("codec", "C01,C04,C07", 0.001 * T)):
                hs = [tool_harness("miri", "dev", b, None, props, seed * 16 + 5, feats, ["--slice", f"{k}/{slices}"], flags) for k in range(slices)]
                for k, h in enumerate(hs): h.tag += f"/{'tree/' if 'tree' in flags else ''}{k}"
                phase(hs, scale, 1, 300 + 3 * secs, small + until(0.3, secs))
                if viol: break
            if viol: break
    cov = merge(runs)
    tools = {}
    for t, d in runs:
        x = tools.setdefault("/".join(t.split("/")[:2]), dict(evaluations=0, distinct_nontrivial=0))
        for k in x: x[k] += d.get(k, 0)
    cov["per_run"] = tools
    # (Every tool has cases of its own but those of the allocator's profiles and bins; a lower bound.)
    cov["distinct_nontrivial"] = max(x["distinct_nontrivial"] for x in tools.values())
    cov["rule"] = ("The cases of the codec and container checks, run under a checking allocator (with and without debug assertions), AddressSanitizer, Memcheck and Miri; "
                   "whatever ends the process counts; non-trivial as in the property the case comes from; distinct within one tool and binary.")
    return finish(prop, tier, seed, "exploration", cov, viol[:3], [], ["AddressSanitizer, Memcheck, Miri, std's own precondition checks and the checking allocator report what they should; the standard library itself is sound"])

# ---------------------------------------------------- C19: feature combinations

FEATURES = ("alloc", "std", "macro")
SUBSETS = [tuple(f for i, f in enumerate(FEATURES) if k >> i & 1) for k in range(1 << len(FEATURES))]
HOST = "x86_64-unknown-linux-gnu"

def feat_build(profile, subset):
    t = os.path.join(BUILD, "-".join(("feat",) + subset))
    fs = ",".join("oct-" + f for f in subset)
    cargo(["build", "--profile", profile, "--bin", "feat", "--no-default-features"] + (["--features", fs] if fs else []), t, env=dict(RUSTFLAGS="-Awarnings"), what=f"feat [{fs}]")
    return os.path.join(t, profile, "feat")

def bare_sysroot(alloc):
    """A sysroot of nothing but `core` (and `alloc`)."""
    r = run(["rustc", "--print", "sysroot"], 60, mem=0)
    lib = os.path.join("lib", "rustlib", HOST, "lib")
    d = os.path.join(BUILD, "sysroot-alloc" if alloc else "sysroot-core")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, lib))
    names = ("libcore-", "libcompiler_builtins-") + (("liballoc-",) if alloc else ())
    src = os.path.join(r.out.strip(), lib)
    n = 0
    for f in os.listdir(src):
        if f.startswith(names):
            os.symlink(os.path.join(src, f), os.path.join(d, lib, f)); n += 1
    if n < 2: raise Inconclusive("there is no core in the sysroot")
    return d

def bare_build(subset, sysroot):
    t = os.path.join(BUILD, "-".join(("nostd", "bare" if sysroot else "whole") + subset))
    fl = "-Awarnings" + (f" --sysroot {sysroot}" if sysroot else "")
    cargo(["build", "--lib", "--target", HOST] + (["--features", ",".join(subset)] if subset else []), t, env=dict(RUSTFLAGS=fl), cwd=os.path.join(HARNESS, "nostd"),
          what=f"a user without std [{','.join(subset)}]" + ("" if sysroot else " (with std after all)"))

def c19(prop, tier, seed):
    quick = tier == "quick"
    os.makedirs(REPLAYS, exist_ok=True)
    viol, runs, built = [], [], 0
    def fails(e, rb):
        what = f"{e.what} does not build: " + tail(e.log, 14)
        p = os.path.join(REPLAYS, f"C19-{hashlib.sha256(json.dumps(rb).encode()).hexdigest()[:10]}.json")
        with open(p, "w") as f: json.dump(dict(property=prop, rebuild=rb, args=None, what=what), f, indent=1)
        return Violation(what, p)
    bare = [s for s in SUBSETS if "std" not in s]
    sysroots = {a: bare_sysroot(a) for a in (False, True)}
    # With everything there is, harness and user must build, or the rest tells nothing.
    parallel([lambda: feat_build("chk", FEATURES), lambda: bare_build(("alloc", "macro", "whole"), None)])
    def attempt(f, *a):
        try: return f(*a), None
        except BuildFailed as e: return None, e
    profiles = ["chk"] if quick else ["chk", "rel", "opt"]
    for p in profiles:
        jobs = [(("feat", s), lambda s=s: attempt(feat_build, p, s)) for s in SUBSETS]
        if p == "chk": jobs += [(("bare", s), lambda s=s: attempt(bare_build, s, sysroots["alloc" in s])) for s in bare]
        hs = []
        for (kind, s), (exe, e) in zip([j[0] for j in jobs], parallel([j[1] for j in jobs])):
            rb = dict(kind=kind, profile=p, subset=list(s))
            if e:
                viol.append(fails(e, rb))
                continue
            built += 1
            if kind == "feat":
                h = Harness(exe, "C19", seed * 16 + profiles.index(p), f"{p}/{'+'.join(s) or 'none'}", rebuild=rb)
                h.report_as = prop
                hs.append(h)
        say(f"built ({p})")
        res = parallel([lambda h=h: h.explore(2 if quick else 60, max(1, CPUS // len(hs)), 240 if quick else 2000) for h in hs]) if hs else []
        runs += [(h.tag, d) for h, (d, _) in zip(hs, res)]
        viol += [v for _, v in res if v]
        if viol: break
    cov = merge(runs)
    cov.update(feature_subsets=len(SUBSETS), builds=built,
               rule="Every subset of the features is built (those without std against a sysroot without std as well) and each build is explored over the types it has: a case is a value, wire image or history; non-trivial as in the property the case comes from (a non-empty encoding, a fault, operations that took effect).")
    return finish(prop, tier, seed, "exploration", cov, viol[:3], [], ["the reference model is the same for all combinations, so that agreement with it is agreement among them"])

# ---------------------------------------------------------------------------

SPECIAL = {"C11": c11, "C17": c17, "C19": c19}

def checks():
    """The properties there is a check for."""
    return sorted(list(GENERAL) + list(SPECIAL))

def setup():
    parallel([lambda p=p: build_harness(p, "codec", "C01") for p in PROFILES])
    parallel([lambda p=p: build_harness(p, "cont", "C13") for p in PROFILES])
    return 0

def rebuild(b):
    if b.get("kind") == "source":
        dir = os.path.join(GEN, "replay")
        os.makedirs(dir, exist_ok=True)
        gen_crate(dir, {"replay": b["source"]})
        return os.path.join(gen_build(dir, b["profile"], "--bin", "replay"), "replay")
    if b.get("kind") == "tool":
        if b["tool"] == "miri": return None
        return tool_build("plain" if b["tool"] == "memcheck" else b["tool"], b["profile"], [b["bin"]], b["features"])
    if b.get("kind") == "feat": return feat_build(b["profile"], tuple(b["subset"]))
    if b.get("kind") == "bare": return bare_build(tuple(b["subset"]), bare_sysroot("alloc" in b["subset"]))
    return build(b["profile"], b["bin"], b["features"])

def replay(path):
    d = json.load(open(path))
    b = d["rebuild"]
    ENV["VH_DICT"] = d.get("dictionary", "")
    try: exe = rebuild(b)
    except BuildFailed as e:
        print(f"replay: {e.what} does not build:\n{tail(e.log)}")
        return 1 if b.get("kind") in ("source", "feat", "bare") and not d.get("unit") else 2
    if b.get("kind") == "tool":
        h = tool_harness(b["tool"], b["profile"], b["bin"], exe, d["harness_property"], d["seed"], b["features"], [x for x in d["extra"] if x != "--keep-going"], b["flags"])
    else: h = Harness(exe, d.get("harness_property", d["property"]), d.get("seed", 1), d.get("tag", "replay"), rebuild=b, extra=d.get("extra", []))
    h.report_as = d["property"]
    if d.get("unit"): r = h.single(d["unit"], case=d.get("case"), choices=d.get("choices"))
    elif b.get("kind") in ("source", "feat", "bare") and not d.get("args"):
        print("replay: the program builds")
        return 0
    elif d.get("battery"): r = h.exec("--scale", 0.00001, "--no-exhaustive", timeout=120)
    else: r = h.exec(*d["args"], timeout=900)
    print(r.out + r.err)
    bad = r.timeout or r.rc != 0
    print(f"replay: {'fails' if bad else 'holds'}")
    return 1 if bad else 0

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    try:
        if a.setup: return setup()
        if a.replay: return replay(a.replay)
        f = SPECIAL.get(a.prop, general)
        return f(a.prop, a.tier, a.seed)
    except BuildFailed as e:
        say(f"{e.what} does not build:\n{tail(e.log)}")
        return 2
    except Inconclusive as e:
        say(str(e))
        return 2

if __name__ == "__main__":
    sys.exit(main())
