#!/usr/bin/env python3
"""Decides one property: builds the harness against /repo's working tree, has TLC
generate behaviours of the specification, drives the real code with them and has
TLC compare what happened with the specification.

    bin/check.py C01                     (VERIF_SEED, VERIF_TIER)
    bin/check.py C01 --replay FILE       runs one recorded violation again

Exit 0: held.  Exit 1 and a VIOLATION line: broken.  Exit 2: the check failed."""
import itertools, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
BIN = os.path.join(HARNESS, "target", "debug", "bct-harness")
NCPU = 8


class Broken(Exception):
    """the check itself went wrong"""


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
        self.scratch = tempfile.mkdtemp(prefix="bct-%s-" % prop, dir=base)
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.parts, self.violations, self.known = [], [], [], {}
        self.n = itertools.count(1)
        self.only = None
        self.assumptions = []

    def path(self, name):
        return os.path.join(self.scratch, "%d-%s" % (next(self.n), name))

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    def violation(self, what, data):
        """notes a violation and writes what is needed to see it again"""
        d = os.path.join(VERIF, "build", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations) + 1))
        json.dump({"property": self.prop, "what": what, "seed": self.seed, "tier": self.tier, **data}, open(p, "w"), indent=1)
        self.violations.append((what, p))
        self.log("violation:", what[:600])

    def part(self, name, **k):
        self.parts.append({"part": name, **k})
        self.log(name, json.dumps(k)[:300])


def env(extra=None):
    e = {k: v for k, v in os.environ.items() if k not in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "JAVA_TOOL_OPTIONS")}
    e.update(extra or {})
    return e


def build():
    """where the code's hook does not compile (it names a field that has another name
    now), the harness does without: it moves a chain by its config, over a restart"""
    global BIN
    for flags, target in ("--cfg verif", "target"), ("", "target-nohook"):
        e = env({"RUSTFLAGS": flags + " -C link-args=-rdynamic", "CARGO_TARGET_DIR": os.path.join(HARNESS, target)})
        r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=HARNESS, env=e, capture_output=True, text=True)
        if r.returncode == 0:
            BIN = os.path.join(HARNESS, target, "debug", "bct-harness")
            return
        sys.stderr.write(r.stderr[-6000:])
    raise Broken("the harness does not build")


def gone(r):
    """ended by the code under test: a signal, an operation that never returned, or one
    that left what nothing can be done with"""
    return r.returncode < 0 or r.returncode in (97, 101, 134, 139)


def harness(ctx, *args, timeout=800):
    """one run of the harness; what it prints itself is of no interest"""
    try:
        r = subprocess.run([BIN, *map(str, args)], env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken("harness %s: no answer in %d s" % (args[0], timeout))
    if r.returncode != 0 and not gone(r):
        raise Broken("harness %s: exit %d\n%s" % (args[0], r.returncode, r.stderr[-3000:]))
    return r


def cfgval(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, (int,)):
        return str(v)
    if isinstance(v, (set, frozenset)):
        return "{%s}" % ", ".join(cfgval(x) for x in sorted(v))
    return '"%s"' % v


class Tlc:
    def __init__(self, out, rc, judging=False):
        self.out, self.rc = out, rc
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct", out)
        self.generated, self.distinct = [int(x.replace(",", "")) for x in m[-1]] if m else (0, 0)
        self.ok = rc == 0
        self.violated = rc in (10, 11, 12, 13)
        # what was recorded is of a kind the specification has nothing to compare with
        self.unfit = judging and rc in (75, 76, 77) and "Java StackOverflow" not in out and "OutOfMemory" not in out
        if not self.ok and not self.violated and not self.unfit:
            keep = [l for l in out.splitlines() if not re.match(r"(Parsing|Semantic|Linting)", l)]
            raise Broken("TLC exit %d\n%s" % (rc, "\n".join(l[:500] for l in keep[-40:])))

    def last(self, var):
        """the variable's value in the last state of a behaviour TLC printed"""
        m = re.findall(r"^(?:/\\ )?%s = (-?\d+)$" % var, self.out, re.M)
        return int(m[-1]) if m else 1

    def why(self):
        m = re.search(r"(Attempted to [^\n]*(?:\n[^\n]+){0,3}|The exception was[^\n]*(?:\n[^\n]+){0,3})", self.out)
        return " ".join(m.group(1).split())[:300] if m else "TLC exit %d" % self.rc

    def tagged(self, tag):
        """what PrintT(<<tag, json string, ...>>) printed"""
        res = []
        for l in self.out.splitlines():
            if l.startswith('<<"%s", ' % tag):
                res.append(json.loads("[" + l[2:l.rindex(">>")] + "]"))
        return res


def tlc(ctx, module, constants=None, invariants=(), properties=(), spec="Spec", extra=(), env_=None,
        workers=NCPU, timeout=840, constraint=None, view=None, post=None, symmetry=None, heap="6g", subst=None, judging=False):
    cfg = ctx.path(module + ".cfg")
    with open(cfg, "w") as f:
        f.write("SPECIFICATION %s\n" % spec)
        for k, v in (constants or {}).items():
            f.write("CONSTANT %s = %s\n" % (k, cfgval(v)))
        for k, v in (subst or {}).items():
            f.write("CONSTANT %s <- %s\n" % (k, v))
        for i in invariants:
            f.write("INVARIANT %s\n" % i)
        for i in properties:
            f.write("PROPERTY %s\n" % i)
        if constraint:
            f.write("CONSTRAINT %s\n" % constraint)
        if view:
            f.write("VIEW %s\n" % view)
        if post:
            f.write("POSTCONDITION %s\n" % post)
        f.write("CHECK_DEADLOCK FALSE\n")
    meta = ctx.path("meta")
    os.makedirs(meta)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Xmx" + heap, "-Xss64m",
           "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC",
           "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta, "-config", cfg, *map(str, extra),
           os.path.join(SPEC, module + ".tla")]
    try:
        r = subprocess.run(cmd, cwd=ctx.scratch, env=env({"TMPDIR": ctx.scratch, **(env_ or {})}), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        raise Broken("TLC %s: no answer in %d s" % (module, timeout))
    shutil.rmtree(meta, ignore_errors=True)
    return Tlc(r.stdout, r.returncode, judging)


# ---------------------------------------------------------------- exhaustive models

def model(ctx, module, constants, invariants, properties=(), expect=True, name=None, **k):
    """an exhaustive run of a model; the specification itself has to be right"""
    t = tlc(ctx, module, constants, invariants, properties, **k)
    ctx.states += t.distinct
    ctx.transitions += t.generated
    ctx.part(name or module, states=t.distinct, transitions=t.generated, constants={a: str(b) for a, b in constants.items()},
             invariants=list(invariants) + list(properties), holds=t.ok)
    if t.ok != expect:
        keep = [l for l in t.out.splitlines() if not re.match(r"(Parsing|Semantic|Linting)", l)]
        raise Broken("model %s: expected %s\n%s" % (module, "no violation" if expect else "a violation", "\n".join(keep)[-5000:]))
    return t


# ---------------------------------------------------------------- scripts and traces

def gen(ctx, profile, n, depth, seed=None):
    t = tlc(ctx, "GenTree", {"Profile": profile, "Depth": depth}, workers=1,
            extra=["-simulate", "num=%d" % n, "-depth", 400, "-seed", (ctx.seed if seed is None else seed)])
    s = [json.loads(x[1]) for x in t.tagged("SCRIPT")]
    if len(s) < n:
        raise Broken("only %d of %d scripts generated" % (len(s), n))
    return s[:n]


# which properties an operation that never returns, or takes the process down, breaks
ANSWERS = {"coin": {"C01"}, "gas": {"C01"}, "odd": {"C01"}, "churn": {"C01"}, "crowd": {"C01", "C10"}, "flip": {"C01", "C10"}, "swap": {"C01", "C10"}, "cross": {"C01", "C10"}, "submit": {"C03"}, "resubmit": {"C03"}, "mine": {"C07", "C10"},
           "dmine": {"C06", "C07"}, "dadd": {"C06"}, "dopen": {"C06"}, "dgrow": {"C06"}, "addblock": {"C05"}, "again": {"C05"}, "dagain": {"C06"},
           "addtx": {"C05"}, "grow": {"C05"}, "jump": {"C05"}, "open": {"C11", "C12"}, "close": {"C11", "C12"},
           "kill": {"C11", "C12"}, "flush": {"C11", "C12"}, "dflush": {"C06", "C11", "C12"}, "rest": {"C11", "C12"}, "peer": {"C20"}}


def beats(path):
    res = []
    try:
        for l in open(path, errors="replace"):
            try:
                res.append(json.loads(l))
            except ValueError:
                pass
    except OSError:
        pass
    return res


def record(ctx, scripts, flags=(), first=0, accounts=4, seed=None, name=""):
    """drives one tree per script; returns the file of events"""
    seed = ctx.seed if seed is None else seed
    scripts = list(scripts)
    for _ in range(4):
        sp = ctx.path("scripts")
        with open(sp, "w") as f:
            for s in scripts:
                f.write(json.dumps(s) + "\n")
        out = ctx.path("trace")
        base = ["replay", "--scripts", sp, "--seed", seed, "--accounts", accounts, "--first", first, *flags]
        parts = [out + "." + str(k) for k in range(NCPU)] if "--images" in flags else [out]

        def one(k):
            more = ["--part", k, "--parts", NCPU] if len(parts) > 1 else []
            return harness(ctx, *base, *more, "--out", parts[k], "--scratch", ctx.path("w"))

        with ThreadPoolExecutor(NCPU) as ex:
            rs = list(ex.map(one, range(len(parts))))
        if not any(gone(r) for r in rs):
            break
        # some operation took the process down: which?
        sus = [x for r, p in zip(rs, parts) if gone(r) for x in beats(p + ".beat")]
        found = False
        for x in sus:
            i = x["script"]
            one_p = ctx.path("script")
            open(one_p, "w").write(json.dumps(scripts[i]) + "\n")
            o = ctx.path("trace")
            r = harness(ctx, "replay", "--scripts", one_p, "--seed", seed, "--accounts", accounts, "--first", first + i, *flags,
                        "--out", o, "--scratch", ctx.path("w"))
            if not gone(r):
                continue
            found = True
            y = (beats(o + ".beat") or [x])[0]
            how = "does not return" if r.returncode == 97 else "takes the process down"
            if ctx.prop in ANSWERS.get(y["op"]["op"], set()):
                ctx.violation("%s: %s %s" % (name, json.dumps(y["op"]), how),
                              {"part": name, "script": scripts[i], "index": first + i, "seed": seed, "flags": list(flags), "at": y["at"]})
            scripts[i] = scripts[i][:y["at"]]
        if not found:
            raise Broken("the harness ended early and no script does it alone: %s" % [r.returncode for r in rs])
        if ctx.violations:
            scripts = [s[:1] for s in scripts]
    else:
        raise Broken("the harness keeps ending early")
    if len(parts) > 1:
        with open(out, "w") as f:
            for p in parts:
                f.write(open(p).read())
                os.remove(p)
    return out


def validate(ctx, trace, scope, module="TraceTree"):
    """TLC compares the recording with the specification"""
    n = runs = 0
    starts = []
    with open(trace) as f:
        for l in f:
            n += 1
            if l.startswith('{"ev":"begin"'):
                starts.append(n)
    runs = len(starts)
    t = tlc(ctx, module, {"Scope": set(scope)}, ["Conforms"], env_={"TRACE": trace}, judging=True)
    if t.ok and t.distinct != n + runs:
        raise Broken("only %d of %d events were compared" % (t.distinct - runs, n))
    for k in t.tagged("KNOWN"):
        if k[1] == ctx.prop:
            ctx.known[k[2]] = ctx.known.get(k[2], 0) + 1
    ctx.states += t.distinct
    ctx.transitions += t.generated
    bad = t.tagged("BAD")
    if t.unfit and not bad:
        bad = [["BAD", n + min(max(t.last("l"), 1), n), json.dumps([[ctx.prop, "recording", "comparable", t.why()]])]]
    if t.violated and not bad:
        raise Broken("TLC reports a violation without saying which\n" + t.out[-3000:])
    return t, bad, n, runs


def compact(ev):
    e = {k: v for k, v in ev.items() if k not in ("obs", "imgs", "nb", "twins")}
    return e


def trace_part(ctx, name, scripts, scope, flags=(), accounts=4, seed=None):
    if ctx.only is not None and ctx.only.get("part") != name:
        return
    if ctx.only is not None:
        o = ctx.only
        scripts, first, seed = [o["script"]], o["index"], o["seed"]
    else:
        first = 0
    seed = ctx.seed if seed is None else seed
    trace = record(ctx, scripts, flags, first, accounts, seed, name)
    t, bad, n, runs = validate(ctx, trace, scope)
    kinds = {}
    lines = open(trace).read().splitlines()
    for l in lines:
        e = json.loads(l)
        key = e["ev"] + (":" + e["k"] if "k" in e else "") + (":" + e["res"] if "res" in e else "")
        kinds[key] = kinds.get(key, 0) + 1
        if e.get("imgs"):
            kinds["images"] = kinds.get("images", 0) + len(e["imgs"])
    ctx.traces += runs
    ctx.events += n
    if len(ctx.samples) < 6:
        ctx.samples.append({"part": name, "script": scripts[0][:40], "events": [compact(json.loads(x)) for x in lines[:8]]})
    ctx.part(name, scripts=len(scripts), events=n, kinds=kinds, scope=sorted(scope))
    for b in bad[:3]:
        ln = b[1] - 1 if b[1] <= n else b[1] - n
        e = json.loads(lines[ln - 1])
        diffs = [d for d in json.loads(b[2]) if d[0] == ctx.prop] or json.loads(b[2])
        ctx.violation("%s: after %s: %s: expected %s, seen %s" % (name, json.dumps(compact(e))[:200], diffs[0][1],
                                                                json.dumps(diffs[0][2])[:200], json.dumps(diffs[0][3])[:200]),
                      {"part": name, "script": scripts[e["run"] - 1], "index": first + e["run"] - 1, "seed": seed, "flags": list(flags),
                       "line": ln, "event": compact(e), "differences": diffs})
    os.remove(trace)


# ---------------------------------------------------------------- cases

def cases_part(ctx, name, module, size, prefix=None, diff=None, seed=None):
    """cases written by the specification, answered by the code, judged by the specification"""
    if ctx.only is not None and ctx.only.get("part") != name:
        return
    prefix = prefix or module
    subst = {"CaseList": prefix + "Cases", "Diff": (diff or prefix) + "Diff"}
    seed = ctx.seed if seed is None else seed
    first = 0
    if ctx.only is not None:
        cs, first, seed = [ctx.only["case"]], ctx.only["index"], ctx.only["seed"]
    else:
        out = ctx.path("cases")
        tlc(ctx, module, {"Size": size}, spec="CasesSpec", subst=subst, env_={"OUT": out}, workers=1,
            extra=["-simulate", "num=1", "-depth", 1, "-seed", seed])
        cs = [json.loads(l) for l in open(out)]
        if len(cs) < size:
            raise Broken("%s: only %d cases" % (module, len(cs)))
    for _ in range(4):
        cp, op_ = ctx.path("cases"), ctx.path("answers")
        with open(cp, "w") as f:
            for x in cs:
                f.write(json.dumps(x) + "\n")
        r = harness(ctx, "cases", "--cases", cp, "--out", op_, "--scratch", ctx.path("w"), "--seed", seed, "--first", first)
        if not gone(r):
            break
        found = []
        for x in beats(op_ + ".beat"):
            i = x["script"]
            one = ctx.path("case")
            open(one, "w").write(json.dumps(cs[i]) + "\n")
            o = ctx.path("answer")
            r1 = harness(ctx, "cases", "--cases", one, "--out", o, "--scratch", ctx.path("w"), "--seed", seed, "--first", first + i)
            if gone(r1):
                found.append(i)
                ctx.violation("%s: %s %s" % (name, json.dumps(cs[i])[:300], "does not return" if r1.returncode == 97 else "takes the process down"),
                              {"part": name, "case": cs[i], "index": first + i, "seed": seed})
        if not found:
            raise Broken("the harness ended early and no case does it alone")
        return
    n = len(cs)
    t = tlc(ctx, module, {"Size": 0}, ["Conforms"], subst=subst, env_={"TRACE": op_}, judging=True)
    want = n + (n + 99) // 100
    if t.ok and t.distinct != want:
        raise Broken("%s: only %d of %d states" % (module, t.distinct, want))
    for k in t.tagged("KNOWN"):
        if k[1] == ctx.prop:
            ctx.known[k[2]] = ctx.known.get(k[2], 0) + 1
    ctx.states += t.distinct
    ctx.transitions += t.generated
    ctx.events += n
    ctx.traces += n
    bad = [(b[1], json.load(open("%s.bad.%d" % (op_, b[1])))) for b in t.tagged("BAD")]
    if t.unfit and not bad:
        bad = [(min(max(t.last("line"), 1), n), [["answer", "comparable", t.why()]])]
    if t.violated and not bad:
        raise Broken("TLC reports a violation without saying which\n" + t.out[-3000:])
    lines = open(op_).read().splitlines()
    if len(ctx.samples) < 6:
        ctx.samples += [{"part": name, "answered": json.loads(lines[k])} for k in {0, n // 2, n - 1} if len(lines[k]) < 3000]
    ctx.part(name, cases=n, module=module)
    for b in bad[:3]:
        i, ds = b[0] - 1, b[1]
        ctx.violation("%s: case %s: %s: expected %s, seen %s" % (name, json.dumps(cs[i])[:300], ds[0][0], json.dumps(ds[0][1])[:200], json.dumps(ds[0][2])[:300]),
                      {"part": name, "case": cs[i], "index": first + i, "seed": seed, "differences": ds})
    os.remove(op_)


# ---------------------------------------------------------------- several threads

def conc_part(ctx, name, prefix, size, caps, seed=None):
    """scenarios written by the specification, their schedules explored on the code, and
    every different history explained by the specification (Lin) or not"""
    if ctx.only is not None and ctx.only.get("part") != name:
        return
    seed = ctx.seed if seed is None else seed
    first = 0
    if ctx.only is not None:
        cs, first, seed = [ctx.only["case"]], ctx.only["index"], ctx.only["seed"]
        caps = [max(x, 200) for x in caps]
    else:
        out = ctx.path("cases")
        tlc(ctx, "ConcCases", {"Size": size}, spec="CasesSpec", subst={"CaseList": prefix + "Cases", "Diff": "NoDiff"}, env_={"OUT": out},
            workers=1, extra=["-simulate", "num=1", "-depth", 1, "-seed", seed])
        cs = [json.loads(l) for l in open(out)]
        if len(cs) < size:
            raise Broken("%s: only %d scenarios" % (prefix, len(cs)))
    cp, hp = ctx.path("cases"), ctx.path("histories")
    with open(cp, "w") as f:
        for x in cs:
            f.write(json.dumps(x) + "\n")
    args = ["--seed", seed, "--dfs", caps[0], "--random", caps[1], "--free", caps[2], "--limit", 60]
    r = harness(ctx, "conc", "--cases", cp, "--out", hp, "--scratch", ctx.path("w"), "--first", first, *args)
    if gone(r):
        found = False
        for x in beats(hp + ".beat"):
            i = x["script"]
            one = ctx.path("case")
            open(one, "w").write(json.dumps(cs[i]) + "\n")
            r1 = harness(ctx, "conc", "--cases", one, "--out", ctx.path("h"), "--scratch", ctx.path("w"), "--first", first + i, *args)
            if gone(r1):
                found = True
                ctx.violation("%s: %s %s" % (name, json.dumps(cs[i]["threads"])[:300], "do not return" if r1.returncode == 97 else "take the process down"),
                              {"part": name, "case": cs[i], "index": first + i, "seed": seed})
                break
        if not found:
            raise Broken("the harness ended early (%d) and no scenario does it alone" % r.returncode)
        return
    lines = open(hp).read().splitlines()
    n = len(lines)
    t = tlc(ctx, "Lin", {}, ["Explained"], env_={"TRACE": hp}, judging=True)
    if not t.ok and not t.unfit:
        raise Broken("Lin\n" + t.out[-3000:])
    lin = {x[1] for x in t.tagged("LIN")}
    raced = {x[1] for x in t.tagged("RACED")} - lin
    if raced:
        ctx.known["raced"] = ctx.known.get("raced", 0) + len(raced)
    lin |= raced
    bad = [i for i in range(1, n + 1) if i not in lin] if t.ok else [min(max(t.last("n"), 1), n)]
    st = json.load(open(hp + ".stats"))
    ctx.states += t.distinct
    ctx.transitions += t.generated
    ctx.traces += n
    ctx.events += sum(len(json.loads(l)["ops"]) for l in lines)
    if len(ctx.samples) < 6 and lines:
        ctx.samples += [{"part": name, "history": json.loads(lines[k])} for k in {0, n // 2}]
    ctx.part(name, scenarios=len(cs), schedules=st["runs"], scenarios_with_all_schedules=st["complete"], switches_up_to=3, histories=n, explained=len(lin))
    seen = set()
    for i in bad:
        h = json.loads(lines[i - 1])
        if h["c"] in seen:
            continue
        seen.add(h["c"])
        short = ["%s:%s" % (" ".join(str(o[f]) for f in ("t", "op", "k", "a", "b", "x", "tx", "h") if f in o), (o["res"] if o["val"] == [] else o["val"])) for o in h["ops"]]
        ctx.violation("%s: no order explains %s, end %s" % (name, "; ".join(short), json.dumps(h["fin"])[:200]),
                      {"part": name, "case": cs[h["c"] - 1], "index": first + h["c"] - 1, "seed": seed, "history": h})
        if len(seen) >= 3:
            break
    os.remove(hp)


# ---------------------------------------------------------------- the properties




def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    d = json.load(open(p)) if os.path.exists(p) else {"findings": []}
    return [f for f in d["findings"] if f["property"] == prop]


def main():
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    ctx = Ctx(prop, tier, seed)
    if "--replay" in sys.argv:
        ctx.only = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        ctx.seed = ctx.only["seed"]
    rc = 2
    try:
        build()
        ctx.log("built")
        chk = CHECKS[prop]
        chk["run"](ctx)
        for f in known_findings(prop):
            seen = ctx.known.pop(f["match"], 0)
            if f["match"] and (seen or f.get("always")):
                print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
        for k in ctx.known:
            ctx.violation("deviation %s is not listed in known_findings.json" % k, {"part": k})
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": prop, "tier": tier, "seed": seed, "level": chk["level"],
              "coverage": {"states": ctx.states, "transitions": ctx.transitions, "traces_validated_against_impl": ctx.traces,
                           "events_validated": ctx.events, "samples": ctx.samples, "parts": ctx.parts},
              "assumptions": chk.get("assumptions", []) + ctx.assumptions, "wall_s": round(time.time() - ctx.t0, 1), "violations": len(ctx.violations)}
        if ctx.only is None:
            json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
        for what, p in ctx.violations:
            print("VIOLATION property=%s replay=%s" % (prop, p))
        rc = 1 if ctx.violations else 0
        ctx.log("held" if rc == 0 else "broken")
    except Broken as e:
        # a later part that could not be carried through takes nothing back
        for what, p in ctx.violations:
            print("VIOLATION property=%s replay=%s" % (prop, p))
        rc = 1 if ctx.violations else 2
        print("CHECK-ERROR %s: %s" % (prop, e), file=sys.stderr)
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)
    sys.exit(rc)


if __name__ == "__main__":
    sys.modules["check"] = sys.modules["__main__"]
    from props import CHECKS
    main()
