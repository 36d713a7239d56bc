"""What is run for each property."""
from concurrent.futures import ThreadPoolExecutor

import check as c


def sizes(ctx, quick, thorough):
    return quick if ctx.quick else thorough


def scripts(ctx, profile, n, depth, extra=()):
    return list(extra) + ([] if ctx.only else c.gen(ctx, profile, n, depth))


def op(name, /, **k):
    return {"op": name, **k}


OPEN = [op("open")]
INV = ["InRange", "GapFree", "Isolated", "Limits", "Promise"]
STEPS = ["StepsConserve", "StepsAppend", "StepsApart", "StepsEpochs", "StepsWorked", "StepsKept"]


def tree(ctx, name, **k):
    """every history of a small tree: the specification has the properties the traces are compared with"""
    if ctx.only:
        return
    c.model(ctx, "MCTree", {**dict(Money=False, Chains=False, Kills=False), **k}, INV, STEPS, name=name, view="View")


def design(ctx, module, base, invariants, variants, properties=()):
    """the protocol, and that with any one of its decisions the other way it would fail"""
    if ctx.only:
        return
    runs = [lambda: c.model(ctx, module, base, invariants, properties, name=module)]
    for k, inv, *small in variants:
        v = dict(base, **(small[0] if small else {}))
        v[k] = not base[k]
        runs.append(lambda v=v, k=k, inv=inv: c.model(ctx, module, v, [inv], expect=False, name="%s without %s" % (module, k), workers=2, heap="2g"))
    with ThreadPoolExecutor(4) as ex:
        for f in [ex.submit(r) for r in runs]:
            f.result()


def c01(ctx):
    tree(ctx, "all histories of a small ledger", Top=sizes(ctx, 3, 4), Accounts=2, Blocks=1, Epoch=2, Owners=0, Money=True)
    n, d = sizes(ctx, (700, 30), (2500, 60))
    c.trace_part(ctx, "ledger scripts", scripts(ctx, "ledger", n, d), ["C01"])


def c02(ctx):
    design(ctx, "Ledger", dict(Validate=True, Together=True, Distinct=True, Top=4, Start=2,
                               Amounts=sizes(ctx, {1, 2, 4}, {1, 2, 4}), Callers=sizes(ctx, 2, 3)), ["Whole", "Exact", "InRange"],
           [(k, inv, {"Callers": 2}) for k, inv in (("Validate", "Exact"), ("Together", "Whole"), ("Distinct", "Exact"))], ["Answers"])
    c.conc_part(ctx, "concurrent ledger calls", "Ledger", *sizes(ctx, (150, [40, 8, 12]), (3000, [1500, 200, 300])))


def c04(ctx):
    design(ctx, "Submit", dict(Locked=True, Coins=6, Gas=5, Fee=1, Price=2, Credits=2, Submitters=sizes(ctx, 2, 3), MostMoved=5),
           ["Ordered", "Whole"], [("Locked", "Ordered", {"Submitters": 2}), ("Locked", "Whole", {"Submitters": 2, "Gas": 3})])
    c.conc_part(ctx, "concurrent submissions", "Submit", *sizes(ctx, (150, [80, 15, 15]), (2500, [1500, 200, 300])))


def c03(ctx):
    n, d = sizes(ctx, (400, 30), (1500, 60))
    replay = OPEN + [op("submit", a=1, b=2, x="small", d="some", g="rich", c="as is"), op("resubmit")]
    c.trace_part(ctx, "submission scripts", scripts(ctx, "submit", n, d, [replay]), ["C03"])


def far(ctx):
    """heights around which an encoding, an index or a counter may go wrong"""
    ps = (8, 16, 31, 32, 64, 128) if ctx.quick else tuple(range(6, 33)) + (40, 48, 53, 63, 64, 65, 96, 127, 128, 129, 192, 224, 254, 255)
    return [(p, d) for p in ps for d in ((-2,) if ctx.quick else (-3, -2, -1, 0))]


def c05(ctx):
    tree(ctx, "all histories of small chains", Top=2, Accounts=1, Blocks=4, Epoch=2, Owners=sizes(ctx, 0, 2), Chains=True)
    n, d = sizes(ctx, (450, 30), (2000, 60))
    c.trace_part(ctx, "chain scripts", scripts(ctx, "chain", n, d), ["C05"])
    add, end = op("addblock", h="tip", kind="tx", lz="one", n=1), [op("flush"), op("close"), op("addblock", h="tip", kind="sum", lz="one", n=0), op("kill")]
    tall = [OPEN + [op("grow", n=m)] + end + [op("grow", n=5)] for m in sizes(ctx, (275, 20), (530, 300, 64))]
    tall += [OPEN + [add, add, op("jump", p=p, d=d)] + [add] * 3 + [op("addblock", h=h, kind="tx", lz="one", n=0) for h in ("above", "below", "zero", "byte") + 8 * ("wrap",)] + end + [add] * 2 for p, d in far(ctx)]
    c.trace_part(ctx, "tall chains", tall, ["C05"], flags=["--light"])
    c.cases_part(ctx, "thousands of transactions and blocks, blocks of megabytes", "Mass", sizes(ctx, 3, 12), "ChainMass", "Mass")
    c.conc_part(ctx, "concurrent appends", "Main", *sizes(ctx, (120, [80, 15, 15]), (2500, [1500, 200, 300])))


def owners(m):
    """many owners' chains"""
    every = lambda f, **k: [op(f, o=o, **k) for o in range(1, m + 1)]
    block = [op("addblock", h="tip", kind="tx", lz="one", n=0)]
    return ([op("open", accounts=m)] + sum([[x] + block * (x["o"] % 5 == 0) for x in every("dopen")], []) + every("dadd", h="tip")
            + every("dopen")[:9] + every("dadd", h="tip")[:9] + every("dflush")[::2] + [op("flush"), op("close")] + every("dopen")[::-1] + every("dadd", h="tip")[::-1] + [op("kill")] + every("dopen")[:3])


def c06(ctx):
    tree(ctx, "all histories of small chains", Top=2, Accounts=1, Blocks=sizes(ctx, 3, 4), Epoch=2, Owners=2, Chains=True)
    n, d = sizes(ctx, (450, 30), (2000, 60))
    c.trace_part(ctx, "derivative chain scripts", scripts(ctx, "der", n, d), ["C06"])
    dopen, add, other = op("dopen", o=2), op("dadd", o=2, h="tip"), op("dadd", o=3, h="tip")
    end = [op("dflush", o=2), op("flush"), op("close"), dopen, add, op("kill"), dopen, add]
    tall = [OPEN + [dopen, op("dgrow", o=2, n=m)] + end for m in sizes(ctx, (275,), (300, 530))]
    tall += [OPEN + [dopen, op("dopen", o=3), add, other, op("djump", o=2, p=p, d=d)] + [add] * 3 + [other]
             + [op("dadd", o=2, h=h) for h in ("above", "below", "zero", "byte") + 8 * ("wrap",)] + end for p, d in far(ctx)]
    tall += [owners(m) for m in sizes(ctx, (70,), (24, 140, 270))]
    c.trace_part(ctx, "tall derivative chains", tall, ["C06"], flags=["--light"])
    c.conc_part(ctx, "concurrent appends", "Der", *sizes(ctx, (80, [50, 10, 10]), (2000, [1000, 150, 200])))


def c07(ctx):
    tree(ctx, "all histories of small chains", Top=2, Accounts=1, Blocks=sizes(ctx, 3, 4), Epoch=2, Owners=1, Chains=True)
    n, d = sizes(ctx, (450, 30), (2000, 60))
    c.trace_part(ctx, "mining scripts", scripts(ctx, "mine", n, d), ["C07"])
    c.cases_part(ctx, "blocks of thousands of transactions", "Mass", sizes(ctx, 12, 28), "MineMass", "Mass")


def c08(ctx):
    c.cases_part(ctx, "pairs of blocks", "Validate", sizes(ctx, 4000, 60000))
    n, d = sizes(ctx, (200, 30), (1200, 60))
    c.trace_part(ctx, "mined blocks validate", scripts(ctx, "mine", n, d), ["C08"])


def c09(ctx):
    c.cases_part(ctx, "times and demands", "Retarget", sizes(ctx, 5000, 200000))
    n, d = sizes(ctx, (200, 30), (1200, 60))
    c.trace_part(ctx, "difficulties of mined blocks", scripts(ctx, "mine", n, d), ["C09"])


def c10(ctx):
    design(ctx, "Seal", dict(Late=True, Claim=True, Per=sizes(ctx, 2, 3), MaxHeight=sizes(ctx, 7, 13)), ["Again", "Backed"], [("Late", "Again"), ("Claim", "Backed")])
    tree(ctx, "all histories of small chains", Top=2, Accounts=1, Blocks=4, Epoch=2, Owners=sizes(ctx, 0, 2), Chains=True)
    if not ctx.quick:
        tree(ctx, "epochs with money", Top=2, Accounts=1, Blocks=3, Epoch=2, Owners=0, Chains=True, Money=True)
    n, d = sizes(ctx, (400, 30), (1500, 60))
    c.trace_part(ctx, "epoch scripts", scripts(ctx, "epoch", n, d), ["C10"])
    c.trace_part(ctx, "epochs of like balances", scripts(ctx, "twins", *sizes(ctx, (40, 47), (400, 95))), ["C10"], flags=["--light"])
    # epochs' ends and other heights beyond what a word holds
    mine = lambda n: op("mine", w="ok", t="early", n=n)
    fars = []
    for q in sizes(ctx, (31, 32, 64, 128), (16, 24, 31, 32, 33, 48, 53, 63, 64, 65, 96, 127, 128, 129, 192, 254)):
        fars.append(OPEN + [op("crowd"), op("jump", p=q, d=-1), mine("wrong"), mine("right"), mine("right"), op("flush"), op("kill"), mine("right")])
        fars.append(OPEN + [op("crowd"), op("jump", p=q, m=True, d=-1), mine("wrong"), mine("right"), op("flip", k="gas", of="any"), mine("right"), op("flush"), op("close"), mine("wrong")])
        fars.append(OPEN + [op("crowd"), op("jump", p=q, m=True, d=-3), mine("right"), mine("right"), mine("wrong"), mine("right"), op("flush"), op("kill"), mine("right")])
    c.trace_part(ctx, "epochs far away", fars, ["C10", "C07"], flags=["--light"])
    # many accounts: whatever part of a commitment, a copy or a log depends on their number
    crowds = [[op("open", accounts=m), op("crowd"), op("jump", h=999_999), op("mine", w="ok", t="early", n="right"), op("flush"), op("kill")]
              + sum([[op("flip", k=k, of=o), op("jump", h=1_000_000 * (e + 2) - 1), op("mine", w="ok", t="early", n="right")]
                     for e, (k, o) in enumerate([("coin", "last"), ("gas", "any"), ("gas", "last"), ("coin", "any")])], []) + [op("close"), op("kill")]
              for m in sizes(ctx, (5, 8, 17, 33), (5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129))]
    # a long history before, between and after
    churn = op("churn", n=sizes(ctx, 20_000, 150_000))
    crowds.append([op("open", accounts=24), op("crowd"), churn, op("jump", h=999_999), mine("right"), op("flip", k="coin", of="any"), op("flip", k="gas", of="any"), op("kill"),
                   churn, op("jump", h=1_999_999), mine("right"), op("flip", k="gas", of="any"), op("flush"), op("kill"), op("close")])
    c.trace_part(ctx, "epochs of many accounts", crowds, ["C10"], flags=["--light"])
    c.cases_part(ctx, "epochs of thousands of accounts", "Mass", sizes(ctx, 4, 32), "EpochMass", "Mass")
    c.conc_part(ctx, "epochs' ends and other threads", "Epoch", *sizes(ctx, (20, [30, 5, 5]), (300, [400, 60, 60])))


def c11(ctx):
    tree(ctx, "all histories and kills of small chains", Top=2, Accounts=1, Blocks=3, Epoch=2, Owners=1, Chains=True, Kills=True)
    n, d = sizes(ctx, (450, 30), (2000, 60))
    c.trace_part(ctx, "restart scripts", scripts(ctx, "durable", n, d), ["C11"], flags=["--stir"])
    c.cases_part(ctx, "thousands of accounts, transactions and blocks", "Mass", sizes(ctx, 4, 16), "KeepMass", "Mass")
    c.trace_part(ctx, "many owners' chains", [owners(m) for m in sizes(ctx, (70,), (24, 140, 270))], ["C11"], flags=["--light"])
    c.conc_part(ctx, "flushes while others go on", "Flush", 0, sizes(ctx, [40, 25, 10], [1500, 500, 300]))


def c12(ctx):
    design(ctx, "ChainStore", dict(MaxBlocks=sizes(ctx, 3, 4), Flushers=sizes(ctx, 1, 2), Lock=True, Early=True, Replace=True, Filter=True, AllotFlushed=True,
                                   AllotOnce=True), ["Readable", "Prefix", "Indexed", "Promised", "Allotted"],
           [(k, i, {"MaxBlocks": 3, "Flushers": n}) for k, i, n in (("Lock", "Promised", 2), ("Early", "Prefix", 1), ("Replace", "Readable", 1),
            ("Filter", "Indexed", 1), ("AllotFlushed", "Allotted", 1), ("AllotOnce", "Allotted", 1))])
    design(ctx, "Rotate", dict(Restore=True, Aside=True, Clean=True, Rounds=3), ["Whole"], [(k, "Whole") for k in ("Restore", "Aside", "Clean")])
    if not ctx.quick:
        tree(ctx, "all histories and kills of a small ledger", Top=2, Accounts=1, Blocks=3, Epoch=2, Owners=0, Money=True, Kills=True)
    n, d = sizes(ctx, (24, 25), (400, 40))
    c.trace_part(ctx, "kills at every change of a file", scripts(ctx, "durable", n, d), ["C12"], flags=["--images", "--stir"])
    c.trace_part(ctx, "kills around an epoch's end", scripts(ctx, "epoch", n // 2, d), ["C12"], flags=["--images", "--stir"])
    # ends of epochs that have a previous epoch to lose
    end = [op("mine", w="ok", t="early", n="right")]
    rounds = [[op("open", accounts=m), op("crowd"), op("jump", h=999_999)] + end + [op("crowd"), op("jump", h=1_999_999)] + mid + end
              + [op("flip", k="gas", of="any"), op("flip", k="coin", of="any"), op("jump", h=2_999_999)] + end + last
              for m, mid, last in sizes(ctx, [(4, [], [op("kill")]), (6, [op("close")], [])],
                                        [(m, mid, last) for m in (2, 4, 9, 20) for mid in ([], [op("kill")], [op("close")]) for last in ([op("kill")], [op("close")])])]
    c.trace_part(ctx, "kills around the ends of several epochs", rounds, ["C12"], flags=["--images", "--stir"])
    c.conc_part(ctx, "kills while several threads work", "Flush", 0, sizes(ctx, [20, 25, 6], [1500, 1500, 200]), seed=ctx.seed + 7)


TRACE = "TLA+ specification (BlockTree), behaviours generated by TLC replayed on the code, recorded traces checked by TLC (TraceTree)"
KILL = "TLA+ specification with crash semantics; disk images at every file change of replayed behaviours reopened and checked by TLC (TraceTree)"
def c14(ctx):
    c.cases_part(ctx, "values", "Codec", sizes(ctx, 3000, 60000), "Value", "Codec")


def c15(ctx):
    c.cases_part(ctx, "byte strings", "Codec", sizes(ctx, 6000, 200000), "Bytes")


def c13(ctx):
    c.cases_part(ctx, "lists", "Merkle", sizes(ctx, 60, 3000))


def c16(ctx):
    c.cases_part(ctx, "signed transactions", "Sig", sizes(ctx, 3000, 100000))


def c17(ctx):
    c.cases_part(ctx, "pool histories", "Pool", sizes(ctx, 1500, 40000))


def c18(ctx):
    c.cases_part(ctx, "funds histories", "Funds", sizes(ctx, 200, 4000))
    c.conc_part(ctx, "concurrent funds", "Fund", *sizes(ctx, (40, [40, 6, 8]), (1500, [1000, 150, 200])))


def c19(ctx):
    c.cases_part(ctx, "histories of files", "Pack", sizes(ctx, 400, 20000))


def c20(ctx):
    n, d = sizes(ctx, (90, 30), (1200, 60))
    ss = []
    for i, x in enumerate(scripts(ctx, "peer", n, d)):
        # moved close to an epoch's end: over it, mostly
        x = sum([[o] + ([op("mine", w="ok", t="early", n="right")] * (j % 4) if o["op"] == "jump" else []) for j, o in enumerate(x)], [])
        k = len(x) * (i % 3 + 1) // 4
        both = [op("peer", mode=m, rest=r) for m, r in (("same", i % 2 == 0), ("handed", i % 2 == 1))]
        ss.append(x[:k] + both[i % 2:i % 2 + 1] + x[k:] + both + ([op("wait"), op("peer", mode="same", rest=i % 16 == 8)] if i % 8 == 0 else []))
    c.trace_part(ctx, "peers", ss, ["C20"], flags=["--light"])


CASES = "TLA+ specification of the function; cases enumerated and generated by TLC, answered by the real code, every answer checked by TLC"
CNOTE = ("Model-based testing: TLC enumerates the specification's case distinctions with their boundaries and adds random cases; "
         "each is run on the real code and the answer compared by TLC with the TLA+ definition. Bounded by the cases enumerated. ")
NOTE = ("Model-based testing at the level of the real code: every operation of every generated behaviour, its result and "
        "everything observable afterwards is compared by TLC with the TLA+ specification. Bounded by the number and length of "
        "behaviours; the observation is the harness's own (independent decoders). ")

THREADS = ("TLA+ specification of linearizability (Lin over BlockTree); scenarios generated by TLC, schedules explored on the real code, "
           "every recorded history explained by TLC")
TNOTE = ("Every schedule is a real run: a controller decides at each storage call and lock acquisition which thread goes on. Exhaustive "
         "up to three switches for the small scenarios, sampled beyond, plus uncontrolled runs; TLC searches an order for every history. ")
CHECKS = {
    "C02": {"run": c02, "level": "model_checking", "technique": THREADS, "note": TNOTE},
    "C04": {"run": c04, "level": "model_checking", "technique": THREADS, "note": TNOTE},
    "C01": {"run": c01, "level": "model_checking", "technique": TRACE, "note": NOTE},
    "C03": {"run": c03, "level": "model_checking", "technique": TRACE, "note": NOTE},
    "C05": {"run": c05, "level": "model_checking", "technique": TRACE, "note": NOTE},
    "C06": {"run": c06, "level": "model_checking", "technique": TRACE, "note": NOTE},
    "C07": {"run": c07, "level": "model_checking", "technique": TRACE, "note": NOTE},
    "C08": {"run": c08, "level": "model_checking", "technique": CASES, "note": CNOTE},
    "C09": {"run": c09, "level": "model_checking", "technique": CASES, "note": CNOTE},
    "C10": {"run": c10, "level": "model_checking", "technique": TRACE, "note": NOTE},
    "C11": {"run": c11, "level": "model_checking", "technique": TRACE, "note": NOTE},
    "C12": {"run": c12, "level": "model_checking", "technique": KILL, "note": NOTE +
            "A kill is a process kill: what was written to files survives, nothing else."},
    "C14": {"run": c14, "level": "model_checking", "technique": CASES, "note": CNOTE},
    "C15": {"run": c15, "level": "model_checking", "technique": CASES, "note": CNOTE},
    "C13": {"run": c13, "level": "model_checking", "technique": CASES, "note": CNOTE},
    "C16": {"run": c16, "level": "model_checking", "technique": CASES, "note": CNOTE},
    "C17": {"run": c17, "level": "model_checking", "technique": CASES, "note": CNOTE},
    "C19": {"run": c19, "level": "model_checking", "technique": CASES, "note": CNOTE},
    "C18": {"run": c18, "level": "model_checking", "technique": CASES + "; concurrent updates: " + THREADS, "note": CNOTE + TNOTE},
    "C20": {"run": c20, "level": "model_checking", "technique": TRACE, "note": NOTE},
}
