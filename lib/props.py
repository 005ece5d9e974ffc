"""Which stages decide which property."""
import api
import cli
import dimacs
import files
import proof
import session
from core import *

CHECKS = {}


def check(prop, **kw):
    def d(f):
        CHECKS[prop] = dict(run=f, **kw)
        return f
    return d


API = ["the harness reports calls and results faithfully (it only uses the public API)",
       "TLC evaluates the specification correctly"]
MODEL = ["model-repeats", "model-alien", "model-false", "model-assumption", "answer-both.*"]
CRASH = ["crash", "hang", "solve-error", "read-panic", "close-error"]


@check("S01", assumptions=API)
def s01(ctx):
    w = MODEL + ["sat-wrong"]
    api.random_stage(ctx, "api", ctx.scale(14000, 200000), w, 1)
    api.random_stage(ctx, "apiwide", ctx.scale(6000, 60000), w, 2)
    api.random_stage(ctx, "recycle", ctx.scale(6000, 60000), w, 3)
    session.session_stage(ctx, "big", ctx.scale(400, 4000), w, 4, big=True)


@check("S02", assumptions=API)
def s02(ctx):
    w = ["unsat-wrong"]
    api.random_stage(ctx, "api", ctx.scale(14000, 200000), w, 11)
    api.random_stage(ctx, "apiwide", ctx.scale(6000, 60000), w, 12)
    api.random_stage(ctx, "recycle", ctx.scale(6000, 60000), w, 13)
    session.session_stage(ctx, "big", ctx.scale(400, 4000), w + ["live-at-not-implied", "live-fail-not-implied", "tie-unsat", "tie-core"],
                          14, big=True)


@check("S03", assumptions=API)
def s03(ctx):
    for k, p in enumerate(["api", "modes", "rules", "config", "observe"]):
        api.random_stage(ctx, p, ctx.scale(5000, 60000), CRASH, 20 + k)
    api.marathon_stage(ctx, ctx.scale(4, 60), CRASH)
    api.cover_stage(ctx, ctx.scale(5, 6), "TRUE", ctx.scale(6000, 400000), CRASH)


@check("S04", assumptions=API)
def s04(ctx):
    w = ["core-.*", "answer-[AN]-for.*", "unsat-wrong"]
    api.random_stage(ctx, "api", ctx.scale(14000, 200000), w, 31)
    api.random_stage(ctx, "recycle", ctx.scale(12000, 120000), w, 32)
    session.session_stage(ctx, "big", ctx.scale(400, 4000), w + ["live-fail-.*", "tie-core"], 34, big=True)


@check("S05", assumptions=API)
def s05(ctx):
    w = ["answer-.*", "unsat-forgotten", "core-changed", "read-panic"]
    api.mc_stage(ctx, ctx.scale(4, 6), "TRUE")
    api.cover_stage(ctx, ctx.scale(5, 6), "TRUE", ctx.scale(15000, 400000), w)
    api.random_stage(ctx, "modes", ctx.scale(6000, 60000), w, 41)
    api.random_stage(ctx, "api", ctx.scale(8000, 80000), w, 42)


@check("S06", assumptions=API)
def s06(ctx):
    w = ["sat-wrong", "unsat-wrong", "unsat-missed", "unsat-forgotten"]
    api.mc_stage(ctx, ctx.scale(4, 6), "FALSE")
    api.cover_stage(ctx, ctx.scale(5, 7), "FALSE", ctx.scale(8000, 400000), w)
    api.random_stage(ctx, "api", ctx.scale(12000, 200000), w, 51)
    api.random_stage(ctx, "recycle", ctx.scale(8000, 80000), w, 52)


@check("S07", assumptions=API)
def s07(ctx):
    w = ["config-.*", "sat-wrong", "unsat-wrong", "model-false", "core-weak", "crash", "hang"]
    api.random_stage(ctx, "config", ctx.scale(16000, 200000), w, 61)


@check("S08", assumptions=API)
def s08(ctx):
    w = ["model-misses", "model-alien", "model-repeats"]
    api.cover_stage(ctx, ctx.scale(5, 6), "TRUE", ctx.scale(12000, 400000), w)
    api.random_stage(ctx, "modes", ctx.scale(12000, 120000), w, 71)
    api.random_stage(ctx, "observe", ctx.scale(5000, 60000), w, 72)


@check("V01", assumptions=API)
def v01(ctx):
    w = ["sat-wrong", "unsat-wrong", "unsat-missed", "model-false", "core-weak"]
    api.mc_stage(ctx, ctx.scale(4, 6), "TRUE")
    api.cover_stage(ctx, ctx.scale(5, 6), "TRUE", ctx.scale(10000, 400000), w)
    api.random_stage(ctx, "modes", ctx.scale(14000, 160000), w, 81)
    api.random_stage(ctx, "recycle", ctx.scale(6000, 60000), w, 82)


@check("V02", assumptions=API)
def v02(ctx):
    w = ["newvar-visible", "sat-wrong", "unsat-wrong", "unsat-missed", "model-false", "model-misses"]
    api.cover_stage(ctx, ctx.scale(5, 6), "TRUE", ctx.scale(10000, 400000), w)
    api.random_stage(ctx, "modes", ctx.scale(12000, 160000), w, 91)
    api.random_stage(ctx, "rules", ctx.scale(6000, 60000), w, 92)
    api.random_stage(ctx, "recycle", ctx.scale(4000, 60000), w, 93)


@check("V03", assumptions=API)
def v03(ctx):
    w = ["witness-.*", "mode-.*", "crash"]
    api.cover_stage(ctx, ctx.scale(5, 6), "TRUE", ctx.scale(8000, 400000), w)
    api.random_stage(ctx, "rules", ctx.scale(20000, 200000), w, 101)
    api.random_stage(ctx, "modes", ctx.scale(6000, 60000), w, 102)


@check("V04", assumptions=API)
def v04(ctx):
    w = ["observe-.*", "sat-wrong", "unsat-wrong", "model-misses", "model-alien", "model-repeats", "crash",
         "witness-constrained", "newvar-visible", "answer-.*"]
    api.random_stage(ctx, "observe", ctx.scale(24000, 240000), w, 111)


RAW = ["the harness hands the checker exactly the recorded bytes and reports its verdict and steps faithfully",
       "TLC evaluates the specification correctly"]
RAWNOTE = ("TLC decodes every proof's bytes with spec/Codec.tla and judges every step the real checker accepted, every step it "
           "reported and its verdict with spec/ProofRaw.tla. Proofs are seeded random: generated, written by the real solver, "
           "damaged at step and byte level, cut, or given with another formula. Not exhaustive over proofs.")


@check("C01", assumptions=RAW, note=RAWNOTE)
def c01(ctx):
    w = ["at-.*"]
    proof.mc_stage(ctx, "RawMCh", ctx.scale(3, 4))
    proof.mc_stage(ctx, "RawMC3", ctx.scale(3, 4))
    for k, (kind, n) in enumerate([("noisy", 8000), ("clean", 4000), ("mutated", 8000), ("mismatch", 6000)]):
        proof.raw_stage(ctx, kind, ctx.scale(n, n * 15), w, 200 + k)


@check("C02", assumptions=RAW, note=RAWNOTE)
def c02(ctx):
    w = ["del-.*", "dv-.*", "model-clause"]
    proof.mc_stage(ctx, "RawMC", ctx.scale(4, 5))
    proof.mc_stage(ctx, "RawMC3", 4)
    for k, (kind, n) in enumerate([("noisy", 10000), ("clean", 4000), ("mutated", 10000), ("mismatch", 3000)]):
        proof.raw_stage(ctx, kind, ctx.scale(n, n * 15), w, 210 + k)


@check("C03", assumptions=RAW, note=RAWNOTE)
def c03(ctx):
    w = ["model-.*", "fail-.*", "var-.*"]
    proof.mc_stage(ctx, "RawMC", ctx.scale(4, 5))
    for k, (kind, n) in enumerate([("noisy", 12000), ("mutated", 10000), ("mismatch", 5000)]):
        proof.raw_stage(ctx, kind, ctx.scale(n, n * 15), w, 220 + k)


@check("C04", assumptions=RAW, note=RAWNOTE + " Byte damage that would name variables above 2^14 is left out (memory).")
def c04(ctx):
    w = ["checker-crash", "verdict-.*", "hash-bits"]
    for k, (kind, n) in enumerate([("cuts", 10000), ("bytes", 10000), ("noisy", 5000), ("mutated", 5000)]):
        proof.raw_stage(ctx, kind, ctx.scale(n, n * 15), w, 230 + k)


@check("C05", assumptions=RAW, note=RAWNOTE)
def c05(ctx):
    w = ["id-.*", "step-.*", "del-report", "del-wrong-reason", "del-keep"]
    for k, (kind, n) in enumerate([("clean", 8000), ("noisy", 6000), ("honest", 3000), ("mutated", 6000)]):
        proof.raw_stage(ctx, kind, ctx.scale(n, n * 15), w, 240 + k)


@check("C06", assumptions=RAW, note="TLC reads and writes every byte sequence with spec/Codec.tla (own number, step and list "
       "format) and compares with the real writer and with the real reader under 21 buffer/chunk sizes. All powers of two "
       "+-1 of every field; random and damaged sequences.")
def c06(ctx):
    proof.codec_stage(ctx, ctx.scale(6000, 100000), ["codec-.*"], 250)


@check("C07", assumptions=RAW, note=RAWNOTE + " The hints of refused derivations are translated to clauses by the harness; "
       "steps whose hints are ambiguous are not judged.")
def c07(ctx):
    w = ["refused-.*"]
    for k, (kind, n) in enumerate([("honest", 4000), ("clean", 6000), ("noisy", 8000), ("mutated", 6000)]):
        proof.raw_stage(ctx, kind, ctx.scale(n, n * 15), w, 260 + k)


SESS = ["the harness reports calls, results and the steps shown to processors faithfully",
        "TLC evaluates the specification correctly"]
LIVE = ["live-.*", "tie-.*"]


@check("S09", assumptions=SESS, note="Runs over 12 to 45 variables (threshold k-SAT, parity, pigeons) with clause reductions and "
       "restarts as early as after every conflict. Every step of the live derivation is judged with spec/ProofLive.tla, models "
       "against all clauses added, unsatisfiable answers by their derivation.")
def s09(ctx):
    w = LIVE + MODEL + ["model-misses", "core-alien"]
    session.session_stage(ctx, "big", ctx.scale(600, 8000), w, 330, big=True)
    session.session_stage(ctx, "bigmodes", ctx.scale(600, 8000), w, 331, big=True)


@check("P04", assumptions=SESS, note="Every step shown to every attached processor is judged with spec/ProofLive.tla and tied to "
       "the calls and answers with spec/SessionTrace.tla. Sessions are seeded random over up to 8 variables with small limits.")
def p04(ctx):
    w = LIVE + ["crash", "hang", "solve-error"]
    api.random_stage(ctx, "setup", ctx.scale(6000, 80000), w, 309)
    for k, (p, n) in enumerate([("api", 3000), ("modes", 3000), ("recycle", 2500), ("pwide", 1500), ("observe", 2000), ("config", 1500)]):
        session.session_stage(ctx, p, ctx.scale(n, n * 12), w, 300 + k)
    session.session_stage(ctx, "sparse", ctx.scale(400, 5000), w, 308, big=True)


@check("P01", assumptions=SESS + RAW[:1], note="The native proof of every session is given, with the initial formula, to a fresh "
       "checker; it must be accepted and its transcript must be the session. Variables are hidden only after the first solve.")
def p01(ctx):
    w = ["replay-.*", "refused-honest"]
    for k, (p, n) in enumerate([("papi", 4000), ("pmodes", 4000), ("psingle", 4000), ("pwide", 3000)]):
        session.proof_session_stage(ctx, p, ctx.scale(n, n * 12), w, 310 + k)
    session.proof_session_stage(ctx, "big", ctx.scale(500, 6000), w, 321, big=True)
    session.proof_session_stage(ctx, "psparse", ctx.scale(400, 5000), w, 322, big=True)
    proof.raw_stage(ctx, "honest", ctx.scale(2500, 30000), w, 320)


@check("P05", assumptions=SESS, note="Sessions in every format are run once without faults and once with a failing sink (at any byte, "
       "write call or flush, once or for good) and failing processors; spec/ProofIo.tla decides what each call must report. What is "
       "at the sink when a solve answers is also completed by hand and replayed by a fresh checker (spec/ReplayTrace.tla).")
def p05(ctx):
    w = ["io-error-.*", "io-answer-after-error", "io-incomplete", "io-spurious", "replay-.*"]
    session.io_stage(ctx, "small", ctx.scale(16000, 200000), w, 400)
    session.io_stage(ctx, "big", ctx.scale(1500, 15000), w, 401)
    for k, (p, n) in enumerate([("papi", 3000), ("pmodes", 3000), ("pwide", 2000)]):
        session.cut_stage(ctx, p, ctx.scale(n, n * 10), w, 402 + k)


@check("P06", assumptions=SESS, note="As P05; sinks split, delay and interrupt writes. Requests for proofs, checking and processors at "
       "every point of a session and incremental use under DRAT formats are judged with spec/VarisatApi.tla.")
def p06(ctx):
    w = ["io-incomplete", "io-after-close", "io-spurious", "io-crash", "setup-.*", "drat-incremental", "crash", "close-error",
         "replay-.*"]
    session.io_stage(ctx, "small", ctx.scale(16000, 200000), w, 410)
    session.io_stage(ctx, "big", ctx.scale(1500, 15000), w, 411)
    api.random_stage(ctx, "setup", ctx.scale(12000, 150000), w, 412)
    api.random_stage(ctx, "setupone", ctx.scale(12000, 150000), w, 413)
    session.proof_session_stage(ctx, "papi", ctx.scale(3000, 30000), w, 414)
    session.proof_session_stage(ctx, "psingle", ctx.scale(3000, 30000), w, 415)


FILES = ["the harness hands over the recorded files unchanged", "TLC evaluates the specification correctly"]


@check("P02", assumptions=FILES, note="TLC decodes both DRAT files of every run byte by byte and replays them with "
       "spec/ProofFiles.tla: unit propagation for additions, presence for deletions. Runs have up to 14 (small) and 15 to 40 variables.")
def p02(ctx):
    w = ["drat-.*", "crash"]
    files.stage(ctx, "psingle", ctx.scale(12000, 160000), w, 500)
    files.stage(ctx, "bigone", ctx.scale(600, 10000), w, 501)


@check("P03", assumptions=FILES, note="As P02 for the LRAT files written during solving and those made from the stored native proof; "
       "formulas contain duplicated, tautological and contradictory clauses.")
def p03(ctx):
    w = ["lrat-.*", "files-change-answer", "crash"]
    files.stage(ctx, "psingle", ctx.scale(12000, 160000), w, 510)
    files.stage(ctx, "bigone", ctx.scale(600, 10000), w, 511)


DIM = ["the harness hands texts and results over unchanged", "TLC evaluates the specification correctly"]
DNOTE = ("spec/Dimacs.tla reads the text byte by byte; DimacsMC shows that automaton equal to the definition of the format on all "
         "short words. Texts with '-0', or with '+', control or non-ASCII bytes in the header, may be accepted or refused.")


@check("D01", assumptions=DIM, note=DNOTE)
def d01(ctx):
    w = ["dim-.*", "crash"]
    dimacs.mc(ctx, "Alphabet1", ctx.scale(5, 7))
    dimacs.mc(ctx, "Alphabet2", ctx.scale(4, 5))
    dimacs.stage(ctx, "short1", ctx.scale(5, 6), w, 600)
    dimacs.stage(ctx, "short2", ctx.scale(4, 5), w, 601)
    dimacs.stage(ctx, "text", ctx.scale(30000, 600000), w, 602)
    dimacs.stage(ctx, "load", ctx.scale(8000, 120000), w, 603)


@check("D02", assumptions=DIM, note=DNOTE + " Every way of cutting short words, and random cuts with extractions at any of them; "
       "readers that deliver little at a time or fail, callbacks that fail.")
def d02(ctx):
    w = ["chunk-.*", "reader-.*", "crash"]
    dimacs.mc(ctx, "Alphabet1", ctx.scale(5, 7))
    dimacs.stage(ctx, "cuts", ctx.scale(4, 5), w, 610)
    dimacs.stage(ctx, "chunks", ctx.scale(12000, 200000), w, 611)
    dimacs.stage(ctx, "reader", ctx.scale(12000, 200000), w, 612)


@check("D03", assumptions=DIM, note=DNOTE)
def d03(ctx):
    w = ["head-.*", "dim-vars", "chunk-header", "chunk-check", "chunk-counts", "crash"]
    dimacs.mc(ctx, "Alphabet2", ctx.scale(4, 5))
    dimacs.stage(ctx, "head", ctx.scale(3, 4), w, 620)
    dimacs.stage(ctx, "short2", ctx.scale(4, 5), w, 621)
    dimacs.stage(ctx, "text", ctx.scale(40000, 600000), w, 622)
    dimacs.stage(ctx, "load", ctx.scale(5000, 80000), w, 623)
    dimacs.stage(ctx, "chunks", ctx.scale(5000, 80000), w, 624)


@check("D04", assumptions=DIM, note="spec/Formula.tla holds three containers; every operation, and the bytes written, are compared; the "
       "bytes are read by spec/Dimacs.tla and by the real parser.")
def d04(ctx):
    w = ["form-.*", "lit-.*", "crash"]
    dimacs.stage(ctx, "form", ctx.scale(20000, 400000), w, 630)
    dimacs.stage(ctx, "lits", ctx.scale(2000, 20000), w, 631)


CLI = ["runs of the debug build of the program are recorded faithfully (exit status, output, files)",
       "a run with the same input and a target that takes everything writes as much as the run whose target does not would have",
       "TLC evaluates the specification correctly"]


@check("X01", assumptions=CLI)
def x01(ctx):
    cli.solve_stage(ctx, ctx.scale(4000, 60000), ["cli-.*", "drat-.*", "lrat-.*"], 701)


@check("X02", assumptions=CLI)
def x02(ctx):
    cli.check_stage(ctx, ctx.scale(4000, 60000), ["chk-.*", "lrat-.*", "cli-info"], 711)


def replay(path):
    d = json.load(open(path))
    build()
    print("property", d["property"], "rule", d.get("label"))
    if d["kind"] == "api":
        ctx = Ctx(d["property"], "quick", 1)
        api.replay_stage(ctx, "replay", [d["script"]], [".*"])
        shutil.rmtree(ctx.work, ignore_errors=True)
        for lab, rep in ctx.viols:
            print("reproduced:", lab, json.dumps(rep))
        return 1 if ctx.viols else 0
    if d["kind"] in ("raw", "codec"):
        ctx = Ctx(d["property"], "quick", 1)
        proof.replay_case(ctx, d)
        shutil.rmtree(ctx.work, ignore_errors=True)
        for lab, rep in ctx.viols:
            print("reproduced:", lab, json.dumps(rep))
        return 1 if ctx.viols else 0
    if d["kind"] == "dimacs":
        ctx = Ctx(d["property"], "quick", 1)
        dimacs.replay(ctx, d)
        shutil.rmtree(ctx.work, ignore_errors=True)
        for lab, rep in ctx.viols:
            print("reproduced:", lab, json.dumps(rep))
        return 1 if ctx.viols else 0
    if d["kind"] == "cli":
        ctx = Ctx(d["property"], "quick", 1)
        cli.replay(ctx, d)
        shutil.rmtree(ctx.work, ignore_errors=True)
        for lab, rep in ctx.viols:
            print("reproduced:", lab, json.dumps(rep))
        return 1 if ctx.viols else 0
    if d["kind"] == "files":
        ctx = Ctx(d["property"], "quick", 1)
        files.replay(ctx, d)
        shutil.rmtree(ctx.work, ignore_errors=True)
        for lab, rep in ctx.viols:
            print("reproduced:", lab, json.dumps(rep))
        return 1 if ctx.viols else 0
    if d["kind"] in ("sess", "prf", "sess-big", "prf-big", "io", "prfcut"):
        ctx = Ctx(d["property"], "quick", 1)
        session.replay(ctx, d)
        shutil.rmtree(ctx.work, ignore_errors=True)
        for lab, rep in ctx.viols:
            print("reproduced:", lab, json.dumps(rep))
        return 1 if ctx.viols else 0
    print(json.dumps(d, indent=1))
    return 0
