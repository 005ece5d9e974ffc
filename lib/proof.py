"""Stages deciding the checker and encoding properties (C*) with spec/RawTrace.tla and spec/CodecTrace.tla."""
import json, re
from core import *

END = 0x9ac3391f4294c211


def num(v):
    """the encoding of one number (used for canaries only)"""
    n = v.bit_length()
    l = 1 if n <= 7 else (n + 6) // 7
    if l >= 10:
        l = 10
    x = (v << l) | (1 << (l - 1))
    return list((x & ((1 << (8 * l)) - 1)).to_bytes(l, "little")) if l < 10 else \
        list(((v << 10) | (1 << 9)).to_bytes(10, "little"))


def code(l):
    return 2 * (abs(l) - 1) + (1 if l < 0 else 0)


def lits(c):
    return num(len(c)) + [b for l in c for b in num(code(l))]


def st(k, c=(), v=0, h=()):
    r = num(k)
    if k in (1, 3, 4, 5, 6):
        return r + num(v - 1)
    if k in (0, 2):
        return r + num(v - 1) + num(h - 1)
    if k == 13:
        return r + num(v)
    r += lits(c)
    if k in (7, 8, 17):
        r += num(len(h)) + [b for x in h for b in num(x)]
    return r


SVN, UVN, UNHIDE, DV, SAMPLE, WITNESS, ATR, AT, DELR, DELS, DELU, HB, MODEL, ADDC, ASSUM, FAIL = \
    0, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 13, 14, 15, 16, 17
FIN = num(END)


def _c(k, c, i, **kw):
    return {"k": k, "c": c, "id": i, "p": kw.get("p", []), "red": kw.get("red", 0), "same": kw.get("same", -9),
            "keep": kw.get("keep", 0), "v": 0, "u": 0}


def _t(k, c=()):
    return {"k": k, "c": list(c), "v": 0}


def _case(f0, by, chk, tr, vk="ok", vs=0, **kw):
    d = {"f0": f0, "by": by, "rf": 0, "vk": vk, "vs": vs, "plain": vk, "msg": "", "chk": chk, "tr": tr, "must": 0,
         "hk": 0, "hh": []}
    d.update(kw)
    return d


_A = [_c("add", [1, 2], 0), _c("add", [1, -2], 1)]
_TA = [_t("add", [1, 2]), _t("add", [1, -2])]
_F = [[1, 2], [1, -2]]
RAW_CANARIES = [
    ("at-not-implied", _case(_F, st(AT, [2]) + FIN, _A + [_c("at", [2], 2, p=[0])], _TA)),
    ("at-not-implied", _case(_F, st(AT, [1]) + FIN, _A + [_c("at", [1], 2, p=[0])], _TA)),
    ("id-not-increasing", _case(_F, st(AT, [1]) + FIN, _A + [_c("at", [1], 1, p=[0, 1])], _TA)),
    ("del-not-satisfied", _case(_F, st(DELU, [1, 2]) + FIN, _A + [_c("delat", [1, 2], 0, p=[1], keep=0)], _TA)),
    ("del-irredundant", _case(_F, st(DELR, [1, 2]) + FIN, _A + [_c("del", [1, 2], 0)], _TA)),
    ("model-clause", _case(_F, st(MODEL, [-1, 2]) + FIN, _A + [_c("model", [-1, 2], -9)], _TA + [_t("model", [-1, 2])])),
    ("model-assumption", _case(_F, st(ASSUM, [-2]) + st(MODEL, [1, 2]) + FIN,
                               _A + [_c("assum", [-2], -9), _c("model", [1, 2], -9)],
                               _TA + [_t("assume", [-2]), _t("model", [1, 2])])),
    ("fail-not-implied", _case(_F, st(ASSUM, [-2]) + st(FAIL, [-2]) + FIN,
                               _A + [_c("assum", [-2], -9), _c("fail", [-2], -9, p=[0])],
                               _TA + [_t("assume", [-2]), _t("fail", [-2])])),
    ("verdict-incomplete-accepted", _case(_F, st(AT, [1]), _A + [_c("at", [1], 2, p=[0, 1])], _TA)),
    ("verdict-bad-accepted", _case(_F, num(99), _A, _TA)),
    ("verdict-complete-refused", _case(_F, FIN, _A, _TA, vk="fail", vs=9)),
    ("checker-crash", _case(_F, FIN, _A, _TA, vk="panic")),
    ("dv-visible", _case([], st(DV, v=1) + FIN, [], [])),
    ("step-extra", _case(_F, FIN, _A + [_c("at", [1], 2, p=[0, 1])], _TA)),
    ("tr-missing-model", _case(_F, st(MODEL, [1, 2]) + FIN, _A + [_c("model", [1, 2], -9)], _TA)),
    ("step-missing-add", _case(_F, FIN, [_A[0]], [_TA[0]])),
    ("id-not-input-order", _case(_F, FIN, [_c("add", [1, 2], 0), _c("add", [1, -2], 2)], _TA)),
    ("refused-legal-model", _case(_F, st(MODEL, [1, 2]) + FIN, _A, _TA, vk="fail", vs=1, hk=1)),
    ("refused-legal-at", _case(_F, st(AT, [1], h=[7, 8]) + FIN, _A, _TA, vk="fail", vs=1, hk=1, hh=[[2, 1], [-2, 1]])),
    ("refused-honest", _case(_F, FIN, _A, _TA, vk="fail", vs=1, must=1)),
]


def _f(k, c=(), v=0, u=0, f=0, h=()):
    return {"k": k, "c": list(c), "v": v, "u": u, "f": f, "h": [list(x) for x in h]}


_END = _f("end")
CODEC_CANARIES = [
    ("codec-read", {"by": st(ADDC, [1, -2]) + FIN, "given": 0, "wr": [],
                    "runs": [{"st": "end", "steps": [_f("addc", [1, 2]), _END]}]}),
    ("codec-lost", {"by": st(ADDC, [1, -2]) + FIN, "given": 0, "wr": [], "runs": [{"st": "eof", "steps": []}]}),
    ("codec-end", {"by": st(ADDC, [1, -2])[:-1], "given": 0, "wr": [], "runs": [{"st": "bad", "steps": []}]}),
    ("codec-extra", {"by": [], "given": 0, "wr": [], "runs": [{"st": "eof", "steps": [_END]}]}),
    ("codec-write", {"by": st(ADDC, [1, -2]) + FIN, "given": 1, "wr": [_f("addc", [1]), _END],
                     "runs": [{"st": "end", "steps": [_f("addc", [1, -2]), _END]}]}),
    ("codec-format", {"by": num(ADDC) + [2, 0] + FIN, "given": 1,
                      "wr": [_f("addc", []), _END], "runs": [{"st": "eof", "steps": [_f("addc", []), _END]}]}),
]


def _validate(ctx, module, cases, ndjson, canaries):
    lines = read_lines(ndjson)
    n = len(lines)
    if n != len(cases):
        raise ToolError("%d cases but %d results" % (len(cases), n))
    with open(ndjson, "a") as f:
        for _, d in canaries:
            f.write(json.dumps(d) + "\n")
    r = tlc(ctx, module, trace=ndjson)
    res, seen = [], set()
    for h, i, labs, _ in r.viols:
        if h > n:
            if canaries[h - n - 1][0] in labs:
                seen.add(h)
        else:
            res.append((cases[h - 1], i, labs, json.loads(lines[h - 1])))
    if len(seen) != len(canaries):
        raise ToolError("canaries accepted: %s" % [c[0] for k, c in enumerate(canaries) if n + 1 + k not in seen])
    ctx.canaries += len(seen)
    ctx.traces += n
    ctx.events += r.distinct
    return res


def _report(ctx, kind, res, wanted):
    for case, i, labs, rec in res:
        hit = [l for l in labs if any(re.fullmatch(w, l) for w in wanted)]
        for l in labs:
            if l not in hit:
                ctx.other[l] = ctx.other.get(l, 0) + 1
        if hit:
            ctx.violation(hit[0], {"kind": kind, "case": case, "labels": hit, "item": i,
                                   "observed": {k: rec.get(k) for k in ("vk", "vs", "msg") if k in rec}})


def _run(ctx, args, what):
    d = harness(args)
    if d:
        # the checker or decoder must never bring the process down
        if ctx.prop in ("C04", "C06") or not d.startswith("timeout"):
            ctx.violation("checker-crash", {"kind": "process", "how": d, "what": what})
            return False
        raise ToolError("harness died (%s) on %s" % (d, what))
    return True


def raw_stage(ctx, kind, count, wanted, salt):
    out = ctx.path("raw-" + kind)
    seed = ctx.seed * 1000003 + salt
    if not _run(ctx, ["raw", kind, seed, count, out], "vh raw %s %d %d" % (kind, seed, count)):
        return
    cases = read_lines(out + ".cases")
    res = _validate(ctx, "RawTrace", cases, out + ".ndjson", RAW_CANARIES)
    ctx.note("proofs_" + kind, len(cases))
    ctx.sample(cases[len(cases) // 2][:300])
    _report(ctx, "raw", res, wanted)


def codec_stage(ctx, count, wanted, salt):
    out = ctx.path("codec")
    seed = ctx.seed * 1000003 + salt
    if not _run(ctx, ["codec", seed, count, out], "vh codec %d %d" % (seed, count)):
        return
    cases = read_lines(out + ".cases")
    res = _validate(ctx, "CodecTrace", cases, out + ".ndjson", CODEC_CANARIES)
    ctx.note("codec_cases", len(cases))
    ctx.sample(cases[len(cases) // 2][:300])
    _report(ctx, "codec", res, wanted)


def replay_case(ctx, d):
    f, out = ctx.path("r.cases"), ctx.path("r.ndjson")
    with open(f, "w") as fh:
        fh.write(d["case"] + "\n")
    if d["kind"] == "raw":
        if _run(ctx, ["rawreplay", f, out], d["case"]):
            _report(ctx, "raw", _validate(ctx, "RawTrace", [d["case"]], out, RAW_CANARIES), [".*"])
    else:
        if _run(ctx, ["codecreplay", f, out], d["case"]):
            _report(ctx, "codec", _validate(ctx, "CodecTrace", [d["case"]], out, CODEC_CANARIES), [".*"])


def mc_stage(ctx, which, depth):
    """exhaustive check that what the rules of ProofRaw accept is sound"""
    r = tlc(ctx, "RawMC", cfg=which + ".cfg", dfs=False, consts={"Depth": depth})
    ctx.note("spec_exhaustive_" + which, "%s Depth=%d: %d distinct states, %d transitions" % (which, depth, r.distinct, r.states))
