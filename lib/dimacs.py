"""DIMACS texts, formula containers and literals (spec/Dimacs.tla, spec/DimacsTrace.tla)."""
import json, re
from core import *


def _b(s):
    return list(s.encode("latin1"))


def _w(s, **k):
    d = {"y": "w", "b": _b(s), "r": "ok", "ln": 0, "f": [[1]], "n": 1}
    d.update(k)
    return d


def _k(s, ev, **k):
    w = _w(s, **k)
    return {"y": "k", "b": _b(s), "w": {x: w[x] for x in ("r", "ln", "f", "n")}, "ev": ev}


def _stat(n, k, hs=False, hn=0, hk=""):
    return {"o": "stat", "n": n, "k": k, "hs": hs, "hn": hn, "hk": _b(hk)}


def _l(l, **k):
    a, i, s = abs(l), abs(l) - 1, 1 if l < 0 else 0
    d = {"l": l, "m": 1, "to": 5, "dimacs": l, "text": l, "debug": l, "index": i, "var": a, "vindex": i, "code": 2 * i + s,
         "fromcode": l, "fromindex": l, "neg": l < 0, "pos": l > 0, "no": -l, "nono": l, "xt": -l, "xf": l, "vpos": a, "vneg": -a,
         "vlit": [a, -a], "fromvar": a, "map": 5 if l > 0 else -5, "eq": l == 1, "lt": False, "hash": l == 1,
         "max": 268435456, "maxvar": 268435456}
    d.update(k)
    return {"y": "l", "ev": [d]}


def _c(*ev):
    return {"y": "c", "ev": list(ev)}


_ok = lambda t: {"o": "chunk", "t": t, "r": "ok", "ln": 0}
_ADD = {"o": "add", "a": 1, "c": [2, -1]}
_R = {"y": "i", "w": {"r": "ok", "ln": 0, "f": [[1]], "n": 1}, "b": _b("1 0"), "bad": -1, "cb": 0, "r": "ok", "f": [[1]], "n": 1}
_S = {"y": "s", "b": _b("1 0"), "r": "ok", "sat": "T", "mv": [1]}

# (label that must be reported or None, case)
CANARIES = [
    (None, _w("1 0\n")), (None, _w("c 1\n1\n0")), (None, _w("p cnf 3 1\n1 0", n=3)), (None, _w("1 -0", r="char")),
    (None, _w("1 x", r="char", ln=1)), (None, _w("p cnf +1 1\n1 0", r="header")),
    ("dim-refused", _w("01\r 0", r="char", ln=1)), ("dim-refused", _w("268435456 0", r="big", ln=1)),
    ("dim-accepted", _w("268435457 0", f=[[268435457]], n=268435457)), ("dim-accepted", _w("1 0 -", f=[[1]])),
    ("dim-accepted", _w("1 0 2", f=[[1]])), ("dim-clauses", _w("1 -2 0", f=[[-2, 1]], n=2)), ("dim-clauses", _w("1 0 0")),
    ("dim-clauses", _w("c\n1 2 0\n", f=[[12]], n=12)), ("dim-vars", _w("p cnf 3 1\n1 0")), ("dim-line", _w("1 0\nx", r="char", ln=1)),
    ("head-accepted", _w("p cnf 1 2\n1 0")), ("head-accepted", _w("p cnf 1 1\n2 0", f=[[2]], n=2)), ("head-accepted", _w("p cnf 1 x\n1 0")),
    ("head-accepted", _w("p cnf 1 4294967297\n1 0")), ("head-refused", _w("p cnf 2 1 \n1 0", r="vars")),
    ("head-refused", _w("p  cnf 1 01\n1 0", r="clauses")),
    (None, _k("1 0 2", [_ok(2), _stat(0, 0), _ok(4), {"o": "take", "f": [[1]], "n": 1}, _ok(5), {"o": "eof", "r": "open", "ln": 1}], r="open", ln=1)),
    (None, _k("p cnf 3 1\n1 0", [_ok(3), _ok(11), _stat(3, 0, True, 3, "1"), _ok(13), {"o": "eof", "r": "ok", "ln": 0},
                                 {"o": "take", "f": [[1]], "n": 3}, {"o": "check", "r": "ok"}], n=3)),
    ("chunk-clauses", _k("12 0 ", [_ok(1), _ok(5), {"o": "take", "f": [[2]], "n": 2}], f=[[12]], n=12)),
    ("chunk-clauses", _k("1 0 2 0 ", [_ok(4), {"o": "take", "f": [[1]], "n": 1}, _ok(8), {"o": "take", "f": [[1], [2]], "n": 2}], f=[[1], [2]], n=2)),
    ("chunk-counts", _k("1 0 2 0 ", [_ok(4), {"o": "take", "f": [[1]], "n": 1}, _ok(8), _stat(2, 1)], f=[[1], [2]], n=2)),
    ("chunk-counts", _k("2 0 1 0 ", [_ok(4), {"o": "take", "f": [[2]], "n": 2}, _ok(8), {"o": "take", "f": [[1]], "n": 1}], f=[[2], [1]], n=2)),
    ("chunk-accept", _k("1 0", [{"o": "chunk", "t": 2, "r": "char", "ln": 1}])),
    ("chunk-accept", _k("1 0", [_ok(3), {"o": "eof", "r": "open", "ln": 1}])),
    ("chunk-line", _k("\n1x 0", [_ok(2), {"o": "chunk", "t": 4, "r": "char", "ln": 1}], r="char", ln=2)),
    ("chunk-header", _k("p cnf 3 1\n1 0", [_ok(13), _stat(3, 0, True, 1, "1")], n=3)),
    ("chunk-check", _k("p cnf 3 2\n1 0", [_ok(13), {"o": "eof", "r": "ok", "ln": 0}, {"o": "check", "r": "ok"}], r="clauses", n=3)),
    ("chunk-after-error", _k("x1 0", [{"o": "chunk", "t": 1, "r": "char", "ln": 1}, _ok(4)], r="char", ln=1)),
    (None, _R), ("reader-error-lost", dict(_R, bad=2)), ("reader-error-lost", dict(_R, cb=1)), ("reader-accept", dict(_R, r="other")),
    ("reader-clauses", dict(_R, f=[])), ("reader-clauses", dict(_R, n=2)),
    (None, _S), (None, {"y": "h", "b": _b("1 2"), "r": "open"}), ("dim-load", {"y": "h", "b": _b("1 2"), "r": "ok"}),
    ("head-load", dict(_S, b=_b("p cnf 1 2\n1 0"))), ("dim-load-answer", dict(_S, b=_b("1 0 -1 0"))), ("dim-load-model", dict(_S, mv=[-1])),
    ("dim-load-model", dict(_S, mv=[1, 2])),
    (None, _c(_ADD, {"o": "nv", "a": 1, "c": [3]}, {"o": "clone", "a": 1, "z": 2}, {"o": "eq", "a": 1, "z": 2, "r": True},
              {"o": "write", "a": 1, "b": _b("p cnf 3 1\n2 -1 0\n"), "hd": True, "same": True}, {"o": "body", "a": 1, "b": _b("2 -1 0\n")})),
    ("form-new-var", _c(_ADD, {"o": "nv", "a": 1, "c": [2]})), ("form-clauses", _c(_ADD, {"o": "dump", "a": 1, "f": [[-1, 2]], "len": 1, "em": False})),
    ("form-clauses", _c(_ADD, {"o": "dump", "a": 1, "f": [[2, -1]], "len": 1, "em": True})), ("form-vars", _c(_ADD, {"o": "count", "a": 1, "n": 1})),
    ("form-vars", _c({"o": "svc", "a": 1, "n": 4}, {"o": "svc", "a": 1, "n": 2}, {"o": "count", "a": 1, "n": 2})),
    ("form-equality", _c({"o": "svc", "a": 1, "n": 4}, {"o": "eq", "a": 1, "z": 2, "r": True})),
    ("form-equality", _c(_ADD, {"o": "add", "a": 2, "c": [-1, 2]}, {"o": "eq", "a": 1, "z": 2, "r": True})),
    ("form-vars", _c({"o": "svc", "a": 1, "n": 4}, {"o": "from", "a": 1, "z": 1}, {"o": "count", "a": 1, "n": 4})),
    ("form-written", _c(_ADD, {"o": "write", "a": 1, "b": _b("p cnf 2 1\n-1 2 0\n"), "hd": True, "same": True})),
    ("form-written", _c(_ADD, {"o": "body", "a": 1, "b": _b("2 -1\n")})),
    ("form-written-vars", _c(_ADD, {"o": "write", "a": 1, "b": _b("p cnf 3 1\n2 -1 0\n"), "hd": True, "same": True})),
    ("form-written-header", _c(_ADD, {"o": "write", "a": 1, "b": _b("2 -1 0\n"), "hd": True, "same": True})),
    ("form-read-back", _c(_ADD, {"o": "write", "a": 1, "b": _b("p cnf 2 1\n2 -1 0\n"), "hd": True, "same": False})),
    (None, _l(1)), (None, _l(-268435456)), ("lit-dimacs", _l(3, text=-3)), ("lit-index", _l(3, vindex=3)), ("lit-code", _l(-3, code=4)),
    ("lit-code", _l(-3, fromcode=3)), ("lit-sign", _l(-3, neg=False)), ("lit-negation", _l(-3, xt=-3)), ("lit-of-var", _l(-3, vneg=3)),
    ("lit-map", _l(-3, map=5)), ("lit-order", _l(3, eq=True)), ("lit-order", _l(1, hash=False)), ("lit-max", _l(1, max=268435455)),
    ("dim-crash", {"y": "crash"}),
]


def _judge(ctx, cases, ndjson):
    lines = read_lines(ndjson)
    n = len(lines)
    if n != len(cases):
        raise ToolError("%d cases but %d results" % (len(cases), n))
    with open(ndjson, "a") as f:
        for _, d in CANARIES:
            f.write(json.dumps(d) + "\n")
    r = tlc(ctx, "DimacsTrace", trace=ndjson)
    res, seen = [], {}
    for h, i, labs, _ in r.viols:
        if h > n:
            seen[h - n - 1] = labs
        else:
            res.append((cases[h - 1], labs, json.loads(lines[h - 1])))
    bad = [(c[0], seen.get(k)) for k, c in enumerate(CANARIES)
           if (k in seen if c[0] is None else c[0] not in seen.get(k, []))]
    if bad:
        raise ToolError("canary cases misjudged: %s" % bad)
    ctx.canaries += sum(c[0] is not None for c in CANARIES)
    ctx.traces += n
    return res


def _report(ctx, res, wanted):
    for case, labs, x in res:
        hit = [l for l in labs if any(re.fullmatch(w, l) for w in wanted)]
        for l in labs:
            if l not in hit:
                ctx.other[l] = ctx.other.get(l, 0) + 1
        if hit:
            x.pop("b", None)
            text = bytes.fromhex(case.split(" ")[1].split("|")[0]).decode("latin1") if case[0] in "wkish" else case
            ctx.violation(hit[0], {"kind": "dimacs", "case": case, "labels": hit, "text": text[:400],
                                   "observed": json.dumps(x)[:600]})


def stage(ctx, kind, count, wanted, salt):
    out = ctx.path("dimacs-" + kind)
    seed = ctx.seed * 1000003 + salt
    rnd = not (kind.startswith("short") or kind in ("cuts", "head"))
    done, k = 0, 0
    while done < count:
        n = min(count - done, 40000) if rnd else count
        d = harness(["dimacs", kind, seed + 1000 * k, n, out])
        if d:
            return ctx.violation("crash", {"kind": "process", "how": d, "what": "vh dimacs %s %d %d" % (kind, seed + 1000 * k, n)})
        cases = read_lines(out + ".cases")
        ctx.note("cases_" + kind, ctx.notes.get("cases_" + kind, 0) + len(cases))
        ctx.events += sum(len(c) // 2 for c in cases)
        ctx.sample(cases[len(cases) // 2][:200])
        _report(ctx, _judge(ctx, cases, out + ".ndjson"), wanted)
        done += n
        k += 1


def mc(ctx, alphabet, length):
    """the automaton against the definition of the language"""
    r = tlc(ctx, "DimacsMC", dfs=False, consts={"MaxLen": length},
            cfg=open(os.path.join(SPEC, "DimacsMC.cfg")).read().replace("Alphabet1", alphabet))
    ctx.note("automaton_vs_language_" + alphabet, {"pieces": length, "states": r.distinct})


def replay(ctx, d):
    f, out = ctx.path("r.cases"), ctx.path("r.ndjson")
    with open(f, "w") as fh:
        fh.write(d["case"] + "\n")
    if not harness(["dimacsreplay", f, out]):
        _report(ctx, _judge(ctx, [d["case"]], out), [".*"])
