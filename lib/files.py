"""Proof files of single-shot runs (spec/FileTrace.tla)."""
import json, re
from core import *


def _t(s):
    return list(s.encode())


def _r(**k):
    d = {"f0": [[1, 2], [1, -2], [-1, 2], [-1, -2]], "nv": 2, "r": "F", "rs": ["F"] * 4, "sk": "ok",
         "dt": _t("1 0\n0\n"), "db": [97, 2, 0, 97, 0],
         "lt": _t("5 1 0 1 2 0\n6 0 5 3 4 0\n"), "lb": [97, 10, 2, 0, 2, 4, 0, 97, 12, 0, 10, 6, 8, 0],
         "st": _t("5 1 0 1 2 0\n6 0 5 3 4 0\n"), "sb": [97, 10, 2, 0, 2, 4, 0, 97, 12, 0, 10, 6, 8, 0]}
    d.update(k)
    return d


def _d(t, b, **k):
    return _r(dt=_t(t), db=b, **k)


def _l(t, b):
    return _r(lt=_t(t), lb=b, st=_t(t), sb=b)


CANARIES = [
    ("drat-not-implied", _d("1 0\n-2 1 0\n", [97, 2, 0, 97, 5, 2, 0], f0=[[1, 2]], r="T", rs=["T"] * 4)),
    ("drat-not-implied", _d("d 1 2 0\n1 0\n0\n", [100, 2, 4, 0, 97, 2, 0, 97, 0])),
    ("drat-delete-absent", _d("d 1 0\n1 0\n0\n", [100, 2, 0, 97, 2, 0, 97, 0])),
    ("drat-delete-absent", _d("1 0\nd 1 2 0\nd 1 2 0\n", [97, 2, 0, 100, 2, 4, 0, 100, 2, 4, 0])),
    ("drat-no-refutation", _d("", [])),
    ("drat-variable", _d("3 1 2 0\n1 0\n0\n", [97, 6, 2, 4, 0, 97, 2, 0, 97, 0])),
    ("drat-format", _d("1 0\n0", [97, 2, 0, 97, 0])),
    ("drat-format", _d("1 0\n- 0\n", [97, 2, 0, 97, 0])),
    ("drat-format", _d("1 0\n0\n", [97, 2, 0, 97])),
    ("drat-format", _d("1 0\n0\n", [2, 0, 97, 0])),
    ("drat-encodings-differ", _d("1 0\n0\n", [97, 2, 0, 97, 4, 0, 97, 0])),
    ("lrat-id", _l("4 1 0 1 2 0\n6 0 4 3 4 0\n", [97, 8, 2, 0, 2, 4, 0, 97, 12, 0, 8, 6, 8, 0])),
    ("lrat-not-implied", _l("5 1 0 2 1 4 0\n6 0 5 3 4 0\n", [97, 10, 2, 0, 4, 2, 8, 0, 97, 12, 0, 10, 6, 8, 0])),
    ("lrat-not-implied", _l("5 1 0 1 0\n6 0 5 3 4 0\n", [97, 10, 2, 0, 2, 0, 97, 12, 0, 10, 6, 8, 0])),
    ("lrat-hint-absent", _l("4 d 1 0\n5 1 0 1 2 0\n6 0 5 3 4 0\n", [100, 2, 0, 97, 10, 2, 0, 2, 4, 0, 97, 12, 0, 10, 6, 8, 0])),
    ("lrat-delete-absent", _l("4 d 7 0\n5 1 0 1 2 0\n6 0 5 3 4 0\n", [100, 14, 0, 97, 10, 2, 0, 2, 4, 0, 97, 12, 0, 10, 6, 8, 0])),
    ("lrat-no-refutation", _l("5 1 0 1 2 0\n", [97, 10, 2, 0, 2, 4, 0])),
    ("lrat-variable", _l("5 1 3 0 1 2 0\n6 1 0 1 2 0\n7 0 6 3 4 0\n",
                         [97, 10, 2, 6, 0, 2, 4, 0, 97, 12, 2, 0, 2, 4, 0, 97, 14, 0, 12, 6, 8, 0])),
    ("lrat-format", _l("5 1 0 1 2 0\n6 0 5 3 4\n", [97, 10, 2, 0, 2, 4, 0, 97, 12, 0, 10, 6, 8, 0])),
    ("lrat-format", _l("5 1 0 1 2 0\n6 0 5 3 4 0\n", [97, 10, 2, 0, 2, 4, 0, 97, 12, 0, 10, 7, 8, 0])),
    ("lrat-encodings-differ", _r(lb=[97, 10, 2, 0, 2, 4, 0, 97, 12, 0, 10, 8, 6, 0])),
    ("lrat-encodings-differ", _r(sb=[97, 10, 2, 0, 2, 4, 0, 100, 4, 0, 97, 12, 0, 10, 6, 8, 0])),
    ("lrat-stored-differs", _r(st=_t("5 2 0 1 3 0\n6 0 5 2 4 0\n"), sb=[97, 10, 4, 0, 2, 6, 0, 97, 12, 0, 10, 4, 8, 0])),
    ("lrat-stored-refused", _r(sk="fail")),
    ("files-change-answer", _r(rs=["F", "F", "T", "F"])),
]


def _judge(ctx, scripts, ndjson):
    lines = read_lines(ndjson)
    n = len(lines)
    if n != len(scripts):
        raise ToolError("%d scripts but %d histories" % (len(scripts), n))
    fine = {"f0": [[1]], "nv": 1, "r": "T", "rs": ["T"] * 4, "sk": "ok", "dt": [], "db": [], "lt": [], "lb": [], "st": [], "sb": []}
    with open(ndjson, "a") as f:
        for _, d in CANARIES:
            f.write(json.dumps(d) + "\n")
        for d in (fine, _r()):
            f.write(json.dumps(d) + "\n")
    r = tlc(ctx, "FileTrace", trace=ndjson)
    res, seen = [], {}
    for h, i, labs, _ in r.viols:
        if h > n:
            seen[h - n - 1] = labs
        else:
            res.append((scripts[h - 1], labs, json.loads(lines[h - 1])))
    bad = [(c[0], seen.get(k)) for k, c in enumerate(CANARIES) if c[0] not in seen.get(k, [])]
    if bad or len(CANARIES) in seen or len(CANARIES) + 1 in seen:
        raise ToolError("canary files misjudged: %s" % bad)
    ctx.canaries += len(CANARIES)
    ctx.traces += n
    return res, lines


def _report(ctx, res, wanted):
    for script, labs, x in res:
        hit = [l for l in labs if any(re.fullmatch(w, l) for w in wanted)]
        for l in labs:
            if l not in hit:
                ctx.other[l] = ctx.other.get(l, 0) + 1
        if hit:
            ctx.violation(hit[0], {"kind": "files", "script": script, "labels": hit,
                                   "observed": {"answer": x["r"], "others": x["rs"], "stored": x["sk"],
                                                "drat": bytes(x["dt"]).decode(errors="replace")[:600],
                                                "lrat": bytes(x["lt"]).decode(errors="replace")[:600]}})


def stage(ctx, profile, count, wanted, salt):
    out = ctx.path("files-" + profile)
    seed = ctx.seed * 1000003 + salt
    k = 0
    while count > 0:
        n = min(count, 20000 if profile == "psingle" else 1000)
        d = harness(["files", profile, seed + 1000 * k, n, out])
        if d:
            return ctx.violation("crash", {"kind": "process", "how": d, "what": "vh files %s %d %d" % (profile, seed + 1000 * k, n)})
        scripts = read_lines(out + ".scripts")
        res, lines = _judge(ctx, scripts, out + ".ndjson")
        ctx.note("runs_" + profile, ctx.notes.get("runs_" + profile, 0) + n)
        ctx.note("refutations_" + profile, ctx.notes.get("refutations_" + profile, 0) + sum('"r":"F"' in l for l in lines))
        ctx.events += sum(bytes(json.loads(l)["dt"]).count(b"\n") for l in lines)
        ctx.sample(scripts[n // 2][:300])
        _report(ctx, res, wanted)
        count -= n
        k += 1


def replay(ctx, d):
    f, out = ctx.path("r.scripts"), ctx.path("r.ndjson")
    with open(f, "w") as fh:
        fh.write(d["script"] + "\n")
    if not harness(["filesreplay", f, out]):
        _report(ctx, _judge(ctx, [d["script"]], out)[0], [".*"])
