"""Stages for whole sessions with processors (spec/SessionTrace.tla) and with native proofs (spec/ReplayTrace.tla)."""
import json, re
from core import *


def _e(o, r="ok", st=(), **k):
    d = {"o": o, "r": r, "ob": "ok", "hm": 0, "hc": 0, "st": list(st), "by": 0, "er": 0}
    d.update(k)
    return d


def _s(k, **kw):
    return dict({"n": 0, "k": k}, **kw)


def _uv(v, u, mode="s", new=1, um=None):
    return _s("uv", v=v, u=u, mode=mode, new=new, um=u if um is None else um)


def _add(i, c, k="add", **kw):
    return _s(k, id=i, c=c, uc=c, **kw)


def _at(i, c, p, red=0):
    return _s("at", id=i, red=red, c=c, p=p)


_P = _e("processor", f="p")
_V = [_uv(1, 1), _uv(2, 2)]
_A12 = _e("add", cls=[[1, 2]], st=_V + [_add(0, [1, 2])])


def _T(m, *st):
    return _e("solve", "T", hm=1, m=m, st=list(st) + [_s("model", c=m, uc=m)])


# sessions that must be rejected, with the rule that must reject them
SESSION_CANARIES = [
    ("live-at-not-implied", [_P, _A12, _T([1, 2], _at(1, [1], [0]))]),
    ("live-at-not-implied", [_P, _A12, _e("add", cls=[[-1, 2]], st=[_add(1, [-1, 2])]), _T([1, 2], _at(2, [2], [1]))]),
    ("live-id-order", [_P, _A12, _e("add", cls=[[-1, 2]], st=[_add(1, [-1, 2])]), _T([1, 2], _at(1, [2], [0, 1]))]),
    ("live-del-irredundant", [_P, _A12, _T([1, 2], _s("del", id=0, c=[1, 2]))]),
    ("live-absent", [_P, _A12, _T([1, 2], _s("del", id=5, c=[1, 2]))]),
    ("live-other-clause", [_P, _A12, _T([1, 2], _s("del", id=0, c=[1, -2]))]),
    ("live-del-not-subsumed", [_P, _A12, _e("add", cls=[[1, -2]], st=[_add(1, [1, -2])]),
                               _T([1, 2], _s("delat", id=0, keep=0, c=[1, 2], p=[1]))]),
    ("live-rat-visible", [_P, _A12, _T([1, 2], _s("delrat", id=0, keep=0, c=[1, 2], piv=1))]),
    ("live-model-clause", [_P, _A12, _T([-1, -2])]),
    ("live-model-assumption", [_P, _A12, _e("assume", l=[-1], st=[_s("assum", c=[-1], uc=[-1])]), _T([1, 2])]),
    ("live-fail-not-implied", [_P, _A12, _e("assume", l=[-1], st=[_s("assum", c=[-1], uc=[-1])]),
                               _e("solve", "F", hc=1, c=[-1], st=[_s("fail", c=[-1], uc=[-1], p=[0])])]),
    ("live-fail-not-assumed", [_P, _A12, _e("assume", l=[-1], st=[_s("assum", c=[-1], uc=[-1])]),
                               _e("solve", "F", hc=1, c=[-1], st=[_s("fail", c=[-2], uc=[-2], p=[0])])]),
    ("live-var-new", [_P, _e("add", cls=[[1]], st=[_uv(1, 1, new=0), _add(0, [1])])]),
    ("live-var-clash", [_P, _e("add", cls=[[1]], st=[_uv(1, 1), _uv(2, 1), _add(0, [1])])]),
    ("live-var-not-fresh", [_P, _A12, _e("hide", v=1, st=[_s("uv", v=1, u=0, mode="-", new=0, um=1)]),
                            _e("newvar", v=1, st=[_uv(1, 1)])]),
    ("live-not-sampling", [_P, _e("add", cls=[[1]], st=[_uv(1, 1, mode="w"), _add(0, [1])])]),
    ("live-tautology", [_P, _e("add", cls=[[1, -1]], st=[_uv(1, 1), _add(0, [1, -1])])]),
    ("live-added-twice", [_P, _A12, _e("add", cls=[[1, 2]], st=[_add(1, [1, 2])])]),
    ("live-unsorted", [_P, _e("add", cls=[[1, 2]], st=_V + [_add(0, [2, 1])])]),
    ("live-user-lits", [_P, _e("add", cls=[[1, 2]], st=_V + [dict(_add(0, [1, 2]), uc=[1, 0])])]),
    ("tie-processors-differ", [_P, _P, _A12]),
    ("tie-processors-differ", [_P, _P, _e("add", cls=[[1]], st=[_uv(1, 1), dict(_uv(1, 1), n=1), _add(0, [1]),
                                                               dict(_add(0, [-1]), n=1)])]),
    ("tie-processors-differ", [_e("add", cls=[[1]], st=[_uv(1, 1), _add(0, [1])])]),
    ("tie-clause-lost", [_P, _e("add", cls=[[1, 2]], st=_V)]),
    ("tie-clause", [_P, _e("add", cls=[[1, 2]], st=_V + [_add(0, [1, -2])])]),
    ("tie-clause-extra", [_P, _e("add", cls=[[1, 2]], st=_V + [_add(0, [1, 2]), _add(1, [1, -2])])]),
    ("tie-assumptions", [_P, _e("assume", l=[1], st=[_uv(1, 1)])]),
    ("tie-model", [_P, _A12, _e("solve", "T", hm=1, m=[1, 2], st=[])]),
    ("tie-model", [_P, _A12, _e("solve", "T", hm=1, m=[1, 2], st=[_s("model", c=[1, -2], uc=[1, -2])])]),
    ("tie-core", [_P, _A12, _e("assume", l=[-1, -2], st=[_s("assum", c=[-1, -2], uc=[-1, -2])]),
                  _e("solve", "F", hc=1, c=[-1, -2], st=[])]),
    ("tie-unsat", [_P, _e("add", cls=[[1]], st=[_uv(1, 1), _add(0, [1])]),
                   _e("add", cls=[[-1]], hc=1, c=[], st=[_add(1, [-1])]), _e("solve", "F", hc=1, c=[], st=[])]),
    ("tie-unsat-unknown", [_P, _e("add", cls=[[1]], st=[_uv(1, 1), _add(0, [1])]),
                           _e("add", cls=[[-1]], st=[_add(1, [-1]), _at(2, [], [0, 1])])]),
    ("tie-var-mode", [_P, _e("newvar", v=1, st=[_uv(1, 1, mode="w")])]),
    ("tie-var-alien", [_P, _e("newvar", v=1, st=[_uv(1, 1), _uv(2, 2)])]),
    ("model-false", [_P, _A12, _T([-1, -2])]),
    ("crash", [_P, _e("add", "panic:selfcheck", cls=[[1]])]),
]


def _x(ev, tr, f0=(), vk="ok"):
    return {"ev": ev, "f0": [list(c) for c in f0], "vk": vk, "vs": 0, "msg": "", "tr": tr}


def _t(k, c=(), v=0):
    return {"k": k, "v": v, "c": list(c)}


_R0 = [_e("add", cls=[[1, 2]]), _e("solve", "T", hm=1, m=[1, 2])]
_R1 = _R0 + [_e("add", cls=[[-1]]), _e("assume", l=[-2]), _e("solve", "F", hc=1, c=[-2])]
_T1 = [_t("add", [1, 2]), _t("model", [1, 2]), _t("add", [-1]), _t("assume", [-2]), _t("fail", [-2])]
_RU = [_e("add", cls=[[1]]), _e("add", cls=[[-1]], hc=1, c=[]), _e("solve", "F", hc=1, c=[])]
REPLAY_CANARIES = [
    ("replay-refused", _x(_R1, _T1, [[1, 2]], "fail")),
    ("replay-formula", _x(_R1, [_t("add", [1, -2])] + _T1[1:], [[1, 2]])),
    ("replay-model", _x(_R1, [_T1[0]] + _T1[2:], [[1, 2]])),
    ("replay-model", _x(_R1, [_T1[0], _t("model", [1, -2])] + _T1[2:], [[1, 2]])),
    ("replay-clause", _x(_R1, _T1[:2] + _T1[3:], [[1, 2]])),
    ("replay-assumptions", _x(_R1, _T1[:3] + _T1[4:], [[1, 2]])),
    ("replay-core", _x(_R1, _T1[:4], [[1, 2]])),
    ("replay-core", _x(_R1, _T1[:4] + [_t("fail", [])], [[1, 2]])),
    ("replay-extra", _x(_R1, _T1 + [_t("model", [1, 2])], [[1, 2]])),
    ("replay-extra", _x(_R1, _T1 + [_t("add", [1])], [[1, 2]])),
    ("replay-unsat-alien", _x(_R1, _T1 + [_t("unsat")], [[1, 2]])),
    ("replay-unsat-lost", _x(_RU, [_t("add", [1]), _t("add", [-1])], [[1], [-1]])),
    ("replay-unsat-twice", _x(_RU, [_t("add", [1]), _t("add", [-1]), _t("unsat"), _t("unsat")], [[1], [-1]])),
    ("replay-witness", _x(_R0 + [_e("witness", v=1, r="ok", hm=1, m=[1, 2])], [_T1[0], _T1[1]], [[1, 2]])),
    ("replay-hide", _x(_R0 + [_e("hide", v=1, r="ok", hm=1, m=[2])], [_T1[0], _T1[1], _t("hide", v=2)], [[1, 2]])),
]


def _io(o, r="ok", b="", er=0, pf=0):
    return {"o": o, "r": r, "b": b, "er": er, "pf": pf}


_IR = [_io("proof"), _io("add"), _io("solve", "T", "0102"), _io("solve", "T"), _io("close", b="03"), _io("solve", "T"), _io("drop")]


def _ic(ev, ref=_IR, det=1):
    return {"det": det, "ref": ref, "ev": ev}


IO_CANARIES = [
    ("io-error-lost", _ic([_io("proof"), _io("add"), _io("solve", "T", "01", er=1)])),
    ("io-error-lost", _ic([_io("proof"), _io("add"), _io("solve", "T", "0102", pf=1)])),
    ("io-error-lost", _ic(_IR[:4] + [_io("close", er=1)])),
    ("io-error-kind", _ic([_io("proof"), _io("add"), _io("solve", "err:proc", "01", er=1)])),
    ("io-answer-after-error", _ic([_io("proof"), _io("add"), _io("solve", "err:io", "01", er=1), _io("solve", "T", er=1)])),
    ("io-incomplete", _ic([_io("proof"), _io("add"), _io("solve", "T", "01")])),
    ("io-incomplete", _ic([_io("proof"), _io("add"), _io("solve", "T", "0103")])),
    ("io-incomplete", _ic(_IR[:4] + [_io("close", b="")])),
    ("io-incomplete", _ic(_IR[:4] + [_io("drop", b="")], _IR[:4] + [_io("drop", b="03")])),
    ("io-after-close", _ic(_IR[:5] + [_io("solve", "T", "04")])),
    ("io-spurious", _ic([_io("proof"), _io("add"), _io("solve", "err:io", "0102")])),
    ("io-spurious", _ic(_IR[:4] + [_io("close", "err:io", b="03")])),
    ("io-crash", _ic(_IR[:4] + [_io("drop", "panic:other", b="03")])),
]


def _judge(ctx, module, scripts, ndjson, canaries, big=False):
    lines = read_lines(ndjson)
    n = len(lines)
    if n != len(scripts):
        raise ToolError("%d scripts but %d histories" % (len(scripts), n))
    with open(ndjson, "a") as f:
        for _, d in canaries:
            f.write(json.dumps(d if isinstance(d, dict) else {"id": 0, "ev": d}) + "\n")
    r = tlc(ctx, module, trace=ndjson, extra_env={"BIG": "1"} if big else None)
    res, seen = [], {}
    for h, i, labs, _ in r.viols:
        if h > n:
            seen[h - n - 1] = labs
        else:
            x = json.loads(lines[h - 1])
            x["at"] = {"event": i, "of": len(x["ev"])}
            res.append((scripts[h - 1], i, labs, x))
    bad = [(c[0], seen.get(k)) for k, c in enumerate(canaries) if c[0] not in seen.get(k, [])]
    if bad:
        raise ToolError("canary sessions accepted: %s" % bad)
    ctx.canaries += len(canaries)
    ctx.traces += n
    ctx.events += sum(l.count('"o":"') for l in lines)
    return res


def io_stage(ctx, size, count, wanted, salt):
    """sessions with failing sinks and processors against spec/ProofIo.tla"""
    _stage(ctx, "io", "IoTrace", IO_CANARIES, size, count, wanted, salt)


def cut_stage(ctx, profile, count, wanted, salt):
    """the bytes at the sink right after an answer, closed by hand, must be the proof of everything so far"""
    _stage(ctx, "prfcut", "ReplayTrace", REPLAY_CANARIES, profile, count, wanted, salt)


def _report(ctx, kind, res, wanted, pre):
    for script, i, labs, x in res:
        hit = [l for l in labs if any(re.fullmatch(w, l) for w in wanted)]
        for l in labs:
            if l not in hit:
                ctx.other[l] = ctx.other.get(l, 0) + 1
        if hit:
            ctx.violation(hit[0], {"kind": kind, "script": script, "event": i, "labels": hit,
                                   "observed": {"event": x["ev"][i - 1] if 0 < i <= len(x["ev"]) else None,
                                                "verdict": x.get("vk"), "step": x.get("vs"), "msg": x.get("msg")}})


def _died(ctx, how, what):
    if ctx.prop in ("P01", "P04", "P05", "P06", "S03") or not how.startswith("timeout"):
        ctx.violation("crash", {"kind": "process", "how": how, "what": what})
    else:
        raise ToolError("harness died (%s) on %s" % (how, what))


def _stage(ctx, cmd, module, canaries, profile, count, wanted, salt, big=False):
    out = ctx.path("%s-%s" % (cmd, profile))
    seed = ctx.seed * 1000003 + salt
    d = harness([cmd, profile, seed, count, out])
    if d:
        return _died(ctx, d, "vh %s %s %d %d" % (cmd, profile, seed, count))
    scripts = read_lines(out + ".scripts")
    res = _judge(ctx, module, scripts, out + ".ndjson", canaries, big)
    k = "%s_%s" % ({"sess": "sessions", "prf": "proof_sessions", "io": "faulted_sessions"}.get(cmd, "cut_sessions"), profile)
    ctx.note(k, ctx.notes.get(k, 0) + len(scripts))
    if big:
        steps = sum(l.count('"k":"at"') for l in read_lines(out + ".ndjson"))
        ctx.note("derived_clauses", ctx.notes.get("derived_clauses", 0) + steps)
    ctx.sample(scripts[len(scripts) // 2][:300])
    _report(ctx, cmd + ("-big" if big else ""), res, wanted, None)


BATCH = 1000    # big sessions per TLC run


def _batches(f, count, salt, big):
    k = 0
    while count > 0:
        f(min(count, BATCH) if big else count, salt + 1000 * k)
        count -= BATCH if big else count
        k += 1


def session_stage(ctx, profile, count, wanted, salt, big=False):
    _batches(lambda n, s: _stage(ctx, "sess", "SessionTrace", SESSION_CANARIES, profile, n, wanted, s, big), count, salt, big)


def proof_session_stage(ctx, profile, count, wanted, salt, big=False):
    _batches(lambda n, s: _stage(ctx, "prf", "ReplayTrace", REPLAY_CANARIES, profile, n, wanted, s, big), count, salt, big)


def replay(ctx, d):
    f, out = ctx.path("r.scripts"), ctx.path("r.ndjson")
    with open(f, "w") as fh:
        fh.write(d["script"] + "\n")
    big = d["kind"].endswith("-big")
    if d["kind"].startswith("sess"):
        how, mod, can = harness(["replay", f, out, "full"]), "SessionTrace", SESSION_CANARIES
    elif d["kind"] == "io":
        how, mod, can = harness(["ioreplay", f, out]), "IoTrace", IO_CANARIES
    elif d["kind"] == "prfcut":
        how, mod, can = harness(["prfcutreplay", f, out]), "ReplayTrace", REPLAY_CANARIES
    else:
        how, mod, can = harness(["prfreplay", f, out]), "ReplayTrace", REPLAY_CANARIES
    if how:
        return _died(ctx, how, d["script"])
    _report(ctx, d["kind"], _judge(ctx, mod, [d["script"]], out, can, big), [".*"], None)
