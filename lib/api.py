"""Stages deciding the solver-interface properties (S*, V*) with spec/VarisatApi.tla."""
import json, random, re
from core import *

# Histories that the specification must reject: a trace check that accepts one of them is broken.
def _e(o, r="ok", **k):
    d = {"o": o, "r": r, "ob": "ok", "hm": 0, "hc": 0}
    d.update(k)
    return d

CANARIES = [
    ("model-false", [_e("add", cls=[[1, 2]]), _e("solve", "T", hm=1, m=[-1, -2])]),
    ("model-assumption", [_e("assume", l=[1]), _e("solve", "T", hm=1, m=[-1])]),
    ("model-misses", [_e("add", cls=[[2]]), _e("solve", "T", hm=1, m=[2])]),
    ("unsat-wrong", [_e("add", cls=[[1, 2]]), _e("solve", "F", hc=1, c=[])]),
    ("sat-wrong", [_e("add", cls=[[1]]), _e("add", cls=[[-1]], hc=1, c=[]), _e("solve", "T", hm=1, m=[1])]),
    ("core-weak", [_e("add", cls=[[-1, -2]]), _e("assume", l=[1, 2]), _e("solve", "F", hc=1, c=[1])]),
    ("core-alien", [_e("add", cls=[[-1]]), _e("assume", l=[1, 2]), _e("solve", "F", hc=1, c=[3])]),
    ("answer-S-for-S", [_e("add", cls=[[1]]), _e("solve", "T", hm=1, m=[1]), _e("add", cls=[[2]], hm=1, m=[1])]),
    ("witness-constrained", [_e("witness", v=1), _e("add", cls=[[1]])]),
    ("mode-allowed", [_e("assume", l=[1]), _e("witness", v=1)]),
    ("newvar-visible", [_e("newvar", v=1), _e("newvar", v=1)]),
    ("observe-many", [_e("observe", l=[1])]),
    ("config-values", [_e("config", l=[-1, 100, -1, -1, -1], r="err", cfg=[950, 100, 15000, 10000, 128])]),
    ("crash", [_e("add", "panic:other", cls=[[1]])]),
]


def run_trace(ctx, scripts, ndjson, died=None):
    """Validate a recorded batch; returns [(script, event index, labels, events)]."""
    lines = read_lines(ndjson)
    n = len(lines)
    if n != len(scripts):
        raise ToolError("%d scripts but %d histories" % (len(scripts), n))
    with open(ndjson, "a") as f:
        for k, (lab, ev) in enumerate(CANARIES):
            f.write(json.dumps({"id": -k, "ev": ev}) + "\n")
    r = tlc(ctx, "ApiTrace", trace=ndjson)
    res, seen = [], set()
    for h, i, labs, _ in r.viols:
        if h > n:
            if CANARIES[h - n - 1][0] in labs:
                seen.add(h)
        else:
            res.append((scripts[h - 1], i, labs, json.loads(lines[h - 1])["ev"][:i]))
    if len(seen) != len(CANARIES):
        raise ToolError("canary histories accepted: %s" % [c[0] for k, c in enumerate(CANARIES) if n + 1 + k not in seen])
    ctx.canaries += len(seen)
    ctx.traces += n
    ctx.events += sum(l.count('"o":"') for l in lines)
    return res


def report(ctx, res, wanted):
    for script, i, labs, evs in res:
        hit = [l for l in labs if any(re.fullmatch(w, l) for w in wanted)]
        for l in labs:
            if l not in hit:
                ctx.other[l] = ctx.other.get(l, 0) + 1
        if hit:
            ops = script.split("|")
            ctx.violation(hit[0], {"kind": "api", "script": "|".join(ops[:i]), "labels": hit,
                                   "observed": evs[-1] if evs else None})


def died_report(ctx, how, what):
    if ctx.prop == "S03" or not how.startswith("timeout"):
        ctx.violation("crash", {"kind": "api-process", "how": how, "what": what})
    else:
        raise ToolError("harness died (%s) on %s" % (how, what))


def random_stage(ctx, profile, count, wanted, salt=0):
    out = ctx.path("api-" + profile)
    seed = ctx.seed * 1000003 + salt
    d = harness(["api", profile, seed, count, out])
    if d:
        return died_report(ctx, d, "vh api %s %d %d" % (profile, seed, count))
    scripts = read_lines(out + ".scripts")
    res = run_trace(ctx, scripts, out + ".ndjson")
    ctx.note("histories_" + profile, len(scripts))
    ctx.note("distinct_histories_" + profile, len(set(scripts)))
    ctx.sample(scripts[len(scripts) // 2][:400])
    report(ctx, res, wanted)


def replay_stage(ctx, name, scripts, wanted):
    f = ctx.path(name + ".scripts")
    with open(f, "w") as fh:
        fh.write("\n".join(scripts) + "\n")
    out = ctx.path(name + ".ndjson")
    d = harness(["replay", f, out])
    if d:
        return died_report(ctx, d, "replay of " + name)
    res = run_trace(ctx, scripts, out)
    ctx.sample(scripts[len(scripts) // 2][:400])
    report(ctx, res, wanted)


def marathon(seed, steps):
    """a very long history over few variables that are fixed, hidden and used again; the constraints always
    allow an assignment drawn along the way, so nearly every solve call has to search"""
    r = random.Random(seed)
    ops, plant, asm, solves, hides = [], {}, [], 0, 0
    val = lambda v: plant.setdefault(v, r.random() < .5)
    while solves < steps:
        x = r.random()
        if x < .8:
            vs = r.sample(range(1, 5), r.choice([1, 1, 2, 2, 3]))
            c = [v if r.random() < .5 else -v for v in vs]
            if not any((l > 0) == val(abs(l)) for l in c):
                j = r.randrange(len(c))
                c[j] = -c[j]
            ops.append("add " + " ".join(map(str, c)))
        elif x < .87:
            asm = [v if val(v) == (r.random() < .97) else -v for v in r.sample(range(1, 5), r.choice([0, 1, 2]))]
            ops.append("assume " + " ".join(map(str, asm)))
        elif x < .95 and hides < 9000:
            v = r.randrange(1, 5)
            if v in map(abs, asm):
                continue
            plant.pop(v, None)
            hides += 1
            ops.append("hide %d" % v)
            continue
        ops.append("solve")
        solves += 1
    return "|".join(ops)


def marathon_stage(ctx, count, wanted, salt=0):
    """histories long enough to reach what happens only every few thousand search steps"""
    replay_stage(ctx, "marathon", [marathon(ctx.seed * 7919 + salt + k, 6500) for k in range(count)], wanted)
    ctx.note("marathon_solve_calls", 6500 * count)


def mc_stage(ctx, depth, modes):
    """exhaustive check of the specification's own meta-properties"""
    r = tlc(ctx, "ApiMC", dfs=False, consts={"Depth": depth, "Modes": modes})
    ctx.note("spec_exhaustive", "ApiMC V=2 Depth=%d Modes=%s: %d distinct states, %d transitions"
             % (depth, modes, r.distinct, r.states))


def cover_stage(ctx, depth, modes, limit, wanted, suffix="solve|assume |solve"):
    """replay a history for (a sample of) every transition of the bounded machine"""
    text = open(os.path.join(SPEC, "ApiMC.cfg")).read()
    text = re.sub(r"(?m)^(INVARIANTS|PROPERTIES).*$", "", text).replace("McView", "GenView")
    r = tlc(ctx, "ApiMC", cfg=text, dfs=False, gen=True, workers=1, consts={"Depth": depth, "Modes": modes, "Gen": "TRUE"})
    hs = sorted(set("|".join(re.findall(r'"([^"]*)"', l)[1:]) for l in r.gen))
    total = len(hs)
    if total > limit:
        random.Random(ctx.seed).shuffle(hs)
        hs = hs[:limit]
    ctx.note("spec_transitions_generated", total)
    ctx.note("spec_transitions_replayed", len(hs))
    replay_stage(ctx, "cover", [h + "|" + suffix for h in hs], wanted)
