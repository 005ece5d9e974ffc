"""Runs of the command line program (spec/Cli.tla, spec/CliTrace.tla)."""
import json, multiprocessing, os, random, re, resource, shutil, signal, subprocess
import proof
from core import *

FORMATS = ["varisat", "drat", "binary-drat", "lrat", "clrat"]


# --- running ------------------------------------------------------------------
def _limit(lim):
    def f():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
        if lim >= 0:
            resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
    return f


def _target(d, kind, name):
    """where a file is to be written"""
    if kind == "full":
        return "/dev/full"
    if kind == "nodir":
        return os.path.join(d, "missing", name)
    if kind == "dir":
        return d
    return os.path.join(d, name)


def _once(exe, d, c, lim, good):
    """one run; good: with targets that take everything"""
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    names = {"@IN": os.path.join(d, "in.cnf"), "@CFG": os.path.join(d, "cfg.toml"), "@DIR": d,
             "@NONE": os.path.join(d, "none")}
    for k, v in c.get("targets", {}).items():
        names["@" + k] = _target(d, "file" if good else v, k + ".out")
    with open(names["@IN"], "wb") as f:
        f.write(bytes.fromhex(c["text"]))
    with open(names["@CFG"], "w") as f:
        f.write(c.get("cfgtext", ""))
    if "proof" in c:
        names["@PROOF"] = os.path.join(d, "proof")
        with open(names["@PROOF"], "wb") as f:
            f.write(bytes.fromhex(c["proof"]))
    argv = [re.sub(r"@[A-Z0-9]+", lambda m: names[m.group(0)], a) for a in c["argv"]]
    stdin = open(names["@IN"], "rb") if c.get("stdin") else subprocess.DEVNULL
    try:
        p = subprocess.run([exe] + argv, cwd=d, stdin=stdin, capture_output=True, timeout=60, preexec_fn=_limit(lim),
                           restore_signals=False, env={"PATH": ENV["PATH"]})
        code, out, err = p.returncode, p.stdout.decode("latin1"), p.stderr.decode("latin1")
    except subprocess.TimeoutExpired:
        code, out, err = -99, "", ""
    finally:
        if c.get("stdin"):
            stdin.close()
    files = {}
    for k in c.get("targets", {}):
        q = names["@" + k]
        if os.path.isfile(q):
            with open(q, "rb") as f:
                files[k] = f.read()
    return code, out, err, files


def _parse(code, out, err, info):
    x = {"code": code, "s": [], "v": [], "vend": True, "t": [], "odd": 0, "errors": 0}
    if code < 0 or "panicked at" in err:
        x["odd"] += 1
    if info:
        return x
    if out and not out.endswith("\n"):
        x["odd"] += 1
    for l in out.split("\n")[:-1]:
        m = re.match(r"^t (ADD|WITNESS|SAMPLE|HIDE|OBSERVE) (\d+) (?:INTERNAL )?(?:CLAUSES|VARIABLES) ?$", l)
        if l == "c" or l.startswith("c "):
            x["errors"] += l.startswith("c ERROR")
        elif l.startswith("s "):
            x["s"].append(l[2:])
        elif re.match(r"^v( -?\d{1,9})*$", l):
            x["v"] += [int(w) for w in l.split()[1:]]
        elif m:
            x["t"].append([m.group(1), int(m.group(2))])
        elif l in ("t UNSAT", "t SAT"):
            x["t"].append([l[2:], 0])
        elif re.match(r"^t ASSUME \d+ LITERALS$", l):
            x["t"].append(["ASSUME", int(l.split()[2])])
        elif re.match(r"^t UNSAT WITH \d+ ASSUMPTIONS$", l):
            x["t"].append(["UNSAT WITH", int(l.split()[3])])
        else:
            x["odd"] += 1
    if x["v"]:
        x["vend"] = x["v"][-1] == 0 and 0 not in x["v"][:-1]
    return x


def _work(job):
    exe, d, c = job
    info = c["args"] in ("help", "version", "confhelp")
    tg = c.get("targets", {})
    lim, pl = -1, 0
    if c.get("cut") is not None or "full" in tg.values():
        # what is written when everything can be written
        _, _, _, files = _once(exe, d, c, -1, True)
        if c.get("cut") is not None:
            pl = max([len(b) for b in files.values()] + [0])
            lim = min(pl + 10, pl * c["cut"] // 1000) if c["cut"] >= 0 else max(0, pl + c["cut"])
        else:
            pl, lim = max([len(files.get(k, b"")) for k in tg if tg[k] == "full"]), 0
    code, out, err, files = _once(exe, d, c, lim if c.get("cut") is not None else -1, False)
    x = {"y": c["y"], "b": list(bytes.fromhex(c["text"])), "args": c["args"], "cfg": c.get("cfg", "ok"), "conf": conf(c) if c["y"] == "solve" else [],
         "inp": c.get("inp", "ok"),
         "prf": c.get("prf", "ok"), "fmt": "", "pf": [], "lim": lim, "pl": pl, "good": c.get("good", "T"), "T": c.get("T", []),
         "single": c.get("single", False), "unsat": c.get("unsat", False), "nv": 1 << 20, "lt": []}
    x.update(_parse(code, out, err, info))
    lost = 0 <= lim < pl
    native = None
    if c["y"] == "solve" and "PRF" in files and not lost and c.get("fmt") and len(files["PRF"]) <= 6000:
        if c["fmt"] != "varisat":
            x["fmt"], x["pf"] = c["fmt"], list(files["PRF"])
        elif "f0" in c:
            native = files["PRF"].hex()
    if c["y"] == "check" and c.get("single") and not lost and sum(map(len, files.values())) <= 12000:
        x["lt"] = [{"on": k in files and tg[k] == "file", "by": list(files.get(k, b"")), "bin": k == "CLRAT"} for k in tg]
    shutil.rmtree(d, ignore_errors=True)
    return x, native, (out + err)[-1500:]


def run_all(ctx, exe, cases):
    root = ctx.path("cli")
    jobs = [(exe, os.path.join(root, "r%d" % k), c) for k, c in enumerate(cases)]
    with multiprocessing.get_context("fork").Pool(8) as pool:
        res = pool.map(_work, jobs, chunksize=8)
    shutil.rmtree(root, ignore_errors=True)
    return res


# --- formulas and their texts -------------------------------------------------
def formula(r, nv):
    kind = r.randrange(10)
    if kind == 0:
        f = [[r.choice([-1, 1]) * r.randint(1, nv) for _ in range(r.randrange(0, 4))] for _ in range(r.randrange(0, 8))]
    elif kind < 4:
        f = [[r.choice([-1, 1]) * r.randint(1, nv) for _ in range(r.choice([1, 2, 2, 3, 3]))] for _ in range(r.randint(1, 3 * nv))]
    else:
        k = min(nv, r.choice([2, 3, 3, 3]))
        m = int(nv * ({1: 2, 2: 2.2, 3: 4.8}[k] + r.random() * 2)) + 1
        f = [[r.choice([-1, 1]) * v for v in r.sample(range(1, nv + 1), k)] for _ in range(m)]
    if r.random() < .1:
        # spread over larger indices
        mp = sorted(r.sample(range(1, 300), nv))
        f = [[(1 if l > 0 else -1) * mp[abs(l) - 1] for l in c] for c in f]
    return f


def pigeons(p, h):
    v = lambda i, j: i * h + j + 1
    return [[v(i, j) for j in range(h)] for i in range(p)] + \
        [[-v(i, j), -v(k, j)] for j in range(h) for i in range(p) for k in range(i)]


def text(r, f, damage=0.0):
    mx = max([abs(l) for c in f for l in c] + [0])
    head = ""
    if r.random() < .6:
        nv, nc = mx + (r.randrange(3) if r.random() < .3 else 0), len(f)
        if r.random() < damage:
            if r.random() < .5:
                nv = max(0, nv - 1 - r.randrange(2))
            else:
                nc += r.choice([-1, 1, 2])
        head = "p cnf %d %d\n" % (nv, max(nc, 0))
    sep = ["\n", "\n", "\n", " ", "\n\n", "\nc note 1 0\n", "\r\n"] if r.random() < .3 else ["\n"]
    gap = [" ", " ", "  ", "\n", "\t"] if r.random() < .2 else [" "]
    s = head
    for c in f:
        s += "".join(str(l) + r.choice(gap) for l in c) + "0" + r.choice(sep)
    if r.random() < .2:
        s = "c a comment p cnf 9 9\n" + s
    if r.random() < damage:
        k = r.randrange(len(s) + 1)
        s = r.choice([s[:k], s[:k] + r.choice("x-0%+.19pc\x00\xff ") + s[k:], s + "-", s + "1", s + "%\n0\n", s.rstrip("\n")[:-1],
                      s[:k] + s[k + 1:], s + "268435457 0\n", s + "p cnf 1 1\n", s + "\n 1 -"])
    return s


# texts of configurations and what they say: settings (option, whether the value is in range), or None
CONFIGS = {
    "vsids_decay=0.5": [["v", True]], "vsids_decay=0.999": [["v", True]], "clause_activity_decay=0.9": [["c", True]],
    "reduce_locals_interval=1": [["l", True]], "reduce_locals_interval=4": [["l", True]], "reduce_mids_interval=2": [["m", True]],
    "luby_restart_interval_scale=1": [["r", True]], "luby_restart_interval_scale=2": [["r", True]], "": [], "# nothing": [],
    "reduce_locals_interval=2\nluby_restart_interval_scale=1": [["l", True], ["r", True]],
    "vsids_decay=0.4": [["v", False]], "vsids_decay=1.01": [["v", False]], "clause_activity_decay=0.0": [["c", False]],
    "reduce_locals_interval=0": [["l", False]], "luby_restart_interval_scale=0": [["r", False]],
    "reduce_locals_interval=0\nreduce_mids_interval=3": [["l", False], ["m", True]],
    "reduce_mids_interval=-1": None, "restarts=1": None, "vsids_decay": None, "vsids_decay='x'": None, "reduce_locals_interval=1.5": None,
}
BAD = [k for k, v in CONFIGS.items() if v is None or not all(x[1] for x in v)]
GOOD = [k for k in CONFIGS if k not in BAD]


def conf(c):
    """the configuration texts of a run in the order they are taken"""
    ts = [c["cfgtext"].strip()] if "--config=@CFG" in c["argv"] else []
    for a in c["argv"]:
        for p in ("--config-option=", "-C"):
            if a.startswith(p) and a != "-Chelp":
                ts.append(a[len(p):])
    return [{"p": CONFIGS[t] is not None, "s": CONFIGS[t] or []} for t in ts]


def solve_case(r):
    c = {"y": "solve", "args": "ok", "argv": []}
    u = r.random()
    if u < .04:
        f = pigeons(4, 3) if r.random() < .5 else pigeons(3, 3)
    elif u < .12:
        nv = r.randint(10, 14)
        f = [[r.choice([-1, 1]) * v for v in r.sample(range(1, nv + 1), 3)] for _ in range(int(nv * 4.5))]
    else:
        f = formula(r, r.randint(1, 7))
    damage = .5 if r.random() < .3 else 0
    s = text(r, f, damage)
    c["text"] = s.encode("latin1").hex()
    if not damage:
        c["f0"] = f
    pre = []
    # configuration
    if r.random() < .35:
        for _ in range(r.randint(1, 3)):
            o = r.choice(BAD) if r.random() < .15 else r.choice(GOOD)
            pre.append("-C" + o if r.random() < .5 and o else "--config-option=" + o)
        pre = [a for a in pre if a != "--config-option="]
        if r.random() < .3:
            c["cfgtext"] = (r.choice(BAD) if r.random() < .2 else r.choice(GOOD)) + "\n"
            pre.append("--config=@CFG")
        elif r.random() < .1:
            c["cfg"] = "bad"
            pre.append("--config=" + r.choice(["@NONE", "@DIR"]))
    # proof
    if r.random() < .7:
        fmt = r.choice(FORMATS)
        c["fmt"] = fmt
        kind = r.choice(["file"] * 8 + ["full", "nodir", "dir"])
        c["targets"] = {"PRF": kind}
        if kind in ("nodir", "dir"):
            c["prf"] = "bad"
        if kind == "file" and r.random() < .3:
            c["cut"] = r.choice([0, 300, 500, 900, 1000, 1500, -1, -2])
        pre.append("--proof=@PRF")
        if fmt != "varisat" or r.random() < .5:
            pre.append("--proof-format=" + (fmt if r.random() < .8 else fmt.upper()))
    elif r.random() < .2:
        pre.append("--proof-format=" + r.choice(FORMATS))
    if r.random() < .25:
        pre.append("--self-check")
    # input
    u = r.random()
    if u < .25:
        c["stdin"] = True
        inp = []
    elif u < .29:
        inp, c["inp"] = [r.choice(["@NONE", "@DIR"])], "other"
    else:
        inp = ["@IN"]
    u = r.random()
    if u < .03:
        pre.append(r.choice(["--frobnicate", "--proof-format=foo", "-x"]))
        c["args"] = "bad"
    elif u < .04:
        inp, c["args"] = ["@IN", "@IN"], "bad"
    elif u < .06:
        pre.append("-Chelp")
        c["args"] = "confhelp"
    r.shuffle(pre)
    c["argv"] = pre + inp if r.random() < .7 else inp + pre
    if u > .98:
        c["argv"], c["args"] = r.choice([(["--help"], "help"), (["--version"], "version"), (["-h"], "help"), (["-V"], "version")])
    return c


def check_case(r, f0, by, rec):
    """f0, by: formula and proof; rec: what the library makes of them"""
    good = rec["vk"] == "ok"
    ks = [k["k"] for k in rec["chk"]]
    first = next((k for k, x in enumerate(ks) if x not in ("add", "dup", "taut")), len(ks))
    # the formula, then nothing but derivations
    single = (good and first == len(f0) and not any(k in ("add", "dup", "taut") for k in ks[first:])
              and all(k["k"] in ("add", "dup", "taut", "irr", "at", "del", "delat", "model", "fail", "assum")
                      or k["k"] == "uv" and k.get("v") == k.get("u") for k in rec["chk"]))
    s = text(r, f0)
    c = {"y": "check", "args": "ok", "text": s.encode("latin1").hex(), "proof": by, "good": "T" if good else "F",
         "T": [{"k": t["k"], "c": t["c"]} for t in rec["tr"]], "single": single,
         "unsat": any(t["k"] == "unsat" for t in rec["tr"]), "targets": {}}
    pre = []
    for k in ("LRAT", "CLRAT"):
        if r.random() < .5:
            c["targets"][k] = r.choice(["file"] * 10 + ["full", "nodir", "dir"])
            if c["targets"][k] in ("nodir", "dir"):
                c["prf"] = "bad"
            pre.append("--write-%s=@%s" % (k.lower(), k))
    if c["targets"] and all(k == "file" for k in c["targets"].values()) and r.random() < .25:
        c["cut"] = r.choice([0, 300, 500, 900, 1000, 1500, -1, -2])
    u = r.random()
    if u < .03:
        pre.append("--proof=" + r.choice(["@NONE", "@DIR"]))
        c["prf"] = "bad"
    else:
        pre.append("--proof=@PROOF")
    inp = ["@IN"]
    u = r.random()
    if u < .25:
        c["stdin"], inp = True, []
    elif u < .28:
        inp, c["inp"] = [r.choice(["@NONE", "@DIR"])], "other"
    u = r.random()
    if u < .05:
        t = text(r, f0, 1.0)
        if t != s:
            # another text: the verdict for this one is not known unless it cannot be read
            t = s + r.choice(["-", "1", "x", "268435457 0\n", "1 -", "-0 x"])
            c["text"] = t.encode("latin1").hex()
    elif u < .07:
        pre.append(r.choice(["--frobnicate", "--self-check", "--proof=@PROOF"]))
        c["args"] = "bad"
    elif u < .08:
        pre = [a for a in pre if not a.startswith("--proof")]
        c["args"] = "bad"
    r.shuffle(pre)
    c["argv"] = ["--check"] + (pre + inp if r.random() < .7 else inp + pre)
    if u > .99:
        c["argv"], c["args"] = ["--check", "--help"], "help"
    return c


# --- judging ------------------------------------------------------------------
def _b(s):
    return list(s.encode("latin1"))


def _s(**k):
    d = {"y": "solve", "b": _b("1 2 0\n-1 0\n"), "args": "ok", "cfg": "ok", "conf": [], "inp": "ok", "prf": "ok", "fmt": "", "pf": [], "lim": -1,
         "pl": 0, "good": "T", "T": [], "single": False, "unsat": False, "nv": 9, "lt": [], "code": 10, "s": ["SATISFIABLE"],
         "v": [-1, 2, 0], "vend": True, "t": [], "odd": 0, "errors": 0}
    d.update(k)
    return d


_U = {"b": _b("1 2 0 1 -2 0 -1 2 0 -1 -2 0"), "code": 20, "s": ["UNSATISFIABLE"], "v": []}
_E = {"code": 1, "s": [], "v": [], "errors": 1}
_A = [{"k": "add", "c": [1, 2]}, {"k": "add", "c": [-1]}, {"k": "model", "c": [-1, 2]}]


def _o(k, good):
    return {"p": True, "s": [[k, good]]}


def _k(**k):
    return _s(**{**{"y": "check", "code": 0, "s": ["VERIFIED"], "v": [], "T": _A, "t": [["ADD", 2], ["SAT", 0]]}, **k})


CANARIES = [
    (None, _s()), (None, _s(**_U)), (None, _s(cfg="bad", **_E)), (None, _s(prf="bad", **_E)), (None, _s(b=_b("1"), **_E)),
    (None, _s(args="help", code=0, s=[], v=[])), (None, _s(lim=3, pl=4, code=0, s=["UNKNOWN"], v=[], errors=1)),
    (None, _s(lim=4, pl=4)), (None, _s(conf=[_o("v", False), _o("v", True)])), (None, _s(conf=[_o("v", False), _o("m", True)], **_E)),
    ("cli-answer-on-error", _s(conf=[_o("v", True), _o("v", False)])), ("cli-no-answer", _s(conf=[_o("v", False), _o("v", True)], **_E)),
    ("cli-answer-on-error", _s(conf=[{"p": False, "s": []}, _o("v", True)])),
    ("cli-noise", _s(odd=1)), ("cli-info", _s(args="help")), ("cli-answer-wrong", _s(code=20, s=["UNSATISFIABLE"], v=[])),
    ("cli-answer-wrong", _s(**{**_U, "code": 10, "s": ["SATISFIABLE"], "v": [1, 2, 0]})), ("cli-answer-wrong", _s(code=10, s=[], v=[])),
    ("cli-no-answer", _s(**_E)), ("cli-no-answer", _s(code=0)), ("cli-no-answer", _s(code=0, s=["UNKNOWN"], v=[], errors=1)),
    ("cli-answer-on-error", _s(b=_b("1"))), ("cli-answer-on-error", _s(cfg="bad")), ("cli-answer-on-error", _s(inp="other")),
    ("cli-answer-on-error", _s(args="bad")), ("cli-answer-on-error", _s(prf="bad")),
    ("cli-answer-on-error", _s(b=_b("1"), **{**_E, "code": 0})),
    ("cli-proof-lost", _s(lim=3, pl=4)), ("cli-proof-lost", _s(lim=0, pl=4, **_U)),
    ("cli-proof-lost", _s(lim=0, pl=4, **{**_E, "code": 20})), ("cli-proof-lost", _s(lim=0, pl=4, **{**_E, "code": 0, "errors": 0})),
    ("cli-model", _s(v=[1, 2, 0])), ("cli-model", _s(v=[2, 0, -1], vend=False)), ("cli-model", _s(v=[-1, 2, 3, 0])),
    ("cli-model", _s(v=[-1, 2, 2, 0])), ("cli-model", _s(v=[-1, 2, -2, 0])), ("cli-model", _s(v=[-1, 0])),
    (None, _s(fmt="drat", pf=_b("1 0\n0\n"), **_U)), ("cli-proof-invalid", _s(fmt="drat", pf=_b(""), **_U)),
    ("cli-proof-invalid", _s(fmt="binary-drat", pf=[97, 2, 0, 97], **_U)), ("cli-proof-invalid", _s(fmt="lrat", pf=_b("5 1 0 1 2 0\n"), **_U)),
    ("cli-proof-invalid", _s(fmt="drat", pf=_b("1 0\n"))), ("cli-proof-invalid", _s(fmt="clrat", pf=[97, 2, 0], **_U)),
    ("cli-proof-refused", _s(fmt="varisat", good="F", T=[{"k": "unsat", "c": []}], **_U)),
    ("cli-proof-other", _s(fmt="varisat", T=_A, **_U)), (None, _s(fmt="varisat", T=_A)),
    (None, _k()), (None, _k(T=_A[:2], t=[])), (None, _k(T=_A[:2], t=[["ADD", 2]])),
    ("chk-transcript", _k(t=[["ADD", 1], ["SAT", 0]])), ("chk-transcript", _k(t=[["SAT", 0]])), ("chk-transcript", _k(t=[["ADD", 2]])),
    ("chk-transcript", _k(t=[["ADD", 2], ["UNSAT", 0]])), ("chk-noise", _k(odd=1)),
    ("chk-transcript", _k(b=_b("1"), t=[["ADD", 2], ["SAT", 0]], code=1, s=[])),
    (None, _k(good="F", code=1, s=["NOT VERIFIED"], t=[["ADD", 2], ["SAT", 0]])),
    ("chk-accepted", _k(good="F")), ("chk-accepted", _k(good="F", code=0, s=["NOT VERIFIED"])), ("chk-accepted", _k(b=_b("1"))),
    ("chk-accepted", _k(prf="bad")), ("chk-accepted", _k(inp="other")), ("chk-accepted", _k(args="bad")),
    ("chk-refused", _k(code=1, s=["NOT VERIFIED"])), ("chk-refused", _k(code=1)), ("chk-refused", _k(s=[])), ("chk-lrat-lost", _k(lim=0, pl=1)),
    ("lrat-no-refutation", _k(b=_U["b"], unsat=True, single=True, T=[], t=[], lt=[{"on": True, "bin": False, "by": _b("5 1 0 1 2 0\n")}])),
    (None, _k(b=_U["b"], unsat=True, single=True, T=[], t=[], lt=[{"on": True, "bin": False, "by": _b("5 1 0 1 2 0\n6 0 5 3 4 0\n")}])),
]


def _judge(ctx, recs):
    n = len(recs)
    path = ctx.path("cli%d.ndjson" % ctx.notes.get("_cli", 0))
    ctx.notes["_cli"] = ctx.notes.get("_cli", 0) + 1
    with open(path, "w") as f:
        for x in recs + [c[1] for c in CANARIES]:
            f.write(json.dumps(x) + "\n")
    r = tlc(ctx, "CliTrace", trace=path)
    res, seen = [], {}
    for h, i, labs, _ in r.viols:
        if h > n:
            seen[h - n - 1] = labs
        else:
            res.append((h - 1, labs))
    bad = [(k, c[0], seen.get(k)) for k, c in enumerate(CANARIES)
           if (k in seen if c[0] is None else c[0] not in seen.get(k, []))]
    if bad:
        raise ToolError("canary runs misjudged: %s" % bad)
    ctx.notes.pop("_cli")
    ctx.canaries += sum(c[0] is not None for c in CANARIES)
    ctx.traces += n
    return res


def _report(ctx, cases, results, res, wanted):
    for k, labs in res:
        hit = [l for l in labs if any(re.fullmatch(w, l) for w in wanted)]
        for l in labs:
            if l not in hit:
                ctx.other[l] = ctx.other.get(l, 0) + 1
        if hit:
            c, (x, _, out) = cases[k], results[k]
            ctx.violation(hit[0], {"kind": "cli", "case": c, "labels": hit,
                                   "formula": bytes.fromhex(c["text"]).decode("latin1")[:300], "status": x["code"], "printed": out[-700:],
                                   "limit": x["lim"], "proof_bytes": x["pl"]})


def _library(ctx, pairs, must):
    """what the library's checker makes of (formula, proof) pairs; bad: those the specification does not agree with"""
    f, out = ctx.path("lib.cases"), ctx.path("lib.ndjson")
    cases = ["%s # %s # 0 # 1048576 # %d" % (" ; ".join(" ".join(map(str, c)) for c in f0) if f0 else "-", by, must) for f0, by in pairs]
    with open(f, "w") as fh:
        fh.write("".join(c + "\n" for c in cases))
    if not proof._run(ctx, ["rawreplay", f, out], "native proofs of the program"):
        raise ToolError("harness died")
    recs = [json.loads(l) for l in read_lines(out)]
    lines = {}
    keep = read_lines(out)
    for k, c in enumerate(cases):
        lines.setdefault(c, []).append(k)
    res = proof._validate(ctx, "RawTrace", list(range(len(cases))), out, proof.RAW_CANARIES)
    return recs, {k: labs for k, _, labs, _ in res}


def _natives(ctx, cases, results):
    """judge native proofs; add the outcome to the records"""
    idx = [k for k, r in enumerate(results) if r[1] is not None]
    if not idx:
        return
    recs, bad = _library(ctx, [(cases[k]["f0"], results[k][1]) for k in idx], 0)
    for j, k in enumerate(idx):
        x = results[k][0]
        x["fmt"], x["good"] = "varisat", "T" if recs[j]["vk"] == "ok" and j not in bad else "F"
        x["T"] = [{"k": t["k"], "c": t["c"]} for t in recs[j]["tr"]]


def solve_stage(ctx, count, wanted, salt):
    exe = build_cli()
    r = random.Random(ctx.seed * 1000003 + salt)
    while count > 0:
        cases = [solve_case(r) for _ in range(min(count, 4000))]
        results = run_all(ctx, exe, cases)
        ctx.log("%d runs" % len(cases))
        _natives(ctx, cases, results)
        ctx.note("runs_solve", ctx.notes.get("runs_solve", 0) + len(cases))
        for _, _, code in [(0, 0, r[0]["code"]) for r in results]:
            ctx.notes.setdefault("exit_status", {}).setdefault(str(code), 0)
            ctx.notes["exit_status"][str(code)] += 1
        ctx.note("proofs_judged", ctx.notes.get("proofs_judged", 0) + sum(r[0]["fmt"] != "" for r in results))
        ctx.note("runs_losing_the_proof", ctx.notes.get("runs_losing_the_proof", 0) + sum(0 <= r[0]["lim"] < r[0]["pl"] for r in results))
        ctx.events += len(cases)
        ctx.sample(" ".join(cases[len(cases) // 2]["argv"]))
        _report(ctx, cases, results, _judge(ctx, [r[0] for r in results]), wanted)
        count -= len(cases)


def check_stage(ctx, count, wanted, salt):
    exe = build_cli()
    r = random.Random(ctx.seed * 1000003 + salt)
    part = 0
    while count > 0:
        pairs = []
        for k in ["honest", "mutated", "mismatch", "cuts", "bytes"]:
            out = ctx.path("raw-" + k)
            if not proof._run(ctx, ["raw", k, ctx.seed * 1000003 + salt + part, min(count, 4000) // 8, out], "vh raw " + k):
                return
            for l in read_lines(out + ".cases"):
                w = [q.strip() for q in l.split("#")]
                if w[2] == "0":
                    pairs.append(([[int(q) for q in c.split()] for c in w[0].split(";")] if w[0] != "-" else [], w[1]))
        # proofs the program writes
        cases = []
        while len(cases) < min(count, 4000) // 3:
            f = formula(r, r.randint(1, 9)) if r.random() < .9 else pigeons(4, 3)
            cases.append({"y": "solve", "args": "ok", "text": text(r, f).encode("latin1").hex(), "f0": f, "fmt": "varisat",
                          "targets": {"PRF": "file"}, "argv": ["--proof=@PRF", "@IN", "-Creduce_locals_interval=%d" % r.choice([1, 4]),
                                                               "-Cluby_restart_interval_scale=%d" % r.choice([1, 2])]})
        own = [(c["f0"], x[1]) for c, x in zip(cases, run_all(ctx, exe, cases)) if x[1] is not None]
        ctx.log("%d proofs from the program" % len(own))
        for f0, by in own:
            pairs.append((f0, by))
            if r.random() < .1:
                k = r.randrange(len(by) // 2)
                pairs.append((f0, by[:2 * k]))
        recs, bad = _library(ctx, pairs, 0)
        cases = [check_case(r, f0, by, recs[k]) for k, (f0, by) in enumerate(pairs) if k not in bad]
        if bad:
            ctx.note("pairs_left_out", ctx.notes.get("pairs_left_out", 0) + len(bad))
        results = run_all(ctx, exe, cases)
        ctx.log("%d runs" % len(cases))
        ctx.note("runs_check", ctx.notes.get("runs_check", 0) + len(cases))
        ctx.note("verified", ctx.notes.get("verified", 0) + sum(x[0]["code"] == 0 for x in results))
        ctx.note("lrat_files_judged", ctx.notes.get("lrat_files_judged", 0) + sum(l["on"] for x in results for l in x[0]["lt"] if x[0]["single"]))
        ctx.note("runs_losing_a_file", ctx.notes.get("runs_losing_a_file", 0) + sum(0 <= x[0]["lim"] < x[0]["pl"] for x in results))
        ctx.events += len(cases)
        ctx.sample(" ".join(cases[len(cases) // 2]["argv"]))
        _report(ctx, cases, results, _judge(ctx, [x[0] for x in results]), wanted)
        count -= 4000
        part += 1


def replay(ctx, d):
    exe = build_cli()
    cases = [d["case"]]
    results = run_all(ctx, exe, cases)
    if d["case"]["y"] == "solve":
        _natives(ctx, cases, results)
    print(results[0][2])
    _report(ctx, cases, results, _judge(ctx, [x[0] for x in results]), [".*"])
