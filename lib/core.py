"""Shared machinery of the checks: building, running the harness, running TLC, evidence, replays."""
import json, os, re, shutil, subprocess, sys, time, resource

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = "/repo"
ENV = dict(os.environ)
ENV.update({
    "HOME": "/root",
    "PATH": "/opt/vp/tools/bin:/root/.cargo/bin:" + os.environ.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"),
    "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu",
    "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never", "RUSTC_WRAPPER": "",
    "CARGO_INCREMENTAL": "0",
})
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = os.path.join(VERIF, "work", "%s-%d" % (prop, os.getpid()))
        os.makedirs(self.work, exist_ok=True)
        self.states = self.transitions = self.traces = 0
        self.events = 0
        self.samples = []
        self.notes = {}
        self.viols = []          # (label, replay dict)
        self.other = {}          # labels seen that belong to other properties
        self.canaries = 0

    @property
    def thorough(self):
        return self.tier == "thorough"

    def path(self, name):
        return os.path.join(self.work, name)

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def violation(self, label, replay):
        self.viols.append((label, replay))

    def note(self, k, v):
        self.notes[k] = v

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a)
        sys.stdout.flush()


def build(crate="harness", bins=None, features=None):
    """Build one of the harness crates from /repo's working tree."""
    env = dict(ENV)
    env["CARGO_TARGET_DIR"] = os.path.join(VERIF, crate, "target")
    cmd = ["cargo", "build", "--offline", "-q"]
    if features:
        cmd += ["--features", features]
    p = subprocess.run(cmd, cwd=os.path.join(VERIF, crate), env=env, capture_output=True, text=True)
    if p.returncode:
        raise ToolError("cargo build failed:\n" + p.stderr[-4000:])
    return os.path.join(env["CARGO_TARGET_DIR"], "debug")


def build_cli():
    """Build the varisat program from /repo's working tree into /verif."""
    env = dict(ENV)
    env["CARGO_TARGET_DIR"] = os.path.join(VERIF, "cli-target")
    p = subprocess.run(["cargo", "build", "--offline", "-q", "-p", "varisat-cli"], cwd=REPO, env=env,
                       capture_output=True, text=True)
    if p.returncode:
        raise ToolError("cargo build (cli) failed:\n" + p.stderr[-4000:])
    return os.path.join(env["CARGO_TARGET_DIR"], "debug", "varisat")


def _limits(gb):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def harness(args, timeout=600, env=None, gb=20):
    """Run the harness; returns None, or a description of how it died."""
    e = dict(ENV)
    if env:
        e.update(env)
    cmd = [os.path.join(VERIF, "harness/target/debug/vh")] + [str(a) for a in args]
    try:
        p = subprocess.run(cmd, env=e, capture_output=True, text=True, timeout=timeout, preexec_fn=_limits(gb),
                           errors="replace")
    except subprocess.TimeoutExpired:
        return "timeout after %ds" % timeout
    if p.returncode == 0:
        return None
    if p.returncode < 0 or p.returncode in (101, 134):
        # the code under test panicked where no call can be blamed, or brought the process down
        return "died with status %d: %s" % (p.returncode, p.stderr[-500:])
    raise ToolError("harness %r failed (%d): %s" % (args, p.returncode, p.stderr[-2000:]))


VIOL = re.compile(r'^<<"VIOL", (-?\d+), (-?\d+), (\{.*?\}|"[^"]*")(?:, (.*))?>>$')


def joined(lines):
    """TLC wraps long values: one line per printed tuple"""
    acc = None
    for line in lines:
        line = line.rstrip("\n")
        if acc is None and not line.startswith("<<"):
            yield line
            continue
        acc = line if acc is None else acc + " " + line.strip()
        bare = re.sub(r'"[^"]*"', "", acc)
        if bare.count("<<") <= bare.count(">>"):
            yield re.sub(r"(<<|\{) ", r"\1", re.sub(r" (>>|\})", r"\1", acc))
            acc = None
    if acc is not None:
        raise ToolError("unreadable TLC output: " + acc[:300])


class TlcResult:
    pass


def tlc(ctx, module, cfg=None, trace=None, dfs=True, consts=None, timeout=800, extra_env=None, gen=False, mem="8g", workers=8):
    """Run TLC; cfg is a file name in spec/ or the text of a configuration."""
    n = len([x for x in os.listdir(ctx.work) if x.startswith("md")])
    md = ctx.path("md%d" % n)
    os.makedirs(md)
    if cfg is None:
        cfg = module + ".cfg"
    cfgpath = os.path.join(SPEC, cfg) if "\n" not in cfg else None
    if cfgpath is None or consts:
        text = cfg if cfgpath is None else open(cfgpath).read()
        for k, v in (consts or {}).items():
            text, c = re.subn(r"(?m)^(\s*(?:CONSTANTS?\s+)?%s\s*=).*$" % re.escape(k), lambda m: m.group(1) + " " + str(v), text)
            if not c:
                raise ToolError("no constant %s in %s" % (k, cfg))
        cfgpath = os.path.join(md, "run.cfg")
        open(cfgpath, "w").write(text)
    env = dict(ENV)
    if trace:
        env["TRACE"] = trace
    if extra_env:
        env.update(extra_env)
    cmd = ["java", "-Xss32m", "-Xmx" + mem, "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + md]
    if dfs:
        cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cmd += ["-cp", TLA_CP, "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE",
            "-config", cfgpath, module + ".tla"]
    t = time.time()
    out = ctx.path("tlc%d.out" % n)
    with open(out, "w") as f:
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=env, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on " + module)
    r = TlcResult()
    r.viols, r.gen, r.out = [], [], out
    r.states = r.distinct = 0
    ok = False
    tail = []
    with open(out, errors="replace") as f:
        for line in joined(f):
            if line.startswith("<<"):
                m = VIOL.match(line)
                if m:
                    labs = re.findall(r'"([^"]*)"', m.group(3))
                    r.viols.append((int(m.group(1)), int(m.group(2)), labs, m.group(4)))
                    continue
                if gen and line.startswith('<<"GEN"'):
                    r.gen.append(line)
                    continue
            elif line.startswith("Model checking completed. No error"):
                ok = True
            else:
                m = re.match(r"^(\d+) states generated, (\d+) distinct states found, 0 states left", line)
                if m:
                    r.states, r.distinct = int(m.group(1)), int(m.group(2))
            if not line.startswith(("Parsing", "Semantic", "Linting")):
                tail.append(line)
    r.ok = ok and r.states > 0
    r.tail = "\n".join(tail[-40:])[-6000:]
    r.wall = time.time() - t
    ctx.log("TLC %s: %d states, %d distinct, %.1fs" % (module, r.states, r.distinct, r.wall))
    shutil.rmtree(md, ignore_errors=True)
    if not r.ok:
        raise ToolError("TLC failed on %s:\n%s" % (module, r.tail))
    ctx.states += r.distinct
    ctx.transitions += r.states
    return r


def read_lines(path):
    with open(path) as f:
        return f.read().splitlines()


def read_known():
    """known findings: property -> list of (signature, text)"""
    res = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"^known: property=(\S+) sig=(\S+) (.*)$", l.strip())
            if m:
                res.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
    return res


def finish(ctx, level="model_checking", assumptions=None, exhaustive=None):
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    cov = {
        "states": ctx.states, "transitions": ctx.transitions,
        "traces_validated_against_impl": ctx.traces,
        "events_validated": ctx.events,
        "canary_traces_rejected": ctx.canaries,
        "samples": ctx.samples[:6] or ["(none)"],
    }
    if exhaustive is not None:
        cov["exhaustive"] = exhaustive
    cov.update(ctx.notes)
    if ctx.other:
        cov["violations_of_other_properties_seen"] = ctx.other
    ev = {
        "property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level,
        "coverage": cov, "assumptions": assumptions or [],
        "wall_s": round(time.time() - ctx.t0, 2), "violations": len(ctx.viols),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(ctx.work, ignore_errors=True)
    known = read_known().get(ctx.prop, [])
    new = []
    for label, rep in ctx.viols:
        sig = label + "/" + str(rep.get("sig", ""))
        hit = [t for s, t in known if s == sig]
        if not hit:
            new.append((label, rep))
    for s, t in known:
        if any(l + "/" + str(r.get("sig", "")) == s for l, r in ctx.viols):
            print("KNOWN-FINDING: property=%s %s" % (ctx.prop, t))
    # the shortest violations first
    new.sort(key=lambda x: len(json.dumps(x[1])))
    for k, (label, rep) in enumerate(new[:3]):
        path = os.path.join(VERIF, "replays", "%s-%d.json" % (ctx.prop, k))
        with open(path, "w") as f:
            json.dump({"property": ctx.prop, "label": label, **rep}, f, indent=1)
        print("%s: %s" % (label, json.dumps(rep)[:1500]))
        print("VIOLATION property=%s replay=%s" % (ctx.prop, path))
    if new:
        print("%d violations of %s" % (len(new), ctx.prop))
    sys.stdout.flush()
    return 1 if new else 0
