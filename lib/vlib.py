"""Common machinery of the checks: build, TLC, traces, evidence, verdicts."""
import collections, hashlib, json, os, random, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(ROOT, "specs")
REPO = "/repo"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"


class ToolError(Exception):
    """the check could not be carried out (exit 2): never a verdict about the code"""


def log(*a):
    print(*a, flush=True)


def build(crate, bins=None, timeout=850, env=None):
    """cargo build of /verif/harness/<crate> against /repo's working tree -> target directory"""
    d = os.path.join(ROOT, "harness", crate)
    tgt = os.path.join(ROOT, "target", crate)
    e = dict(os.environ, CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
    e["PATH"] = "/root/.cargo/bin:" + e["PATH"]
    e.pop("RUSTC_WRAPPER", None)
    e.update(env or {})
    t0 = time.time()
    p = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=d, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        log(p.stdout[-6000:])
        raise ToolError(f"harness {crate} does not build")
    log(f"built harness {crate} in {time.time()-t0:.1f} s")
    return os.path.join(tgt, "debug")


TlcResult = collections.namedtuple("TlcResult", "ok out states distinct depth seconds printed")


def tlc(module, cfg=None, env=None, workers=1, timeout=800, extra=(), heap="4g", must_pass=True, outdir=None,
        queue=None):
    cfg = cfg or module + ".cfg"
    outdir = outdir or os.path.join(ROOT, "out", "tlc")
    os.makedirs(outdir, exist_ok=True)
    meta = os.path.join(outdir, f"meta-{os.getpid()}-{module}-{time.time_ns()}")
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss512m"]
    if queue:
        cmd.append(f"-Dtlc2.tool.queue.IStateQueue={queue}")
    cmd += ["-cp", CP, "tlc2.TLC", "-config", cfg, "-metadir", meta, "-workers", str(workers),
            "-noGenerateSpecTE", *extra, module + ".tla"]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPECS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC on {module}/{cfg} did not finish in {timeout} s")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    states, distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    m = re.findall(r"depth of the complete state graph search is (\d+)", out)
    depth = int(m[-1]) if m else 0
    ok = "Model checking completed. No error has been found." in out or (
        "-simulate" in extra and p.returncode == 0)
    printed = [l for l in out.splitlines() if l.startswith("<<") or l.startswith('"')]
    r = TlcResult(ok, out, states, distinct, depth, time.time() - t0, printed)
    if must_pass and not ok:
        log(out[-4000:])
        raise ToolError(f"TLC rejects the specification {module}/{cfg} itself (exit {p.returncode})")
    return r


def transitions(module, cfg, **kw):
    """The transitions TLC generates, printed as JSON by the ACTION_CONSTRAINT of `cfg`."""
    r = tlc(module, cfg, workers=1, **kw)
    ts = []
    for l in r.out.splitlines():
        if l.startswith('"{') or l.startswith('"['):
            ts.append(json.loads(json.loads(l)))
    return ts, r


def tour(ts, init, key_from, key_to, rng, limit=None):
    """A walk over the transition graph that takes every transition (greedy, nearest first).
    Yields transitions; None means: start again from the initial state."""
    out = collections.defaultdict(list)
    for i, t in enumerate(ts):
        out[key_from(t)].append(i)
    for v in out.values():
        rng.shuffle(v)
    left = {k: list(v) for k, v in out.items()}
    todo = len(ts)
    cur = init
    steps = 0
    while todo:
        if left.get(cur):
            i = left[cur].pop()
            todo -= 1
            yield ts[i]
            steps += 1
            cur = key_to(ts[i])
            continue
        # nearest state with something left
        prev = {cur: None}
        q = collections.deque([cur])
        goal = None
        while q:
            x = q.popleft()
            if left.get(x):
                goal = x
                break
            for i in out.get(x, ()):
                y = key_to(ts[i])
                if y not in prev:
                    prev[y] = (x, i)
                    q.append(y)
        if goal is None:
            if cur == init:
                break  # unreachable from init: not a transition of a reachable state
            yield None
            cur = init
            continue
        path = []
        x = goal
        while prev[x]:
            path.append(prev[x][1])
            x = prev[x][0]
        for i in reversed(path):
            yield ts[i]
            steps += 1
        cur = goal
        if limit and steps > limit:
            return


class Check:
    def __init__(self, pid, level):
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.cov = {}
        self.assumptions = []
        self.dir = os.path.join(ROOT, "out", pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir, exist_ok=True)
        self.violations = []
        self.known = load_known(pid)
        self.known_hit = []
        self.rng = random.Random(f"{pid}-{SEED}")

    def path(self, name):
        return os.path.join(self.dir, name)

    def add(self, **kw):
        for k, v in kw.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                self.cov[k] = self.cov.get(k, 0) + v
            elif isinstance(v, list):
                self.cov.setdefault(k, []).extend(v)
            else:
                self.cov[k] = v

    def model(self, r, what):
        """account for a model checking run of the specification"""
        self.add(states=r.distinct, transitions=r.states)
        log(f"{self.pid}: {what}: {r.distinct} states, {r.states} transitions, depth {r.depth}, {r.seconds:.1f} s")

    def violation(self, name, what, **detail):
        """a violation, unless it is a known finding (matched by its identifying string)"""
        ident = detail.get("ident", what)
        for k in self.known:
            if k["match"] in ident:
                if k not in self.known_hit:
                    self.known_hit.append(k)
                return
        p = self.path(name + ".json")
        with open(p, "w") as f:
            json.dump(dict(property=self.pid, what=what, seed=SEED, tier=TIER, **detail), f, indent=1, ensure_ascii=True)
        self.violations.append((p, what))
        log(f"{self.pid}: {what}")

    def finish(self):
        wall = time.time() - self.t0
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        ev = dict(property=self.pid, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED,
                  level=self.level, coverage=self.cov, assumptions=self.assumptions, wall_s=round(wall, 2),
                  violations=len(self.violations))
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
        for k in self.known_hit:
            log(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        for k in self.known:
            if k not in self.known_hit:
                log(f"note: known finding not met in this run: {k['what']}")
        if self.violations:
            p, what = self.violations[0]
            log(f"VIOLATION property={self.pid} replay={p}")
            return 1
        log(f"{self.pid}: held on everything explored ({wall:.1f} s)")
        return 0


def load_known(pid):
    """known_findings.json: {"findings": [{"property", "match", "what"}], "fixed": [...]}; fixed ones suppress nothing"""
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    d = json.load(open(p))
    return [k for k in d.get("findings", []) if k["property"] == pid]


def run_exec(binary, args, timeout=600, env=None, cwd=None, ok_codes=(0,)):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run([binary, *args], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout, env=e, cwd=cwd, errors="replace")
    except subprocess.TimeoutExpired:
        return None, "timeout"
    return p.returncode, p.stdout


def write_lines(path, lines):
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")


def read_lines(path):
    with open(path) as f:
        return f.read().splitlines()


def validate(chk, module, trace_path, cfg=None, name="trace", what="recorded history", group=None, starts="new",
             heap="4g", timeout=600, register=False, env=None, queue=None):
    """Check a recorded trace against its trace specification. Returns number of accepted events.
    The first line that no behaviour of the specification explains is a violation."""
    lines = read_lines(trace_path)
    n = len(lines)
    e = {"TRACE": trace_path}
    e.update(env or {})
    r = tlc(module, cfg, env=e, must_pass=False, heap=heap, timeout=timeout, outdir=chk.path("tlc"), queue=queue)
    m = re.findall(r'<<"TRACE", (-?\d+), (\d+)>>', r.out)
    accepted = int(m[-1][0]) if m else None
    if r.ok and accepted is not None and accepted >= n:
        chk.add(traces_validated_against_impl=(group or 1))
        chk.add(events_validated=n)
        return n
    prop_broken = re.search(r"Error: (Invariant|Action property|Temporal properties|Action constraint) ?(\S*) ?(is|was|were) violated", r.out)
    if not r.ok and accepted is None and not prop_broken:
        log(r.out[-5000:])
        raise ToolError(f"trace validation of {trace_path} by {module} failed")
    if accepted is None:  # an invariant broke while following the trace
        accepted = max(0, len(re.findall(r"^State \d+", r.out, re.M)) - 2)
    bad = min(accepted, n - 1)
    first = bad
    while first > 0 and json.loads(lines[first]).get("op") != starts:
        first -= 1
    hist = [json.loads(x) for x in lines[first:bad + 1]]
    msg = f"{what}: event {bad + 1} of {n} is not a behaviour of the specification {module}"
    if prop_broken:
        msg += f" ({prop_broken.group(0)})"
    log("rejected event:", lines[bad][:600])
    chk.violation(name, msg, event=json.loads(lines[bad]), history=hist[-400:], ident=lines[bad],
                  trace=trace_path, spec=module)
    return accepted
