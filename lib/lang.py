"""The language: programs generated from the specification's grammar, run by the engine, judged by OgmaTrace."""
import collections, json, os, re, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import ogen
from vlib import *

INFER = ("Type", "Semantics", "Internal")


def lenient(D, e, msg=""):
    """does the program use definitions whose (parameter) types have to be inferred? Inference is documented to be
    limited, so such programs may be refused (and, as ambiguous, those which call any definition); how often is bounded"""
    names = [d["n"] for d in D["d"]]
    hit = []
    def see(b):
        for d in D["d"]:
            if d["n"] == b["o"]:
                hit.append(1)
    ogen.walk(e, see)
    return bool(hit) and (msg.startswith("ambiguous inference") or len(set(names)) < len(names) or any(p["k"] == "expr" or not p["ty"] for d in D["d"] for p in d["p"]))


class Session:
    """collects operations for the engine's executor together with what the specification needs to judge them"""
    def __init__(self, rng, plain=False):
        self.rng, self.plain = rng, plain
        self.ops, self.recs = [], []
        self.D = {"d": [], "t": []}
        self.n = 0

    def op(self, o, rec=None):
        self.ops.append(o)
        self.recs.append(rec)

    def new(self, D=None):
        self.D = D or {"d": [], "t": []}
        self.op({"op": "new"})
        for t in self.D["t"]:
            self.op({"op": "def", "src": ogen.render_type(t)}, "def")
        for d in self.D["d"]:
            self.op({"op": "def", "src": ogen.render_def(self.rng, d, self.plain)}, "def")

    def run(self, v, e, typify=False, twice=False, src=None, kind=""):
        src = src or ogen.render(self.rng, e, self.plain)
        rec = {"id": self.n, "in": v, "ast": e, "D": self.D, "src": src, "kind": kind}
        self.n += 1
        self.op({"op": "run", "src": src, "in": v, "id": rec["id"]}, rec)
        if twice:
            self.op({"op": "run", "src": src, "in": v, "id": rec["id"]}, ("again", rec))
        if typify:
            self.op({"op": "run", "src": "typify { " + src + " }", "in": v, "id": rec["id"]}, ("type", rec))
        return rec


def history(ops, i):
    """the operations that lead to operation i"""
    j = i
    while j and ops[j]["op"] != "new":
        j -= 1
    return [o for o in ops[j:i + 1] if o["op"] != "run"] + ([ops[i]] if ops[i]["op"] == "run" else [])


STALL = 12      # seconds without an answer. The compiler's inference is exponential in what it has to try: see DESIGN.md


def supervise(binary, ops, script, out):
    """one process over the operations -> (replies, exit code or None if it stalled, its messages)"""
    write_lines(script, [json.dumps(o) for o in ops])
    with open(script + ".err", "w+") as err:
        p = subprocess.Popen([binary, "lang", script, out], stdout=err, stderr=err)
        size, since = -1, time.time()
        while True:
            try:
                rc = p.wait(0.05 if time.time() - since < 1 else 0.5)
                break
            except subprocess.TimeoutExpired:
                z = os.path.getsize(out) if os.path.exists(out) else 0
                if z != size:
                    size, since = z, time.time()
                elif time.time() - since > STALL:
                    p.kill()
                    p.wait()
                    rc = None
                    break
        err.seek(0)
        txt = err.read()[-2000:]
    outs = []
    for l in (open(out, errors="replace").read().split("\n") if os.path.exists(out) else []):
        try:
            outs.append(json.loads(l))
        except ValueError:
            break       # the end, or a line cut short
    for f in (script, out, script + ".err"):
        if os.path.exists(f):
            os.remove(f)
    return outs, rc, txt


def execute(chk, bins, s, name, lanes=8, slow_ok=3):
    """runs the operations, whole sessions in parallel; a run that dies is a violation, as are more than a few programs
    without an answer (reply "slow")"""
    starts = [i for i, o in enumerate(s.ops) if o["op"] == "new"] or [0]
    lanes = min(lanes, len(starts))
    bounds = [starts[len(starts) * k // lanes] for k in range(lanes)] + [len(s.ops)]
    binary = os.path.join(bins, "engine")

    def go(k):
        """-> replies, slow ones, and (operation, messages) if the engine died"""
        i, j = bounds[k], bounds[k + 1]
        got, slow = [], []
        while True:
            at = i + len(got)
            pre = history(s.ops, at)[:-1] if got else []
            outs, rc, txt = supervise(binary, pre + s.ops[at:j], chk.path(f"{name}.{k}.script"), chk.path(f"{name}.{k}.out"))
            got += outs[len(pre):]
            if rc == 0 and len(got) == j - i:
                return got, slow, None
            bad = i + len(got)
            if rc is not None or bad >= j or s.ops[bad]["op"] != "run" or len(slow) >= slow_ok:
                return got, slow, (min(bad, j - 1), txt if rc is not None else None)
            slow.append(bad)
            got.append({"r": "slow", "stage": "compile"})
            if len(got) == j - i:
                return got, slow, None
    all_, slow = [], []
    with ThreadPoolExecutor(lanes) as ex:
        for outs, sl, dead in ex.map(go, range(lanes)):
            slow += sl
            if dead:
                i, txt = dead
                chk.violation(name, f"the engine {'hangs on' if txt is None else 'dies of'}: {s.ops[i].get('src', s.ops[i])}",
                              ops=history(s.ops, i), output=(txt or "")[-800:])
                return None
            all_ += outs
    for i in slow:
        log(f"   no answer in {STALL} s: {s.ops[i]['src']}")
    if len(slow) > slow_ok:
        chk.violation(name, f"no answers to {len(slow)} programs, as: {s.ops[slow[0]]['src']}", ops=history(s.ops, slow[0]))
        return None
    chk.cov["programs_without_an_answer"] = chk.cov.get("programs_without_an_answer", 0) + len(slow)
    top = max(range(len(all_)), key=lambda i: all_[i].get("us", 0))
    chk.cov["slowest_operation_s"] = max(chk.cov.get("slowest_operation_s", 0), round(all_[top].get("us", 0) / 1e6, 2))
    chk.slow = (all_[top].get("us", 0), s.ops[top])
    return all_


def judge(chk, s, outs, name, lanes=8, strict_rate=0.02):
    """the recorded results against OgmaTrace; returns the verdict counter"""
    tr, info, again = [], {}, []
    for i, (o, r, q) in enumerate(zip(s.ops, s.recs, outs)):
        if r is None:
            continue
        if r == "def":
            if q["r"] != "ok":
                chk.violation(name, f"a correct definition is refused: {o['src']} -> {json.dumps(q)[:300]}",
                              ops=history(s.ops, i))
            continue
        if isinstance(r, tuple):
            what, r0 = r
            if "slow" in (q["r"], info.get(r0["id"], (0, {"r": "slow"}))[1]["r"]):
                continue
            i0, q0 = info[r0["id"]]
            if what == "again":
                strip = lambda x: {k: v for k, v in x.items() if k not in ("id", "e", "us")}
                if strip(q) != strip(q0):
                    chk.violation(name, f"two evaluations differ: {o['src']}", ops=history(s.ops, i), first=q0, second=q)
            elif what == "type" and q["r"] == "ok":
                t = "".join(map(chr, q["v"]["s"]))
                r0["rec"]["ty"] = t[t.rfind("}:") + 2:]
            elif what == "type" and q["r"] == "panic":
                chk.violation(name, f"typify panics: {o['src']}", ops=history(s.ops, i), got=q)
            continue
        if q["r"] == "slow":
            continue
        x = {"id": r["id"], "ast": r["ast"], "D": r["D"], "in": r["in"], "r": q["r"], "ty": "", "inf": False}
        if "stage" in q:
            x["stage"] = q["stage"]
        if "v" in q:
            x["v"] = q["v"]
        if not q.get("same", True):
            chk.violation(f"{name}-{r['id']}", f"evaluating changed its input: {o['src']}", ops=history(s.ops, i), got=q)
        if q["r"] == "err" and q["stage"] == "compile" and q["e"]["cat"] in INFER and lenient(r["D"], r["ast"], q["e"]["desc"]):
            x["inf"] = True
        r["rec"] = x
        info[r["id"]] = (i, q)
        tr.append(x)
    chunks = [tr[k::lanes] for k in range(lanes)]

    def go(k):
        if not chunks[k]:
            return ""
        p = chk.path(f"{name}.{k}.ndjson")
        write_lines(p, [json.dumps(x) for x in chunks[k]])
        r = tlc("OgmaTrace", env={"TRACE": p}, must_pass=False, outdir=chk.path("tlc"))
        if not re.search(r'<<"TRACE", %d, %d>>' % (len(chunks[k]), len(chunks[k])), r.out):
            log(r.out[-3000:])
            raise ToolError(f"judging {p} failed")
        os.remove(p)
        return r.out
    cnt, bad = collections.Counter(), []
    with ThreadPoolExecutor(lanes) as ex:
        for out in ex.map(go, range(lanes)):
            for m in re.finditer(r'^<<"(V|BAD)", (\d+), "([^"]*)"(?:, "(.*)")?>>$', out, re.M):
                cnt[m[3]] += 1
                if m[1] == "BAD":
                    bad.append((int(m[2]), m[3], m[4]))
    if sum(cnt.values()) != len(tr):
        raise ToolError(f"{len(tr)} records, {sum(cnt.values())} verdicts")
    if "SPEC-UNSOUND" in cnt:
        raise ToolError(f"the specification contradicts itself on record {[b for b in bad if b[1] == 'SPEC-UNSOUND'][0]}")
    rec = {r["id"]: r for r in s.recs if isinstance(r, dict)}
    for b in sorted(bad, key=lambda b: len(rec[b[0]]["src"]))[:3]:
        i, q = info[b[0]]
        o = s.ops[i]
        chk.violation(f"{name}-{b[0]}", f"{b[1]}: {o['src']} on {json.dumps(o['in'])[:200]} gave {json.dumps({k: v for k, v in q.items() if k != 'id'})[:300]}",
                      expected=b[2], got=q, ops=history(s.ops, i), kind=rec[b[0]]["kind"], ident=b[1] + " " + o["src"])
    if cnt["uninferred"] > 3 + strict_rate * len(tr):
        i, q = next((i, q) for i, q in info.values() if q.get("stage") == "compile")
        chk.violation(name, f"{cnt['uninferred']} of {len(tr)} well typed calls are refused", ops=history(s.ops, i), got=q)
    chk.add(programs=len(tr), definitions=sum(1 for r in s.recs if r == "def"),
            **{"verdict_" + k.replace("-", "_"): v for k, v in cnt.items()})
    chk.add(traces_validated_against_impl=len(tr))
    return cnt
