"""C28, C29: Batch.tla bound to the processing of batches."""
import itertools, json, tempfile, shutil
import ogen
from judged import *

TYPES = "ABCDE"
CMDS = "fgh"
PRE = {"t": ["P"], "i": {"pre": 1}}


def it(k, op="", n="", a=0, need=(), src="", fifo=None):
    return {"k": k, "op": op, "n": n, "a": a, "need": list(need), "src": src, "fifo": fifo}


def ty(n, need=()):
    return it("ty", n=n, need=need, src=f"def-ty {n} :: Z" + "".join(f" | Y{k} {{ v:{x} }}" for k, x in enumerate(need)))


def im(n, a):
    return it("im", n=n, a=a, src=f"def {n} ({' '.join(f'p{k}:Num' for k in range(a))}) {{ \\ 1 }}")


def call(n, a):
    return it("ex", "call", n, a, src=" ".join([n] + ["1"] * a))


def con(n):
    return it("ex", "con", n, src=f"{n}::Z")


NO = "range 0 3 | nth 9 {get i --Num}"
OK, FAILS, BAD = it("ex", "ok", src="\\ 1"), it("ex", "no", src=NO), it("ex", "bad", src="\\ 1 | }")


def wait(name):
    return it("ex", "wait", src=f"open --Str {name} | if {{= 'ok'}} 1 {{{NO}}}", fifo=name)


SMALL = [ty("A"), ty("B", ["A"]), im("f", 1), im("f", 0), im("get", 0), OK, FAILS, BAD, call("f", 1), con("B")]


def item(rng, fifo, heavy, progs):
    r = rng.random()
    if r < 0.17:
        return ty(rng.choice(TYPES), rng.sample(TYPES + "P", rng.choice([0, 0, 0, 1, 2])))
    if r < 0.30:
        return im(rng.choice(CMDS), rng.choice([0, 1, 2])) if rng.random() < 0.85 else im(rng.choice(["ls", "let", "get"]), 0)
    if r < 0.30 + heavy:
        return wait(fifo())
    if r < 0.42 + heavy:
        return call(rng.choice(CMDS + "z") if rng.random() < 0.8 else "pre", rng.choice([0, 1, 1, 2]))
    if r < 0.55 + heavy:
        return con(rng.choice(TYPES + "P"))
    if progs and r < 0.75:
        return rng.choice(progs)
    return rng.choice([OK, OK, OK, OK, FAILS, BAD])


def source(b):
    heads = [x for x, on in (("no-parallelise", not b["par"]), ("fail-fast", b["ff"])) if on]
    return (f"[{' '.join(heads)}]\n\n" if heads else "") + "\n\n".join(i["src"] for i in b["items"]) + "\n"


def programs(chk, bins, n):
    """expressions with the outcome they have on their own"""
    rng = chk.rng
    srcs = []
    while len(srcs) < n:
        g = ogen.Gen(rng, {"d": [], "t": []}, err=0.15)
        for _ in range(20):
            v, e = g.program(fuel=2, maxlen=3)
            if v["t"] == "Nil":
                s = ogen.render(rng, e)
                if not re.search(r"\n\s*\n|\n\s*#", s) and not s.startswith(("#", "[")):
                    srcs.append(s)
    outs = []
    for k in range(0, len(srcs), 40):   # (a program the compiler is not done with loses its neighbours)
        part = srcs[k:k + 40]
        s, o = chk.path("alone.script"), chk.path("alone.out")
        write_lines(s, [json.dumps({"op": "new"})] + [json.dumps({"op": "run", "src": x, "in": {"t": "Nil"}, "quiet": True}) for x in part])
        try:
            subprocess.run([os.path.join(bins, "engine"), "lang", s, o], timeout=10, capture_output=True)
        except subprocess.TimeoutExpired:
            pass
        for x, l in zip(part, open(o).read().splitlines()[1:]):
            try:
                q = json.loads(l)
            except ValueError:
                break
            if q["r"] in ("ok", "err") and q["us"] < 50000:
                outs.append(it("ex", "ok" if q["r"] == "ok" else "no", src=x))
    chk.add(expressions_run_alone=len(outs))
    return outs


def batches(chk, pid, progs):
    rng = chk.rng
    small = []
    for n in range(3):
        small += itertools.product(SMALL, repeat=n)
    three = list(itertools.product(SMALL, repeat=3))
    small += three if THOROUGH else rng.sample(three, 400)
    for its in small:
        for ff in ((False, True) if pid == "C29" else (False,)):
            yield dict(items=[dict(i) for i in its], par=rng.random() < 0.5, ff=ff, pool=rng.choice([1, 2]), moves=[], rest=[True], pre=rng.random() < 0.3)
    cnt = itertools.count()
    fifo = lambda: f"w{next(cnt)}"
    for k in range(4000 if THOROUGH else 360):
        ff = pid == "C29" and rng.random() < 0.6
        n = rng.choice([3, 6, 10, 20, 40])
        heavy = 0.0 if n > 20 else rng.choice([0.0, 0.2, 0.4])
        items = [item(rng, fifo, heavy, progs) for _ in range(n)]
        waits = sum(1 for i in items if i["fifo"])
        moves = []
        p = rng.choice([0.1, 0.3, 0.6])
        for _ in range(rng.randint(0, waits + 1)):
            r = rng.random()
            moves.append({"m": "settle", "ms": rng.choice([5, 40])} if r < 0.3 else {"m": "rel", "k": rng.randrange(8), "ok": rng.random() > p})
        if pid == "C29" and rng.random() < (0.5 if ff else 0.9):
            moves.insert(rng.randint(0, len(moves)), {"m": "cancel"})
        b = dict(items=items, par=rng.random() < 0.7, ff=ff, pool=rng.choice([1, 2, 3, 8]), moves=moves, rest=[rng.random() > p for _ in range(5)], pre=rng.random() < 0.5)
        if rng.random() < 0.3:
            b["perm"] = True
        yield b


def check(pid):
    chk = Check(pid, "model_checking")
    bins = build("engine")
    rng = chk.rng
    n = 3 if THOROUGH else 2
    r = tlc("BatchMC", env={"LEN": str(n)}, workers=8, outdir=chk.path("tlc"), heap="8g", timeout=3000 if THOROUGH else 300)
    chk.model(r, f"batches of up to {n} items")
    progs = programs(chk, bins, 4000 if THOROUGH else 400) if pid == "C28" else []
    bs = list(batches(chk, pid, progs))
    root = tempfile.mkdtemp(prefix="batch")
    ops, groups, where = [], [], []
    last = None
    for k, b in enumerate(bs):
        names = [i["fifo"] for i in b["items"] if i["fifo"]]
        for f in names:
            os.mkfifo(os.path.join(root, f))
        if k % 20 == 0 or b["pre"] != last:
            last = b["pre"]
            groups.append(len(ops))
            ops += [{"op": "new"}, {"op": "root", "root": root, "wd": "."}]
            if last:
                ops += [{"op": "def", "src": "def-ty P :: Z"}, {"op": "def", "src": "def pre (x:Num) { \\ 1 }"}]
        order = sorted(b["items"], key=lambda i: "ty im ex".split().index(i["k"]))   # as the reader of files lists them
        o = {"op": "batch", "src": source(b), "pool": b["pool"], "fifos": names, "moves": b["moves"], "rest": b["rest"]}
        if b.get("perm"):
            o["perm"] = rng.sample(range(len(order)), len(order))
            order = [order[i] for i in o["perm"]]
        b["order"] = order
        where.append(len(ops))
        ops.append(o)
    try:
        outs = engine(chk, bins, ops, "batches", lanes=16, groups=groups, timeout=700 if not THOROUGH else 7000)
    finally:
        shutil.rmtree(root)
    if outs is None:
        return chk.finish()
    lanes = 8
    lines = [[] for _ in range(lanes)]
    ends = collections.Counter()
    for k, (b, w) in enumerate(zip(bs, where)):
        q = outs[w]
        if q["r"] != "ok" or q["log"][-1]["e"] == "panic":
            chk.violation(f"batch-{k}", f"a batch ends in {q['r'] if q['r'] != 'ok' else 'a panic'}", src=ops[w]["src"], log=q.get("log"), reply=str(q)[:500])
            continue
        order = b["order"]
        if [(i["k"], i["src"].strip()) for i in order] != [(i["k"], i["code"].strip()) for i in q["items"]]:
            chk.violation(f"batch-{k}", "the items of a batch are not those of its file", src=ops[w]["src"], items=q["items"])
            continue
        at = {f: next(j + 1 for j, i in enumerate(order) if i["fifo"] == f) for f in ops[w]["fifos"]}
        out = []
        for e in q["log"]:
            e = dict(e)
            if e["e"] == "begin":
                e.update(op="begin", items=[{x: i[x] for x in ("k", "op", "n", "a", "need")} for i in order], pool=b["pool"], ff=e["ff"],
                         ts=["P"] if b["pre"] else [], **{"is": [{"n": "pre", "a": 1}] if b["pre"] else []})
                e["will"] = [j + 1 for j, o in enumerate(q["log"][-1]["v"]) if o in "SF"]
                e["asked"] = [b["par"], b["ff"]]
            elif e["e"] in ("start", "rel"):
                e["i"] = at[ops[w]["fifos"][e["i"]]]
            elif e["e"] == "end":
                e["same"] = q["same"]
                for s in e["v"]:
                    ends[s] += 1
            out.append(json.dumps(e))
        lines[k % lanes] += out

    def go(k):
        p = chk.path(f"batch.{k}.ndjson")
        write_lines(p, lines[k])
        validate(chk, "BatchTrace", p, name=f"batches-{k}", what="recorded batch", group=len(bs) // lanes, starts="begin", timeout=700)
    with ThreadPoolExecutor(lanes) as ex:
        list(ex.map(go, range(lanes)))
    chk.add(batches=len(bs), items=sum(len(b["items"]) for b in bs), waiting_items=sum(1 for b in bs for i in b["items"] if i["fifo"]),
            cancelled_batches=sum(1 for b in bs if any(m["m"] == "cancel" for m in b["moves"])), **{"outcome_" + s: c for s, c in ends.items()})
    chk.cov["samples"] = [source(b) for b in bs[-3:]]
    log(f"{pid}: {len(bs)} batches {dict(ends)}")
    return chk.finish()
