"""C20-C22, C24-C27: the language. Ogma.tla gives every program a type and a value; programs are generated from its
grammar (exhaustively for small ones, OgmaGen.tla; at random beyond), run by the real engine, and judged by OgmaTrace."""
import copy, itertools
import lang, ogen
from ogen import *
from vlib import *

FULL = ["append", "append-row", "dedup", "filter", "filter", "filtercol", "filtercols", "grp", "grp-by", "map", "map",
        "pick", "ren", "ren-with", "rev", "skip", "sort", "sort-by", "take", "+", "+cols", "skip-hdrs", "mapforce",
        "fold", "fold-while", "nth", "last", "len"]


def scale(q, t):
    return t if THOROUGH else q


def mixed(chk, focus, n, lib=0, mut=0.0, err=0.06, plain=False, per=40, **kw):
    """n random programs; every `per` of them share a set of definitions"""
    rng = chk.rng
    s = lang.Session(rng)
    while s.n < n:
        g = ogen.Gen(rng, {"d": [], "t": []}, err=err, focus=focus)
        if lib:
            g.library(rng.randint(1, lib), plain=plain)
        s.new(g.D)
        for _ in range(per):
            v, e = g.program(**kw)
            if rng.random() < mut:
                e = ogen.mutate(rng, e)
            s.run(v, e, kind="random")
    return s


def c20(chk):
    rng = chk.rng
    s = lang.Session(rng)
    while s.n < scale(6000, 120000):
        g = ogen.Gen(rng, {"d": [], "t": []})
        s.new(g.D)
        for _ in range(50):
            v, e = g.program(fuel=rng.choice([1, 2, 3, 3, 4]), maxlen=rng.choice([2, 4, 8]))
            # the same program written in two ways, each evaluated twice
            s.run(v, e, src=ogen.render(rng, e, plain=True), kind="plain spelling")
            s.run(v, e, twice=rng.random() < 0.3, kind="random spelling")
    yield "programs", s


def c21(chk):
    f = {"if": 8, "logic": 8, "risky": 0.45, "let": 1}
    yield "branches", mixed(chk, f, scale(7000, 140000))
    yield "branches-in-rows", mixed(chk, dict(f, tab=["filter", "map", "mapforce", "fold", "append", "nth", "sort-by"]), scale(3000, 60000))
    yield "branches-in-definitions", mixed(chk, f, scale(2000, 40000), lib=3, per=10)


def c22(chk):
    f = {"let": 10, "if": 1, "tab": ["filter", "map", "mapforce", "fold", "fold-while", "append", "nth"]}
    yield "scopes", mixed(chk, f, scale(6000, 120000), maxlen=7)
    # a variable read where it may not be bound
    rng = chk.rng
    s = lang.Session(rng)
    while s.n < scale(4000, 80000):
        g = ogen.Gen(rng, {"d": [], "t": []}, focus=f)
        if rng.random() < 0.4:
            g.library(rng.randint(1, 3), types=False)
        s.new(g.D)
        for _ in range(20):
            v, e = g.program(fuel=2, maxlen=5)
            names = set()
            def see(b):
                names.update(a["x"] for a in b["a"] if a["k"] == "v")
            ogen.walk(e, see)
            names = sorted(names | {"row", "x", "nope"})
            spots = []
            def spot(b):
                for i, a in enumerate(b["a"]):
                    if a["k"] in ("v", "n", "s") and not (b["o"] == "let" and (i % 2 or i == len(b["a"]) - 1)) and b["o"] not in (".", "get"):
                        spots.append((b, i))
            e = copy.deepcopy(e)
            ogen.walk(e, spot)
            if spots and rng.random() < 0.8:
                b, i = rng.choice(spots)
                b["a"][i] = v_(rng.choice(names))
            s.run(v, e, kind="moved variable")
    yield "unbound", s
    yield "scopes-in-definitions", mixed(chk, f, scale(2000, 40000), lib=4, per=8)


def c24(chk):
    f = {"call": 12}
    yield "calls", mixed(chk, f, scale(5000, 100000), lib=4, plain=True, per=10)
    yield "calls-with-expressions", mixed(chk, f, scale(4000, 80000), lib=4, per=10)
    yield "wrong-calls", mixed(chk, dict(f, tab=["fold", "map"]), scale(3000, 60000), lib=4, plain=True, mut=0.7, per=10, fuel=2, maxlen=3)


def annotated(rng, e, right):
    """the program with annotations added: true ones, or one false one"""
    e = copy.deepcopy(e)
    bs = []
    ogen.walk(e, bs.append)
    ok = [b for b in bs if b.get("_t") and b["_t"][0] != "Tup" and b["o"] not in (".", "let") and not b["ty"] and not b["an"]]
    if not ok:
        return None
    if right:
        for b in ok:
            if rng.random() < 0.5:
                b["an"] = b["_t"]
    else:
        b = rng.choice(ok)
        b["an"] = rng.choice([t for t in (NUM, STR, BOOL, TAB, NIL, ROW) if t != b["_t"]])
    return e


def c25(chk):
    rng = chk.rng
    s = lang.Session(rng)
    while s.n < scale(7000, 140000):
        g = ogen.Gen(rng, {"d": [], "t": []}, err=0.01)
        if rng.random() < 0.3:
            g.library(rng.randint(1, 3), plain=True)
        s.new(g.D)
        for _ in range(20):
            v, e = g.program()
            s.run(v, e, typify=True, kind="as generated")
            for right in (True, False):
                a = annotated(rng, e, right)
                if a:
                    s.run(v, a, typify=right, kind="right annotations" if right else "a wrong annotation")
    yield "annotations", s
    yield "ill-typed", mixed(chk, {}, scale(5000, 100000), mut=0.8, fuel=2, maxlen=3)


def bigtable(rng, n):
    keys = [rng.randrange(0, 40) for _ in range(n)]
    ss = ["", "a", "b", "né", "zz", "x y"]
    rows = [[{"t": "Str", "s": cps(c)} for c in ("a", "b", "c")]]
    for i in range(n):
        rows.append([{"t": "Num", "n": keys[i], "d": 1}, {"t": "Num", "n": i, "d": 1}, {"t": "Str", "s": cps(rng.choice(ss))}])
    return {"t": "Tab", "r": rows}, [("a", NUM), ("b", NUM), ("c", STR)]


def c26(chk):
    f = {"tab": FULL, "let": 1, "logic": 0, "if": 0}
    rng = chk.rng
    s = lang.Session(rng)
    while s.n < scale(6000, 120000):
        g = ogen.Gen(rng, {"d": [], "t": []}, focus=f)
        s.new(g.D)
        s.op({"op": "pool", "n": rng.choice([1, 2, 4, 8])})
        for _ in range(40):
            v, h = g.table(maxrows=rng.choice([3, 6, 12]))
            e, _ = g.pipe((TAB, h), rng.choice([TAB, TAB, TAB, NUM]), {}, 2, maxlen=4)
            s.run(v, e, kind="small table")
    yield "tables", s
    # the same block meets tables of different columns
    s = lang.Session(rng)
    while s.n < scale(2000, 40000):
        g = ogen.Gen(rng, {"d": [], "t": []}, err=0.02, focus=f)
        s.new(g.D)
        for _ in range(40):
            v, h = g.table(maxrows=rng.choice([2, 3, 6]), cols=[("a", NUM), ("b", NUM), ("c", STR)], empty=0)
            env = {"t": (TAB, h)}
            c = rng.choice(["a", "b"])
            k = rng.choice([x["n"] for r in v["r"][1:] for x in [r[0 if c == "a" else 1]] if x["t"] == "Num" and x["d"] == 1] or [0])
            other = rng.choice([[blk("rev", f=["cols"])], [blk("pick", s_("b"), s_("a"), s_("c"))], [blk("pick", s_("c"), f=["trail"])],
                                [blk("append", n_(7)), blk("rev", f=["cols"])], [blk("ren", s_("a"), s_("q"), s_("b"), s_("a"))],
                                [blk("take", n_(1)), blk("rev", f=["cols"])], [blk("take", n_(0)), blk("pick", s_("b"), s_("a"), s_("c"))]])
            br = [e_(blk("\\", v_("t")), *other), e_(blk("\\", v_("t")))]
            rng.shuffle(br)
            inner = [blk("let", v_("n")), blk("if", e_(blk("get", s_(c), ty=NUM), blk(rng.choice(["=", ">", "<="]), n_(k))), *br)]
            w = rng.choice([NUM, NUM, STR, BOOL])
            b, nxt = g.step((TAB, h), dict(env, n=(ROW, h)), 1)
            if b is None:
                continue
            more, _ = g.pipe(nxt, w, dict(env, n=(ROW, h)), 0, maxlen=1) if nxt[0] != w else ([], nxt)
            e = [blk("let", v_("t")), blk("append", e_(*inner, b, *more), nm=[cps("z")])]
            s.run(v, e, kind="tables of different columns")
    yield "wandering-tables", s
    # long tables, where rows are really divided over threads
    s = lang.Session(rng)
    s.new()
    while s.n < scale(240, 4000):
        g = ogen.Gen(rng, {"d": [], "t": []}, err=0.0, focus=dict(f, tab=["append", "dedup", "filter", "filter", "filtercol", "map", "map", "mapforce",
                                                          "sort", "sort-by", "grp", "grp-by", "fold", "rev", "take", "skip", "nth"]))
        v, h = bigtable(rng, rng.choice([65, 130, 300]))
        e, _ = g.pipe((TAB, h), TAB, {}, 1, maxlen=2)
        src = ogen.render(rng, e)
        for n in (1, 8):
            s.op({"op": "pool", "n": n})
            s.run(v, e, src=src, kind=f"long table, {n} threads")
    yield "long-tables", s


def c27(chk):
    """a value is bound, passed and transformed; afterwards every holder is looked at"""
    rng = chk.rng
    s = lang.Session(rng)
    tab = FULL[:23]
    while s.n < scale(7000, 140000):
        g = ogen.Gen(rng, {"d": [], "t": []}, err=0.02, focus={"tab": tab})
        g.level = 1
        if rng.random() < 0.3:
            g.library(2, types=False)
        s.new(g.D)
        for _ in range(20):
            v, h = g.table()
            if rng.random() < 0.25:
                v, h = {"t": "Str", "s": cps(rng.choice(["hello", "né日", "a", ""]))}, None
            ty = TAB if v["t"] == "Tab" else STR
            env = {"t": (ty, h)}
            e = [blk("let", v_("t"))]
            cur = (ty, h)
            for k in range(rng.choice([1, 2, 2, 3])):
                src = rng.choice(sorted(x for x in env if env[x][0] == ty))
                b, nxt = g.step((ty, env[src][1]), dict(env), 1, same=True)
                if b is None or nxt[0] != ty:
                    continue
                e.append(blk("let", e_(blk("\\", v_(src)), b), v_(f"u{k}")))
                env[f"u{k}"] = nxt
                if rng.random() < 0.6:      # transform the value that flows along, too
                    b, nxt = g.step(cur, dict(env), 1, same=True)
                    if b is not None and nxt[0] == ty:
                        e.append(b)
                        cur = nxt
            holders = [v_(x) for x in sorted(env)] + [dict(I_)]
            e.append(blk("Tuple", *holders))
            s.run(v, e, kind="holders")
    yield "holders", s


# program length taken exhaustively: quick, thorough
LEN = {"C20": (3, 3), "C21": (2, 3), "C22": (3, 4), "C24": (2, 3), "C25": (3, 3), "C26": (2, 3), "C27": (3, 4)}


def exhaustive(chk, pid):
    """every program up to a length over the property's vocabulary, from the specification's machine"""
    n = LEN[pid][1 if THOROUGH else 0]
    r = tlc("OgmaGen", env={"VOC": pid, "LEN": str(n)}, workers=8, outdir=chk.path("tlc"), timeout=3000 if THOROUGH else 300, heap="8g")
    chk.model(r, f"language machine, programs up to {n} blocks")
    voc, progs = None, []
    for l in r.out.splitlines():
        if l.startswith('"{'):
            x = json.loads(json.loads(l))
            if "voc" in x:
                voc = x
            else:
                progs.append(x)
    if not voc or len(progs) < r.distinct - len(voc["ins"]):
        raise ToolError(f"{len(progs)} programs from {r.distinct} states")
    rng = chk.rng
    for x in voc["voc"]:        # <<>> is both the empty record set and the empty sequence
        for k in ("a", "f", "ty", "nm", "an"):
            x[k] = x[k] or []
    s = lang.Session(rng)
    progs.sort(key=json.dumps)     # TLC's order depends on its threads
    for i, x in enumerate(progs):
        if i % 200 == 0:
            s.new(voc["D"])
        s.run(voc["ins"][x["i"] - 1], [voc["voc"][j - 1] for j in x["p"]], typify=pid == "C25" and i % 4 == 0, kind="exhaustive")
    chk.cov["exhaustive_length"] = n
    return s


PARTS = {"C20": c20, "C21": c21, "C22": c22, "C24": c24, "C25": c25, "C26": c26, "C27": c27}


def check(pid):
    chk = Check(pid, "model_checking")
    bins = build("engine")
    for name, s in itertools.chain([("exhaustive", exhaustive(chk, pid))], PARTS[pid](chk)):
        t0 = time.time()
        outs = lang.execute(chk, bins, s, name)
        if outs is None:
            break
        t1 = time.time()
        cnt = lang.judge(chk, s, outs, name)
        log(f"{pid}: {name}: {sum(cnt.values())} programs {dict(cnt)}; engine {t1-t0:.1f} s, judging {time.time()-t1:.1f} s")
        log(f"   slowest: {chk.slow[0]/1e6:.2f} s {str(chk.slow[1].get('src'))[:300]}")
        rs = [r["src"] for r in s.recs if isinstance(r, dict)]
        chk.cov.setdefault("samples", []).extend(rs[:3])
        if chk.violations:
            break
    chk.assumptions += ["numbers outside of the dyadic range of Ogma.tla and strings built from them are not compared",
                        "programs come from the generator's grammar (lib/ogen.py), of bounded nesting and length"]
    return chk.finish()
