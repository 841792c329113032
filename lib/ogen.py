"""Random programs of the language, with the abstract syntax that Ogma.tla reads, and their concrete texts.

The generator aims at programs that have a type and mostly a value; it does not decide anything: whether a
program has a type and what its value is, is the specification's business."""
import random

NIL, BOOL, NUM, STR, TAB, ROW, ORD = [["Nil"], ["Bool"], ["Num"], ["Str"], ["Tab"], ["Row"], ["Ord"]]
TYNAME = {"Nil": "Nil", "Bool": "Bool", "Num": "Num", "Str": "Str", "Tab": "Table", "Row": "TableRow", "Ord": "Ord"}


def tyname(t):
    if t[0] == "Tup":
        return "U_" + "-".join(tyname(x) for x in t[1:]) + "_"
    return t[1] if t[0] == "Def" else TYNAME[t[0]]


def cps(s):
    return [ord(c) for c in s]


OPS = set("""append append-row dedup filter fold fold-while grp grp-by map pick ren ren-with rev skip sort sort-by take
get len let nth rand range Table to-str Tuple cmp eq max min and if not or ceil floor is-finite root ls open save
benchmark typify last abs mod empty skip-hdrs in def def-ty""".split())
COLS = ["a", "b", "c", "size", "x y", "né", "len"]
STRS = ["a", "b", "foo", "", "Hello world", "aab", "né", "x|y", "{z}", "0", "日本", "b", "zz", "a'b", "A", "-", "#i", "$q"]
NUMS = [0, 1, 2, 3, 4, 5, 7, 10, 12, -1, -2, -3, 100]
HALF = [(1, 2), (3, 2), (-5, 2), (1, 4), (7, 4), (-3, 8)]


def blk(o, *a, f=(), ty=(), nm=(), an=()):
    return {"o": o, "a": list(a), "f": list(f), "ty": list(ty), "nm": [list(x) for x in nm], "an": list(an)}


def n_(x, d=1):
    return {"k": "n", "n": x, "d": d}


def s_(x):
    return {"k": "s", "s": cps(x)}


def v_(x):
    return {"k": "v", "x": x}


def e_(*bs, an=()):
    return {"k": "e", "e": list(bs), "an": list(an)}


I_ = {"k": "i"}


# ------------------------------------------------------------------------------------------- rendering
class Render:
    def __init__(self, rng, plain=False):
        self.rng = rng
        self.plain = plain

    def coin(self, p=0.5):
        return not self.plain and self.rng.random() < p

    def string(self, s, flag=False):
        bare = s and all(c.isalnum() or c in "-_" for c in s) and s[0].isalpha() and s not in OPS and s.isascii()
        if bare and (self.coin(0.6) or (flag and self.coin(0.9))):
            return s
        q = "'" if '"' in s or ("'" not in s and self.rng.random() < 0.5) else '"'
        return q + s + q

    def num(self, n, d):
        if d == 1:
            return str(n)
        x = n / d
        return repr(x)

    def arg(self, a, last=False):
        k = a["k"]
        if k == "n":
            return self.num(a["n"], a["d"])
        if k == "s":
            return self.string("".join(map(chr, a["s"])))
        if k == "v":
            return "$" + a["x"]
        if k in ("i", "t", "f", "b"):
            return "#" + k
        if k == "nil":
            return "#n"
        if k == "d":
            t = self.arg(a["l"]) + "." + self.string("".join(map(chr, a["f"])))
            return t + (":" + tyname(a["ty"]) if a["ty"] else "")
        if k == "e":
            an = a.get("an") or []
            if last and not an and len(a["e"]) == 1 and not a["e"][0].get("an") and a["e"][0]["o"] not in (".", "let", "bogus") and self.coin(0.5):
                return self.block(a["e"][0])
            sp = " " if self.coin(0.7) or self.plain else ""
            return "{" + sp + self.expr(a["e"]) + sp + "}" + (":" + tyname(an) if an else "")
        raise ValueError(k)

    def block(self, b):
        o = b["o"]
        if o == ".":
            d = {"k": "d", "l": b["a"][0], "f": b["nm"][0], "ty": b["ty"]}
            return self.arg(d)
        head = o
        flags = ["--" + f for f in b["f"]] + ["--" + self.string("".join(map(chr, x)), True) for x in b["nm"]]
        if b["ty"] and not (o == "get" and len(b["a"]) == 2):
            if o == "get" and b["a"] and self.coin(0.4):
                head = o + ":" + tyname(b["ty"])
            else:
                flags.append("--" + tyname(b["ty"]))
        elif b.get("an"):
            head = o + ":" + tyname(b["an"])
        args = [self.arg(a, last=(i == len(b["a"]) - 1)) for i, a in enumerate(b["a"])]
        # flags anywhere before a trailing block
        pos = 0 if self.plain else self.rng.randint(0, max(0, len(args) - 1))
        terms = args[:pos] + flags + args[pos:]
        if o == "\\" and head == o and self.coin(0.5) and terms:
            return "\\" + " ".join(terms)
        return " ".join([head] + terms)

    def expr(self, e):
        return (" | " if self.plain or not self.coin(0.2) else "|").join(self.block(b) for b in e)


def render(rng, e, plain=False):
    return Render(rng, plain).expr(e)


def render_def(rng, d, plain=False):
    r = Render(rng, plain)
    ps = []
    for p in d["p"]:
        ps.append(p["x"] + (":Expr" if p["k"] == "expr" else ":" + tyname(p["ty"]) if p["ty"] else ""))
    ty = (tyname(d["ty"]) + " ") if d["ty"] else ""
    return f"def {d['n']} {ty}({' '.join(ps)}) {{ {r.expr(d['b'])} }}"


def render_type(t):
    def fields(fs):
        return "".join(f"{''.join(map(chr, f['x']))}:{tyname(f['ty'])} " for f in fs)
    if not t["sum"]:
        return f"def-ty {t['n']} {{ {fields(t['v'][0]['f'])}}}"
    vs = []
    for v in t["v"]:
        c = v["c"].split("::")[1]
        vs.append(c + (" { " + fields(v["f"]) + "}" if v["f"] else ""))
    return f"def-ty {t['n']} :: " + " | ".join(vs)


# ------------------------------------------------------------------------------------------- generation
class Gen:
    def __init__(self, rng, D=None, err=0.06, focus=None):
        self.rng = rng
        self.D = D or {"d": [], "t": []}
        self.err = err
        self.sigs = {}      # definition number -> (input type, out type, parameter signatures)
        self.fresh = 0
        self.loop = 0       # how many folds deep
        self.level = 0      # how many sub-expressions deep
        self.focus = focus or {}

    # a hint for a table: list of (column name, cell type); for rows the same
    def pick(self, xs):
        return self.rng.choice(xs)

    def p(self, x):
        return self.rng.random() < x

    # ---- values
    def value(self, ty, hint=None):
        r = self.rng
        if ty == NIL:
            return {"t": "Nil"}
        if ty == BOOL:
            return {"t": "Bool", "b": r.random() < 0.5}
        if ty == NUM:
            n, d = self.pick(HALF) if self.p(0.2) else (self.pick(NUMS), 1)
            return {"t": "Num", "n": n, "d": d}
        if ty == STR:
            return {"t": "Str", "s": cps(self.pick(STRS))}
        raise ValueError(ty)

    def table(self, maxrows=6, cols=None, empty=0.04):
        r = self.rng
        if self.p(empty):
            return {"t": "Tab", "r": []}, []
        k = r.randint(1, 4)
        names = r.sample(COLS, k)
        if self.p(0.05) and k > 1:
            names[-1] = names[0]        # the same header twice
        hint = [(n, self.pick([NUM, NUM, NUM, STR, STR, BOOL])) for n in names]
        if cols:
            hint = cols
        rows = [[{"t": "Str", "s": cps(n)} for n, _ in hint]]
        pool = [[self.value(t) for _ in range(self.pick([1, 2, 3, 6]))] for _, t in hint]
        for _ in range(r.choice([0, 1, 2, 3, maxrows, r.randint(0, maxrows)])):
            row = []
            for (n, t), q in zip(hint, pool):
                x = self.pick(q)
                if self.p(0.04):
                    x = self.value(self.pick([NIL, NUM, STR, BOOL]))
                row.append(x)
            rows.append(row)
        return {"t": "Tab", "r": rows}, hint

    def input(self):
        t = self.pick([TAB, TAB, TAB, NUM, NUM, STR, STR, BOOL, NIL])
        if t == TAB:
            v, h = self.table()
            return v, (TAB, h)
        return self.value(t), (t, None)

    # ---- arguments. sup = (type, hint): what the argument is evaluated on
    def lit(self, ty):
        v = self.value(ty)
        t = v["t"]
        if t == "Num":
            return n_(v["n"], v["d"])
        if t == "Str":
            return {"k": "b"} if self.p(0.04) else {"k": "s", "s": v["s"]}
        if t == "Bool":
            return {"k": "t" if v["b"] else "f"}
        return {"k": "nil"}

    def arg(self, sup, want, env, fuel):
        r = self.rng
        opts = []
        if want in (NUM, STR, BOOL, NIL):
            opts += ["lit"] * 3
        if sup[0] == want:
            opts += ["i"]
        vs = [x for x, t in env.items() if t[0] == want]
        if vs:
            opts += ["var"] * 3
        es = [x for x, t in env.items() if t[0] == ["Expr"] and t[1][0] == sup[0] and t[1][1] == want]
        if es:
            opts += ["exp"] * 8
        rows = [x for x, t in env.items() if t[0] == ROW]
        if rows and want in (NUM, STR, BOOL):
            opts += ["dotrow"] * 2
        tups = [(x, i) for x, t in env.items() if t[0][0] == "Tup" for i, c in enumerate(t[0][1:]) if c == want]
        if tups:
            opts += ["dottup"] * 2
        dfs = [(x, f) for x, t in env.items() if t[0][0] == "Def" for f in self.fields(t[0]) if f["ty"] == want]
        if dfs:
            opts += ["dotdef"] * 2
        if fuel > 0:
            opts += ["sub"] * 5
        if not opts:
            opts = ["sub"]
        o = self.pick(opts)
        if o == "lit":
            return self.lit(want)
        if o == "i":
            return dict(I_)
        if o == "var":
            return v_(self.pick(vs))
        if o == "exp":
            return v_(self.pick(es))
        if o == "dotrow":
            x = self.pick(rows)
            return {"k": "d", "l": v_(x), "f": cps(self.colname(env[x][1], want)), "ty": want}
        if o == "dottup":
            x, i = self.pick(tups)
            return {"k": "d", "l": v_(x), "f": cps(f"t{i}"), "ty": []}
        if o == "dotdef":
            x, f = self.pick(dfs)
            return {"k": "d", "l": v_(x), "f": f["x"], "ty": []}
        self.level += 1
        e, _ = self.pipe(sup, want, env, fuel - 1)
        self.level -= 1
        an = want if self.p(0.12) and want[0] != "Tup" else []
        return e_(*e, an=an)

    def fields(self, ty):
        t = next(t for t in self.D["t"] if t["n"] == ty[1])
        return [] if t["sum"] else t["v"][0]["f"]

    def colname(self, hint, want=None):
        c = [n for n, t in (hint or []) if want is None or t == want]
        if c and not self.p(self.err):
            return self.pick(c)
        if hint and self.p(0.5):
            return self.pick(hint)[0]
        return self.pick(COLS)

    def colarg(self, hint, env, fuel, want=None):
        n = self.colname(hint, want)
        vs = [x for x, t in env.items() if t[0] == STR]
        if vs and self.p(0.1):
            return v_(self.pick(vs)), None
        if fuel > 0 and self.p(0.08):
            return e_(blk("\\", s_(n))), n
        return s_(n), n

    def small(self, sup, env, fuel):
        """a count"""
        if self.p(0.75):
            return n_(self.pick([0, 1, 1, 2, 3, 5])) if not self.p(self.err) else n_(self.pick([-1, 99]))
        return self.arg(sup, NUM, env, fuel)

    # ---- pipelines
    def pipe(self, sup, want, env, fuel, maxlen=None):
        """blocks that take `sup` to a value of type `want`"""
        env = dict(env)
        cur = sup
        out = []
        n = self.rng.randint(0, (maxlen or (3 if fuel > 0 else 1)))
        for _ in range(n):
            b, nxt = self.step(cur, env, fuel)
            if b is None:
                break
            b["_t"] = nxt[0]
            out.append(b)
            cur = nxt
        if cur[0] != want:
            b, cur = self.reach(cur, want, env, fuel)
            out += b
        if not out:
            if sup[0] == want:
                if want in (NUM, STR, TAB) and fuel > 0:
                    b, nxt = self.step(sup, env, fuel, same=True)
                    if b is not None and nxt[0] == want:
                        return [b], nxt
                return [blk("\\", dict(I_))], cur
        return out, cur

    def reach(self, cur, want, env, fuel):
        """blocks from a value of type cur to want, by a short way"""
        t, h = cur
        r = self.rng
        if want == NUM:
            if t == STR or t == TAB and self.p(0.3):
                return [blk("len")], (NUM, None)
            if t == TAB:
                if self.p(0.5):
                    ac = self.acc(h, env)
                    return [blk("fold", n_(self.pick(NUMS)), ac)], (NUM, None)
                return [blk("nth", n_(self.pick([0, 0, 1])), e_(self.getblk(h, NUM, env)))], (NUM, None)
            if t == ROW:
                return [self.getblk(h, NUM, env)], (NUM, None)
        if want == BOOL:
            if t in (NUM, STR, ORD, BOOL, NIL):
                if self.p(0.8):
                    a = self.arg(cur, t, env, max(0, fuel - 1)) if t != ORD else e_(blk(self.pick(["Ord::Lt", "Ord::Eq", "Ord::Gt"])))
                    return [blk(self.pick(["=", "!=", "<", "<=", ">", ">=", "eq"]), a)], (BOOL, None)
            if t in (TAB, STR):
                return [blk("empty")], (BOOL, None)
            if t == ROW:
                ty = self.pick([NUM, STR, BOOL])
                b, c = self.reach((ty, None), BOOL, env, fuel)
                return [self.getblk(h, ty, env)] + b, (BOOL, None)
        if want == STR:
            if t in (NUM, BOOL) and self.p(0.6):
                return [blk("to-str")], (STR, None)
            if t == ROW:
                return [self.getblk(h, STR, env)], (STR, None)
        if want == ORD:
            if t in (NUM, STR, BOOL):
                return [blk("cmp", self.arg(cur, t, env, max(0, fuel - 1)))], (ORD, None)
            return [blk(self.pick(["Ord::Lt", "Ord::Eq", "Ord::Gt"]))], (ORD, None)
        if want == TAB:
            vs = [x for x, y in env.items() if y[0] == TAB]
            if vs and self.p(0.4):
                x = self.pick(vs)
                return [blk("\\", v_(x))], (TAB, env[x][1])
            if self.p(0.7):
                a = self.pick([0, 0, 1, 2])
                return [blk("range", n_(a), n_(a + self.pick([0, 1, 3, 4])))], (TAB, [("i", NUM)])
            c = self.rng.sample(COLS, self.rng.randint(1, 3))
            return [blk("Table", *[s_(x) for x in c])], (TAB, [(x, NUM) for x in c])
        if want[0] == "Tup":
            return [blk("Tuple", *[self.arg(cur, x, env, max(0, fuel - 1)) for x in want[1:]])], (want, None)
        if want[0] == "Def":
            t = next(t for t in self.D["t"] if t["n"] == want[1])
            v = self.pick(t["v"])
            return [blk(v["c"], *[self.arg(cur, f["ty"], env, max(0, fuel - 1)) for f in v["f"]])], (want, None)
        if want == ROW:
            vs = [x for x, y in env.items() if y[0] == ROW]
            if vs:
                return [blk("\\", v_(self.pick(vs)))], (ROW, env[vs[0]][1])
            b, c = self.reach(cur, TAB, env, fuel)
            return b + [blk("nth", n_(0), e_(blk("\\", dict(I_))))], (ROW, c[1])
        vs = [x for x, y in env.items() if y[0] == want]
        if vs and self.p(0.5):
            return [blk("\\", v_(self.pick(vs)))], (want, None)
        return [blk("\\", self.lit(want))], (want, None)

    def getblk(self, h, ty, env):
        c = self.colname(h, ty)
        if self.p(0.2) and ty in (NUM, STR, BOOL):
            return blk("get", s_(c), self.lit(ty), ty=ty)
        return blk("get", s_(c), ty=ty)

    def acc(self, h, env):
        c = self.colname(h, NUM)
        if self.p(0.5):
            return e_(blk(self.pick(["+", "max", "-"]), {"k": "d", "l": v_("row"), "f": cps(c), "ty": NUM}))
        return e_(blk(self.pick(["+", "*"]), e_(blk("\\", v_("row")), blk("get", s_(c), ty=NUM))))

    def key(self, h, env, fuel):
        """an expression on a row with a comparable value"""
        ty = self.pick([NUM, NUM, STR, BOOL, ["Tup"]])
        if ty[0] == "Tup":
            ty = ["Tup"] + [self.pick([NUM, NUM, STR, BOOL]) for _ in range(self.pick([2, 2, 3, 4, 5]))]
            return e_(blk("Tuple", *[e_(self.getblk(h, x, env)) for x in ty[1:]])), ty
        if fuel > 0 and self.p(0.3) and ty == NUM:
            return e_(self.getblk(h, NUM, env), blk("mod", n_(2))), NUM
        return e_(self.getblk(h, ty, env)), ty

    def newvar(self):
        if self.p(0.35):
            return self.pick(["x", "y", "z"])
        self.fresh += 1
        return f"v{self.fresh}"

    def step(self, cur, env, fuel, same=False):
        """one block on a value `cur`; may extend env (let)"""
        t, h = cur
        f1 = max(0, fuel - 1)
        ch = []
        calls = [i for i, s in self.sigs.items() if s[0] == t]
        if calls:
            ch += ["call"] * self.focus.get("call", 2)
        if not same:
            ch += ["let"] * self.focus.get("let", 2) + ["if"] * self.focus.get("if", 1) + ["\\"]
            ch += ["logic"] * self.focus.get("logic", 1) + ["Tuple"]
            ch += ["compare"] * self.focus.get("compare", 4 if t == ORD else 2 if t[0] in ("Bool", "Nil", "Tup") else 1)
            if self.D["t"]:
                ch += ["ctor"]
        ch += {"Num": ["arith"] * 5 + ["unary"] * 2, "Str": ["strop"] * 6, "Tab": ["tab"] * 9, "Bool": ["not"],
               "Row": ["get"] * 3, "Tup": ["fld"] * 3, "Def": ["fld"] * 3}.get(t[0], [])
        if not ch:
            return None, cur
        c = self.pick(ch)
        if c == "compare":
            return self.compare(cur, env, f1)
        if c == "call":
            i = self.pick(calls)
            _, out, ps = self.sigs[i]
            args = [self.arg(s if k == "expr" else cur, w, env, f1) for k, s, w in ps]
            for j, (k, _, _) in enumerate(ps):      # a bare #i would be the input of the call
                if k == "expr" and args[j]["k"] == "i":
                    args[j] = e_(blk("\\", args[j]))
            return blk(self.D["d"][i]["n"], *args), (out, None)
        if c == "let":
            a = []
            binds = {}
            for _ in range(self.pick([0, 1, 1, 1, 2])):
                w = self.pick([NUM, NUM, STR, BOOL, TAB, ["Tup", NUM, STR], t])
                if w == ROW and t != ROW:
                    w = NUM
                x = self.newvar()
                a += [self.arg(cur, w, env, f1), v_(x)]
                binds[x] = (w, None)
            if not a or self.p(0.4):
                x = self.newvar()
                a.append(v_(x))
                binds[x] = (t, h)
            env.update(binds)
            return blk("let", *a), cur
        if c == "if":
            w = self.pick([NUM, NUM, STR, TAB, BOOL])
            a = []
            for _ in range(self.pick([1, 1, 2])):
                a += [self.arg(cur, BOOL, env, f1), self.risky(cur, w, env, f1)]
            return blk("if", *a, self.risky(cur, w, env, f1)), (w, None)
        if c == "\\":
            w = self.pick([NUM, STR, TAB, BOOL])
            return blk("\\", self.arg(cur, w, env, f1)), (w, None)
        if c == "logic":
            k = self.pick([2, 2, 3, 4, 1])
            return blk(self.pick(["and", "or"]), *[self.risky(cur, BOOL, env, f1) for _ in range(k)]), (BOOL, None)
        if c == "Tuple":
            ws = [self.pick([NUM, STR, BOOL, TAB if self.p(0.3) else NUM]) for _ in range(self.pick([2, 2, 3]))]
            return blk("Tuple", *[self.arg(cur, w, env, f1) for w in ws]), (["Tup"] + ws, None)
        if c == "ctor":
            ty = self.pick(self.D["t"])
            v = self.pick(ty["v"])
            return blk(v["c"], *[self.arg(cur, f["ty"], env, f1) for f in v["f"]]), (["Def", ty["n"]], None)
        if c == "fld":
            if t[0] == "Tup":
                i = self.rng.randrange(len(t) - 1)
                return blk("get", s_(f"t{i}")), (t[i + 1], None)
            fs = self.fields(t)
            if not fs:
                return None, cur
            f = self.pick(fs)
            return blk("get", {"k": "s", "s": f["x"]}), (f["ty"], None)
        if c == "get":
            ty = self.pick([NUM, NUM, STR, BOOL])
            return self.getblk(h, ty, env), (ty, None)
        if c == "arith":
            o = self.pick(["+", "-", "*", "/", "max", "min", "+", "-"])
            return blk(o, *[self.arg(cur, NUM, env, f1) for _ in range(self.pick([1, 1, 2, 3]))],
                       an=NUM if self.p(0.04) else []), (NUM, None)
        if c == "unary":
            o = self.pick(["floor", "ceil", "abs", "mod"] + ([] if same else ["is-finite", "to-str", "range"]))
            if o == "mod":
                return blk("mod", self.arg(cur, NUM, env, f1)), (NUM, None)
            if o == "range":
                if self.loop:       # a loop may grow the number without bound
                    return blk("range", n_(self.pick([0, 1, 2])), e_(blk("min", n_(20)))), (TAB, [("i", NUM)])
                return blk("range", n_(self.pick([0, 1, 2]))), (TAB, [("i", NUM)])
            return blk(o), ({"is-finite": BOOL, "to-str": STR}.get(o, NUM), None)
        if c == "not":
            return blk("not"), (BOOL, None)
        if c == "strop":
            o = self.pick(["+", "+", "rev", "dedup", "skip", "take", "nth", "last", "filter", "to-str"] + ([] if same else ["len", "empty"]))
            if o == "+":
                return blk("+", *[self.arg(cur, STR, env, f1) for _ in range(self.pick([1, 2]))]), (STR, None)
            if o in ("skip", "take", "nth"):
                return blk(o, self.small(cur, env, f1)), (STR, None)
            if o == "filter":
                return blk("filter", e_(blk(self.pick(["=", "!=", ">", "<="]), s_(self.pick(["a", "b", "o", " "]))))), (STR, None)
            return blk(o), ({"len": NUM, "empty": BOOL}.get(o, STR), None)
        return self.tabop(cur, env, fuel, same)

    def risky(self, cur, w, env, fuel):
        """an argument that may well fail when it is evaluated"""
        if self.p(self.focus.get("risky", 0.15)):
            bad = {"Num": blk("nth", n_(9), e_(blk("get", s_("a"), ty=NUM))), "Bool": blk("nth", n_(9), e_(blk("get", s_("a"), ty=BOOL))),
                   "Str": blk("nth", n_(9), e_(blk("get", s_("a"), ty=STR))), "Tab": blk("skip", n_(-1))}[w[0]]
            return e_(blk("range", n_(0), n_(3)), bad)
        return self.arg(cur, w, env, fuel)

    def tabop(self, cur, env, fuel, same):
        t, h = cur
        h = h or []
        f1 = max(0, fuel - 1)
        ops = ["append", "append-row", "dedup", "filter", "filter", "filtercol", "filtercols", "grp", "grp-by", "map", "map",
               "pick", "ren", "ren-with", "rev", "skip", "sort", "sort-by", "take", "+", "+cols", "skip-hdrs", "mapforce"]
        if not same:
            ops += ["fold", "fold", "fold-while", "nth", "nth", "last", "len"]
        w = self.focus.get("tab")
        o = self.pick(w if w and self.p(0.8) else ops)
        row = (ROW, h)
        tab = lambda x: (TAB, x)
        if o == "append":
            k = self.pick([1, 1, 2, 3])
            tys = [self.pick([NUM, NUM, STR, BOOL]) for _ in range(k)]
            a = [self.arg(row, ty, env, f1 if f1 else 1) for ty in tys]
            nm = [cps(self.pick(["n", "m", "a", "k w"])) for _ in range(self.rng.randint(0, k))]
            names = ["".join(map(chr, x)) for x in nm] + [f"_append{i+1}" for i in range(k - len(nm))]
            return blk("append", *a, nm=nm), tab(h + list(zip(names, tys)))
        if o == "append-row":
            k = max(1, len(h) + self.pick([0, 0, 0, -1, 1]))    # rows without cells are not specified
            return blk("append-row", *[self.arg(cur, h[i][1] if i < len(h) else NUM, env, 0) for i in range(k)]), cur
        if o in ("dedup", "grp", "sort", "pick"):
            cs = [self.colarg(h, env, f1) for _ in range(self.pick([0, 1, 1, 2, 2] if o == "dedup" else [1, 1, 2, 2, 3]))]
            fl = [x for x in ("add", "trail") if o == "pick" and self.p(0.3)]
            nh = h
            if o == "grp":
                nh = [("key", STR), ("value", TAB)]
            if o == "pick":
                nh = [(c, dict(h).get(c, NIL)) for _, c in cs if c] + ([x for x in h] if "trail" in fl else [])
            return blk(o, *[c for c, _ in cs], f=fl), tab(nh)
        if o == "filter":
            return blk("filter", self.arg(row, BOOL, env, max(1, f1))), cur
        if o == "filtercol":
            ty = self.pick([NUM, NUM, STR, BOOL])
            c, _ = self.colarg(h, env, f1, ty)
            pr, _ = self.reach((ty, None), BOOL, env, f1)
            explicit = ty != NUM or self.p(0.5) or pr[0]["o"] not in ("<", ">", "<=", ">=", "=") or pr[0]["a"][0]["k"] != "n"
            return blk("filter", c, e_(*pr), ty=ty if explicit or self.level else []), cur
        if o == "filtercols":
            return blk("filter", e_(blk(self.pick(["!=", "!=", "=", ">"]), s_(self.pick(COLS)))), f=["cols"]), cur
        if o == "grp-by":
            k, ty = self.key(h, env, f1)
            return blk("grp-by", k), tab([("key", ty), ("value", TAB)])
        if o == "sort-by":
            return blk("sort-by", self.key(h, env, f1)[0]), cur
        if o == "map":
            ty = self.pick([NUM, NUM, STR, BOOL])
            c, nm = self.colarg(h, env, f1, ty)
            w = self.pick([ty, NUM, STR])
            en = dict(env, row=(ROW, h))
            a = self.arg((ty, None), w, en, max(1, f1))
            if a["k"] == "i":       # as a bare argument it would be taken for the table
                a = e_(blk("\\", a))
            return blk("map", c, a, ty=ty), tab([(x, w if x == nm else y) for x, y in h])
        if o == "mapforce":
            c, nm = self.colarg(h, env, f1)
            w = self.pick([NUM, STR, BOOL])
            en = dict(env, row=(ROW, h))
            return blk("map", c, self.arg((NIL, None), w, en, max(1, f1)), f=["force"]), tab([(x, w if x == nm else y) for x, y in h])
        if o == "ren":
            a = []
            nh = list(h)
            for _ in range(self.pick([1, 1, 2])):
                nn = self.pick(["a", "b", "q", "k w"])
                if self.p(0.3):
                    j = self.pick([0, 0, 1, 2])
                    a += [n_(j), s_(nn)]
                else:
                    c = self.colname(h)
                    j = next((i for i, (x, _) in enumerate(h) if x == c), 99)
                    a += [s_(c), s_(nn)]
                if j < len(nh):
                    nh[j] = (nn, nh[j][1])
            return blk("ren", *a), tab(nh)
        if o == "ren-with":
            j = self.pick([0, 0, 0, 1])
            if j == 0:
                return blk("ren-with", n_(0), e_(blk("+", s_(self.pick(["_", "z"])))), ty=STR), tab([(x + "_", y) for x, y in h])
            ty = h[0][1] if h else STR
            return blk("ren-with", n_(1), e_(*self.reach((ty, None), STR, env, 0)[0] or [blk("\\", dict(I_))]), ty=ty), tab([])
        if o == "skip-hdrs":
            return blk("skip-hdrs", n_(self.pick([0, 0, 1]))), cur
        if o == "rev":
            return (blk("rev", f=["cols"]), tab(h[::-1])) if self.p(0.4) else (blk("rev"), cur)
        if o in ("skip", "take"):
            return blk(o, self.small(cur, env, f1)), cur
        if o in ("+", "+cols"):
            a = [self.arg(cur, TAB, env, f1) for _ in range(self.pick([1, 1, 2]))]
            fl = (["cols"] if o == "+cols" else []) + self.pick([[], [], ["intersect"], ["union"]])
            return blk("+", *a, f=fl), cur
        if o == "fold":
            ty = self.pick([NUM, NUM, STR, TAB if fuel > 1 else NUM])
            en = dict(env, row=(ROW, h))
            seed = self.lit(ty) if ty != TAB else e_(*self.reach((NIL, None), TAB, env, 0)[0])
            self.loop += 1
            e, _ = self.pipe((ty, None), ty, en, max(1, f1))
            self.loop -= 1
            return blk("fold", seed, e_(*e)), (ty, None)
        if o == "fold-while":
            en = dict(env, row=(ROW, h))
            self.loop += 1
            e, _ = self.pipe((NUM, None), NUM, en, max(1, f1))
            self.loop -= 1
            return blk("fold-while", self.lit(NUM), self.arg((NUM, None), BOOL, en, 1), e_(*e)), (NUM, None)
        if o == "nth":
            ty = self.pick([NUM, NUM, STR, BOOL, TAB])
            return blk("nth", self.small(cur, env, 0), self.arg(row, ty, env, max(1, f1))), (ty, None)
        if o == "last":
            ty = self.pick([NUM, NUM, STR, BOOL])
            return blk("last", self.arg(row, ty, env, max(1, f1))), (ty, None)
        return blk("len", f=["cols"] if self.p(0.3) else []), (NUM, None)

    # ---- comparisons
    def comparable(self, t):
        return t in (NUM, STR, BOOL, NIL, ORD) or t[0] == "Tup" and all(map(self.comparable, t[1:]))

    def scalar(self, t):
        """a literal of a comparable type"""
        if t == ORD:
            return e_(blk(self.pick(["Ord::Lt", "Ord::Eq", "Ord::Gt"])))
        if t[0] == "Tup":
            return e_(blk("Tuple", *[self.scalar(x) for x in t[1:]]))
        return self.lit(t)

    def compare(self, cur, env, fuel):
        """compares the value, or two tuples that are nearly the same"""
        t = cur[0]
        o = self.pick(["cmp", "cmp", "eq", "=", "!=", "<", "<=", ">", ">="])
        out = (ORD if o == "cmp" else BOOL, None)
        if self.comparable(t) and (t[0] != "Tup" or self.p(0.3)):
            return blk(o, self.scalar(t) if t in (ORD, NIL) or t[0] == "Tup" else self.arg(cur, t, env, fuel)), out
        n = self.pick([2, 2, 3, 4, 5, 6])
        ws = [self.pick([NUM, NUM, STR, BOOL, NIL, ORD] + ([["Tup", NUM, STR]] if self.p(0.3) else [])) for _ in range(n)]
        l = [self.scalar(w) for w in ws]
        r = list(l)
        for _ in range(self.pick([0, 1, 1, 1, 2])):
            j = self.rng.randrange(n)
            r[j] = self.scalar(ws[j])
        return blk("\\", e_(blk("Tuple", *l), blk(o, e_(blk("Tuple", *r))))), out

    # ---- definitions
    def library(self, k, types=True, plain=False):
        r = self.rng
        if types and self.p(0.7):
            self.D["t"].append({"n": "Point", "sum": False, "v": [{"c": "Point", "f": [{"x": cps("x"), "ty": NUM}, {"x": cps("y"), "ty": NUM}]}]})
            if self.p(0.5):
                self.D["t"].append({"n": "Tag", "sum": False, "v": [{"c": "Tag", "f": [{"x": cps("p"), "ty": ["Def", "Point"]}, {"x": cps("s"), "ty": STR}]}]})
            if self.p(0.5):
                self.D["t"].append({"n": "Shape", "sum": True, "v": [{"c": "Shape::Dot", "f": []}, {"c": "Shape::Box", "f": [{"x": cps("w"), "ty": NUM}]}]})
        for j in range(k):
            ity = self.pick([NUM, NUM, STR, TAB, TAB, NIL, BOOL])
            h = [("a", NUM), ("b", NUM), ("c", STR)] if ity == TAB else None
            ps, env, sig = [], {}, []
            for q in range(self.pick([0, 1, 1, 2, 3])):
                x = self.pick(["x", "y", "p", "q", "row"]) + (str(q) if q else "")
                if not plain and self.p(0.4):
                    s = self.pick([(ity, h), (NUM, None), (STR, None)] + ([(ROW, h)] if ity == TAB else []))
                    w = self.pick([NUM, BOOL, STR])
                    ps.append({"x": x, "k": "expr", "ty": []})
                    env[x] = (["Expr"], (s[0], w))
                    sig.append(("expr", s, w))
                else:
                    w = self.pick([NUM, NUM, STR, BOOL, TAB])
                    ps.append({"x": x, "k": "val", "ty": w if plain or self.p(0.7) else []})
                    env[x] = (w, None)
                    sig.append(("val", None, w))
            out = self.pick([NUM, NUM, STR, BOOL, TAB])
            self.level += 1
            b, _ = self.pipe((ity, h), out, env, 2)
            self.level -= 1
            name = self.pick([f"f{j}", f"f{j}", f"do-{j}", "f0", "over"])
            ty = ity if self.p(0.7) or any(d["n"] == name for d in self.D["d"]) else []
            if any(d["n"] == name and d["ty"] == ty for d in self.D["d"]):
                name, ty = f"g{j}", ity
            self.D["d"].append({"n": name, "ty": ty, "p": ps, "b": b})
            self.sigs[len(self.D["d"]) - 1] = (ity, out, sig)

    def program(self, fuel=3, maxlen=4):
        v, sup = self.input()
        want = self.pick([NUM, STR, TAB, BOOL, TAB, NUM])
        e, _ = self.pipe(sup, want, {}, fuel, maxlen=maxlen)
        return v, e


# ------------------------------------------------------------------------------------------- mutation
def walk(e, f):
    for b in e:
        f(b)
        for a in b["a"]:
            while a["k"] == "d":
                a = a["l"]
            if a["k"] == "e":
                walk(a["e"], f)


def mutate(rng, e, env_names=("v1", "x", "zz")):
    """one small change that usually makes the program ill typed"""
    import copy
    e = copy.deepcopy(e)
    bs = []
    walk(e, bs.append)
    b = rng.choice(bs)
    k = rng.choice(["drop", "dup", "lit", "var", "op", "an", "ty"])
    if k == "drop" and b["a"]:
        b["a"].pop(rng.randrange(len(b["a"])))
    elif k == "dup" and b["a"]:
        b["a"].append(copy.deepcopy(rng.choice(b["a"])))
    elif k == "lit" and b["a"]:
        i = rng.randrange(len(b["a"]))
        b["a"][i] = rng.choice([n_(1), s_("foo"), {"k": "t"}, {"k": "nil"}])
    elif k == "var" and b["a"] and b["o"] != "let":
        i = rng.randrange(len(b["a"]))
        b["a"][i] = v_(rng.choice(env_names))
    elif k == "op":
        b["o"] = rng.choice(["+", "len", "not", "rev", "floor", "get", "filter", "=", "nth", "Tuple", "bogus"])
        b["an"] = []
    elif k == "an":
        subs = [a for a in b["a"] if a["k"] == "e"]
        if subs:
            rng.choice(subs)["an"] = rng.choice([NUM, STR, BOOL, TAB])
    elif k == "ty" and b["ty"]:
        b["ty"] = rng.choice([NUM, STR, BOOL])
    for b in bs:        # its type would be inferred from the (perhaps changed) predicate
        if b["o"] == "filter" and len(b["a"]) == 2 and not b["ty"]:
            b["ty"] = NUM
    return e
