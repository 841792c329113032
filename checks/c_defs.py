"""C23: Defs.tla bound to the registry of definitions (lang/defs.rs, lang/impls, lang/types.rs)."""
import json
from vlib import *

TYN = {"Number": "Num", "String": "Str"}
cps = lambda s: [ord(c) for c in s]
PROBES = ["+ 4 | * 3", "abs", "mod 2", "range 0 3 | fold 0 + $row.i", "\\ 'abca' | rev", "\\ 'abc' | last", "\\ 'abc' | len",
          "\\ '' | empty", "> 2", "<= 3", "!= 3", "cmp 7", "if { = 3 } 'y' 'n'", "to-str", "range 0 4 | skip 2 | len",
          "Tuple 1 'x' | get t1", "Table 'a' 'b' | len --cols", "let $x | \\ 2 | + $x", "\\ #t | not",
          "range 0 5 | filter { get:Num i | > 2 } | append --z { get:Num i | * 2 } | last { get:Num z }",
          "range 0 3 | skip-hdrs 1", "Ord::Lt | = Ord::Lt", "typify { + 1 }"]


def atom(a):
    return " ".join([a["o"]] + [str(x["n"]) if x["k"] == "n" else "$x" for x in a["a"]])


def body(b):
    return " | ".join(atom(a) for a in b)


def src_def(d):
    s = f"def {d['n']} {d['ty'] + ' ' if d['ty'] else ''}({'x' if d['p'] else ''}) {{ {body(d['b'])} }}"
    return s.replace("{", "", 1) if d["bad"] else s


def src_ty(t):
    i = 0
    vs = []
    for v in t["v"]:
        fs = [f"f{j}:{t['fs'][i + j]}" for j in range(v["n"])]
        i += v["n"]
        vs.append((v["c"].split("::")[-1] + " " if "::" in v["c"] else "") + ("{ " + " ".join(fs) + " }" if fs or "::" not in v["c"] else ""))
    s = f"def-ty {t['n']} " + (":: " + " | ".join(vs) if "::" in t["v"][0]["c"] else vs[0])
    return s.replace("def-ty ", "def-ty :", 1) if t["bad"] else s


def val(v):
    if v["t"] == "Num":
        return {"t": "Num", "f": [v["n"]]} if v["d"] == 1 else v
    if v["t"] == "Str":
        return {"t": "Str", "f": v["s"]}
    if v["t"] == "Def" and all(x["t"] == "Num" for x in v["f"]):
        return {"t": v["n"], "f": [v["i"]] + [x["n"] for x in v["f"]]}
    return {"t": v["t"], "f": []}


INS = {"Num": [{"t": "Num", "f": [n]} for n in (0, 3, 42)], "Str": [{"t": "Str", "f": cps(s)} for s in ("", "ab", "xyz")],
       "Nil": [{"t": "Nil", "f": []}]}


def eng_in(v):
    if v["t"] == "Num":
        return {"t": "Num", "n": v["f"][0], "d": 1}
    if v["t"] == "Str":
        return {"t": "Str", "s": v["f"]}
    return {"t": "Nil"}


class Script:
    def __init__(self):
        self.ops, self.evs = [], []

    def op(self, o, ev):
        self.ops.append(o)
        self.evs.append(ev)

    def new(self):
        self.op({"op": "new"}, None)
        self.op({"op": "list"}, {"op": "new"})

    def list(self):
        self.op({"op": "list"}, {"op": "list"})

    def probe(self, i):
        self.op({"op": "run", "src": PROBES[i], "in": {"t": "Num", "n": 3, "d": 1}}, {"op": "probe", "i": i + 1})

    def define(self, d):
        d = dict(d)
        f = src_def if d["w"] == "def" else src_ty
        s = f(d)
        d["src"] = cps(s[4:]) if d["w"] == "def" else []
        o = {"op": "def", "src": s}
        if d["loc"] != "shell":
            o.update(file=d["loc"], line=d["line"])
        self.op(o, {"op": d["w"], "d": d})

    def clear(self, files, word=False):
        self.op({"op": "def", "src": "def --clear"} if word and not files else {"op": "clear", "files": files},
                {"op": "clear", "files": files})

    def load(self, rng, ds, name):
        """a file of definitions; the specification sees them in the order types, implementations"""
        text, line, xs = "", 1, []
        for d in ds:
            d = dict(d)
            gap = rng.choice(["", "\n", "# a note\n\n", "\n\n"])
            doc = rng.choice(["", "", "# what it is\n", "# two\n# lines\n"])
            s = (src_def if d["w"] == "def" else src_ty)(d)
            text += gap + doc + s + "\n\n"
            d.update(loc=name, line=line + gap.count("\n") + doc.count("\n"), src=cps(s[4:]) if d["w"] == "def" else [])
            line = text.count("\n") + 1
            xs.append(d)
        xs = [d for d in xs if d["w"] == "ty"] + [d for d in xs if d["w"] == "def"]
        self.op({"op": "addstr", "src": text, "file": name}, {"op": "load", "xs": xs})

    def call(self, b, v):
        self.op({"op": "run", "src": body(b), "in": eng_in(v)}, {"op": "call", "b": b, "in": v})

    def events(self, outs):
        evs, head = [], None
        for o, e, q in zip(self.ops, self.evs, outs):
            if e is None:
                continue
            e = dict(e)
            if o["op"] == "list" and q["r"] == "ok":
                txt = lambda c: "".join(map(chr, c["s"])) if c["t"] == "Str" else ""
                rows, bi, keys = [], [], []
                for n, cat, t, loc, line, code in q["v"][1:]:
                    tn = TYN.get(txt(t), txt(t))
                    if txt(loc) == "<ogma>":
                        bi.append(json.dumps([txt(n), txt(cat), tn, txt(code)], ensure_ascii=True))
                        keys.append([txt(n), tn])
                    else:
                        rows.append({"n": txt(n), "t": tn, "nc": n["s"], "tc": t.get("s", []), "cat": txt(cat), "loc": txt(loc),
                                     "line": line["n"] if line["t"] == "Num" else 0, "code": code["s"] if code["t"] == "Str" else []})
                e.update(bi=bi)
                if e["op"] == "list":
                    e.update(rows=rows)
                elif head is None:
                    head = e
                    e.update(keys=keys, probes=[None] * len(PROBES))
            elif e["op"] == "probe":
                e["res"] = json.dumps({k: q[k] for k in ("r", "v", "ty", "stage") if k in q}, sort_keys=True)
                if head["probes"][e["i"] - 1] is None:
                    head["probes"][e["i"] - 1] = e["res"]
            else:
                e["r"] = q["r"]
                if e["op"] == "call":
                    e["stage"] = q.get("stage", "")
                    if q["r"] == "ok":
                        e["v"] = val(q["v"])
            evs.append(e)
        return evs


NAMES = ["f", "f", "g", "g", "h", "len", "rev", "to-str", "+", "range", "last", "P", "Q", "S::A", "map"]
TYS = ["", "", "Num", "Num", "Str", "Nil", "P", "Q", "S", "Foo", "Table"]


def rnd_body(rng, par):
    b = []
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        n = lambda: {"k": "n", "n": rng.randint(0, 9)}
        arg = lambda: {"k": "x"} if par and rng.random() < 0.6 else n()
        o = rng.choice(["\\", "\\", "+", "*", "len", "rev", "to-str", "f", "g", "h", "f", "g", "P", "Q", "S::A", "S::B", "nope"][:17 if rng.random() < 0.3 else 16])
        a = [arg()] if o in ("\\", "+", "*", "P", "S::B") else []
        if o == "Q":
            a = [arg(), arg()]
        if o in ("f", "g", "h") and rng.random() < 0.35:
            a = [n()]
        b.append({"o": o, "a": a})
    return b


def rnd_def(rng):
    loc = rng.choice(["shell", "shell", "a.ogma", "b.ogma"])
    line = 0 if loc == "shell" else rng.randint(1, 50)
    if rng.random() < 0.25:
        n = rng.choice(["P", "Q", "S", "S", "f", "len", "range", "Ord", "Num"])
        if n == "S":
            vs, fs = rng.choice([([("S::A", 0), ("S::B", 1)], ["Num"]), ([("S::B", 1), ("S::A", 0), ("S::C", 0)], ["Num"]),
                                 ([("S::A", 0), ("S::A", 0)], [])])
        elif n == "Q":
            vs, fs = [("Q", 2)], rng.choice([["Num", "Num"], ["Num", "Num"], ["Num", "Foo"]])
        else:
            vs, fs = [(n, 1)], ["Num"]
        return {"w": "ty", "n": n, "v": [{"c": c, "n": k} for c, k in vs], "fs": fs, "loc": loc, "line": line, "bad": rng.random() < 0.05}
    p = rng.choice([0, 0, 0, 1])
    return {"w": "def", "n": rng.choice(NAMES), "ty": rng.choice(TYS), "p": p, "b": rnd_body(rng, p), "loc": loc, "line": line,
            "bad": rng.random() < 0.05}


def rnd_call(rng, sc):
    v = rng.choice(INS[rng.choice(["Num", "Num", "Str", "Nil"])])
    o = rng.choice(["f", "f", "g", "g", "h", "len", "rev", "to-str", "P", "S::A"])
    b = [{"o": o, "a": [{"k": "n", "n": 5}] if rng.random() < (0.9 if o == "P" else 0.25) else []}]
    if rng.random() < 0.5:
        b = [{"o": rng.choice(["P", "to-str", "S::A", "S::B", "f", "\\"]), "a": []}] + b
        if b[0]["o"] in ("P", "S::B", "\\"):
            b[0]["a"] = [{"k": "n", "n": rng.randint(0, 9)}]
    sc.call(b, v)


def check(pid):
    chk = Check(pid, "model_checking")
    bins = build("engine")
    rng = chk.rng
    ts, r = transitions("DefsGen", "DefsGen.cfg", outdir=chk.path("tlc"))
    chk.model(r, "registry over a small universe")
    key = lambda s: json.dumps(s, sort_keys=True)
    init = [t for t in ts if not t["f"]["i"] and not t["f"]["t"]][0]["f"]
    sc = Script()
    sc.new()
    for i in range(len(PROBES)):
        sc.probe(i)
    n = 0
    calls = [([{"o": o, "a": []}], INS[t][-1]) for o in ("f", "len") for t in ("Num", "Str", "Nil")]
    calls += [([{"o": "P", "a": [{"k": "n", "n": 2}]}, {"o": "f", "a": []}], INS["Nil"][0]),
              ([{"o": "P", "a": []}], INS["Num"][1]), ([{"o": "P", "a": [{"k": "n", "n": 1}]}, {"o": "len", "a": []}], INS["Num"][1])]
    for t in tour(ts, key(init), lambda t: key(t["f"]), lambda t: key(t["t"]), rng):
        if t is None:
            sc.new()
            continue
        a = t["a"]
        if a["op"] == "clear":
            sc.clear(a["files"], rng.random() < 0.5)
        else:
            sc.define(a["d"])
        n += 1
        for c in rng.sample(calls, 2 if not THOROUGH else 5):
            sc.call(*c)
        if n % 7 == 0:
            sc.list()
        if n % 50 == 0:
            sc.probe(rng.randrange(len(PROBES)))
    chk.add(model_transitions_replayed=len(ts))
    hist = Script()
    first = True
    for _ in range(1500 if THOROUGH else 150):
        hist.new()
        if first:
            for i in range(len(PROBES)):
                hist.probe(i)
            first = False
        for _ in range(rng.choice([5, 15, 40])):
            x = rng.random()
            if x < 0.6:
                hist.define(rnd_def(rng))
            elif x < 0.66:
                hist.clear(rng.random() < 0.6, rng.random() < 0.5)
            elif x < 0.76:
                hist.load(rng, [rnd_def(rng) for _ in range(rng.randint(1, 5))], rng.choice(["a.ogma", "c.ogma"]))
            for _ in range(rng.choice([0, 1, 2])):
                rnd_call(rng, hist)
            if rng.random() < 0.15:
                hist.list()
            if rng.random() < 0.05:
                hist.probe(rng.randrange(len(PROBES)))
        hist.list()
        for i in rng.sample(range(len(PROBES)), 4):
            hist.probe(i)
    for name, s in (("tour", sc), ("histories", hist)):
        write_lines(chk.path(name + ".script"), [json.dumps(o) for o in s.ops])
        out = chk.path(name + ".out")
        rc, txt = run_exec(os.path.join(bins, "engine"), ["lang", chk.path(name + ".script"), out], timeout=600)
        outs = []
        for l in open(out).read().split("\n") if os.path.exists(out) else []:
            try:
                outs.append(json.loads(l))
            except ValueError:
                break
        if rc != 0 or len(outs) != len(s.ops):
            chk.violation(name, f"the engine {'hangs on' if rc is None else 'dies of'}: {s.ops[min(len(outs), len(s.ops) - 1)]}", output=txt[-800:])
            break
        evs = s.events(outs)
        write_lines(chk.path(name + ".ndjson"), [json.dumps(e) for e in evs])
        os.remove(out)
        if validate(chk, "DefsTrace", chk.path(name + ".ndjson"), name=name, what="history of definitions",
                    group=sum(e["op"] == "new" for e in evs)) < len(evs):
            break
        chk.add(definitions=sum(e["op"] in ("def", "ty") for e in evs), calls=sum(e["op"] == "call" for e in evs),
                calls_with_a_value=sum(e["op"] == "call" and e["r"] == "ok" for e in evs),
                refused=sum(e["op"] in ("def", "ty", "load") and e["r"] != "ok" for e in evs), loads=sum(e["op"] == "load" for e in evs))
        chk.cov.setdefault("samples", []).append([o for o in s.ops[30:50]])
    return chk.finish()
