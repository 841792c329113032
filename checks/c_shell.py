"""C11-C15: Shell.tla bound to the whole interface (ogma-shell/interface): recorded sessions of keys, batches,
evaluations, suggestions and screens against ShellTrace.tla."""
import concurrent.futures, json
import gen
from vlib import *

LETTERS = [97, 98, 45, 57, 90, 95]
TYPED = LETTERS * 4 + [32] * 4 + [46, 47, 92, 123, 35, 233, 955, 19990, 12354]
OUTC = LETTERS * 4 + [32] * 3 + [10] * 3 + [9, 233, 955, 19990, 124, 9472]
NOOPS = ["home", "end", "ins", "f1", "cup", "adown", "stab", "cent", "cbs", "sleft", "cx", "cc", "ax", "rsz"]
EDITS = {"bs", "sbs", "del", "sent", "aent"}


def char(rng):
    c = rng.choice(TYPED)
    return f"S{c}" if c == 90 else f"c{c}"


class Session:
    """Writes one session; follows which tab is selected so that it knows where to wait for suggestions."""

    def __init__(self, rng, w, h, srcs=1, deco=0, ntabs=8, prompts=("> ", "", "λ> ", "ogma >> ")):
        self.rng, self.srcs, self.body, self.plans = rng, srcs, [], []
        self.head = [f"session {w} {h} {srcs} {deco}"]
        for _ in range(ntabs):
            title = rng.choice(["", " T ", "a title", " \u03b1\u03b2 ", "x" * 60, " one\ntwo "])
            self.head.append(f"tab {gen.tok([ord(c) for c in title])} {gen.tok([ord(c) for c in rng.choice(prompts)])}")
        self.tabs, self.sel, self.born = [1], 0, 1
        self.help = True
        self.edited = {}

    def batch(self, keys):
        if not self.tabs:
            return
        self.body.append("b " + " ".join(keys))
        for i, k in enumerate(keys):
            if not self.tabs:
                break
            t = self.tabs[self.sel]
            if k == "at":
                self.born += 1
                self.tabs.append(self.born)
                self.sel = len(self.tabs) - 1
            elif k == "tab":
                self.sel = (self.sel + 1) % len(self.tabs)
            elif k == "aq":
                self.tabs.pop(self.sel)
                if self.tabs:
                    self.sel = self.sel + 1 if self.sel + 1 < len(self.tabs) else 0
            elif k == "ah":
                self.help = not self.help
            elif k == "ent":
                self.edited[t] = False
                if len(self.plans) < sum(b.split().count("ent") for b in self.body):
                    self.plan()
            elif k[0] in "cS" and k[1:].isdigit() or k in EDITS:
                self.edited[t] = True
            elif k in ("left", "right", "cleft", "cright", "esc", "up", "down"):
                self.edited[t] = False

    def plan(self, mode=None, out=None, keys=""):
        rng = self.rng
        mode = mode or rng.choice(["ok"] * 8 + ["panic"])
        if out is None:
            n = rng.choice([0, 1, 3, 10, 40, 120])
            out = "none" if rng.random() < 0.15 else gen.tok(gen.text(rng, n, OUTC))
        col = rng.choice([0, 0, 0, 1, 3, 7])
        title = rng.choice(["none"] * 6 + [gen.tok([ord(c) for c in rng.choice(["new", "", " z\u03b3 "])])])
        prompt = rng.choice(["none"] * 6 + [gen.tok([ord(c) for c in rng.choice(["$ ", "", "pp> "])])])
        self.plans.append(f"plan {mode} {out} {col} {title} {prompt} {keys}")

    def wait(self):
        if self.tabs and not self.help and self.srcs and self.edited.get(self.tabs[self.sel]):
            self.body.append(f"wait {self.tabs[self.sel]}")
            self.edited[self.tabs[self.sel]] = False
            return True
        return False

    def lines(self):
        return self.head + self.plans + self.body


def key(rng, w):
    """one key; w: weights by kind"""
    kind = rng.choices(list(w), list(w.values()))[0]
    return {"char": lambda: char(rng), "edit": lambda: rng.choice(["bs", "del", "bs", "sbs", "sent", "aent"]),
            "move": lambda: rng.choice(["left", "right", "cleft", "cright", "left"]),
            "hist": lambda: rng.choice(["up", "up", "down"]), "scroll": lambda: rng.choice(["sup", "sdown", "pgup", "pgdn"]),
            "tabs": lambda: rng.choice(["tab", "tab", "at"]), "quit": lambda: "aq", "ent": lambda: "ent",
            "look": lambda: rng.choice(["am", "ah"]), "noop": lambda: rng.choice(NOOPS), "esc": lambda: "esc"}[kind]()


W = dict(char=40, edit=10, move=10, hist=8, scroll=4, tabs=5, quit=1, ent=8, look=1, noop=3, esc=2)


def free(rng, n, w=W, size=(20, 60), height=(9, 24), maxb=9, resize=0.0, srcs=None, waits=0.3, help_off=True, deco=None):
    s = Session(rng, rng.randrange(*size), rng.randrange(*height), rng.choice([0, 1, 2]) if srcs is None else srcs,
                rng.choice([0, 0, 1, 3]) if deco is None else deco)
    if help_off:
        s.batch(["ah"])
    while n > 0 and s.tabs:
        if rng.random() < resize:
            s.body.append(f"resize {rng.randrange(*size)} {rng.randrange(*height)}")
        k = rng.choice([1, 1, 2, 3, maxb])
        keys = [key(rng, w) for _ in range(k)]
        n -= k
        if len(s.tabs) > 6:
            keys = ["aq" if x == "at" else x for x in keys]
        s.batch(keys)
        if rng.random() < waits and s.wait():
            # walk the suggestions
            for _ in range(rng.choice([0, 1, 3, 13])):
                s.batch([rng.choice(["down", "down", "up"]) for _ in range(rng.choice([1, 1, 2]))])
    return s.lines()


def c11(rng, big):
    out = []
    # typed ahead: whole lines and several Enters in one batch, results of every kind, in one or more tabs
    for _ in range(200 if big else 40):
        s = Session(rng, rng.randrange(24, 50), rng.randrange(10, 20), rng.choice([0, 1]))
        s.batch(["ah"])
        for _ in range(rng.choice([3, 6, 10])):
            keys = []
            for _ in range(rng.choice([1, 2, 3])):
                keys += [char(rng) for _ in range(rng.randrange(0, 6))]
                keys += rng.choice([["ent"], ["ent"], ["ent", "ent"], ["sent"] + [char(rng)] + ["ent"], ["tab"], ["at"],
                                    ["up", "ent"], ["left", char(rng), "ent"], ["bs", "ent"]])
            if len(s.tabs) > 5:
                keys = [k for k in keys if k != "at"]
            s.batch(keys)
            if rng.random() < 0.5:
                s.wait() and s.batch([rng.choice(["down", "up"])] * rng.choice([1, 2]) + ["ent"])
        out += s.lines()
    # the history at its limit
    for n in ([101, 130] if big else [103]):
        s = Session(rng, 40, 10, 0)
        s.batch(["ah"])
        for i in range(n):
            s.batch([f"c{48 + i // 10 % 10}", f"c{48 + i % 10}", "ent"])
        for k in (["up"] * 5, ["up"] * 90, ["up"] * 4, ["up"], ["up"], ["up"], ["up"], ["down"], ["down"], ["down"]):
            s.batch(k)
        out += s.lines()
    return out + sum((free(rng, 60, dict(W, ent=20)) for _ in range(80 if big else 12)), [])


def c12(rng, big):
    out = []
    for _ in range(400 if big else 60):
        out += free(rng, rng.choice([40, 90]), resize=rng.choice([0, 0.05]), help_off=rng.random() < 0.8)
    # long and multi-line input: wrapping and the cursor everywhere in it
    for _ in range(120 if big else 24):
        s = Session(rng, rng.randrange(14, 34), rng.randrange(12, 22), rng.choice([0, 1]), rng.choice([0, 2]), prompts=("> ", ""))
        s.batch(["ah"])
        for _ in range(rng.choice([1, 2])):
            s.batch([rng.choice([char(rng)] * 5 + ["sent", "aent"]) for _ in range(rng.choice([8, 20, 45]))])
            for _ in range(rng.choice([8, 25])):
                s.batch([rng.choice(["left", "left", "left", "right", "cleft", "cright", "up", "bs", "del", "c97", "c19990", "sent"])])
            s.batch(["ent"])
        out += s.lines()
    # both sources answering, one after the other
    for _ in range(80 if big else 12):
        out += free(rng, 30, dict(char=30, edit=6, move=2, ent=4, tabs=3, esc=1), height=(18, 26), srcs=2, waits=0.9, maxb=2)
    out += tiny(rng, 60 if big else 12)
    # every key once in a plain state, with suggestions, and in a batch of its own or after another
    for k in ["c97", "S90", "ent", "sent", "aent", "bs", "sbs", "del", "up", "down", "left", "right", "cleft", "cright",
              "sup", "sdown", "pgup", "pgdn", "tab", "esc", "ah", "at", "am"] + NOOPS:
        s = Session(rng, 40, 22, 1, prompts=("> ",))
        s.batch(["ah"])
        s.batch(["c49", "ent"])
        s.batch(["c97", "c32", "c98"])
        s.batch([k])
        s.batch(["c98"])
        s.wait()
        s.batch([k])
        s.batch(["c99", k, k])
        s.batch(["left", k])
        out += s.lines()
    return out


def c13(rng, big):
    out = []
    for _ in range(600 if big else 80):
        s_w = dict(W, tabs=20, quit=8, ent=6, hist=6, char=25)
        out += free(rng, rng.choice([30, 70, 120]), s_w, size=(20, 70), waits=0.15, maxb=rng.choice([3, 12]),
                    resize=rng.choice([0, 0, 0.1]))
    # the last tab closed with more to come in the same batch
    for more in (["c97"], ["ent"], ["tab"], ["at"], ["aq"], ["at", "c97", "ent"], ["up", "sdown"], ["rsz"], ["ah", "am"]):
        for pre in ([], ["c97"], ["at", "aq"]):
            s = Session(rng, 30, 10, 1)
            s.batch(pre + ["aq"] + more)
            out += s.lines()
    # close the k-th of n tabs
    for n in (2, 3, 4):
        for k in range(n):
            s = Session(rng, 60, 10, 0, ntabs=n)
            s.batch(["ah"])
            for i in range(n - 1):
                s.batch([f"c{49 + i}", "ent", f"c{97 + i}", "at"])
            s.batch(["c122"])
            s.batch(["tab"] * (k + 1))
            s.batch(["aq"])
            for _ in range(n - 1):
                s.batch(["tab"])
                s.batch(["up"])
            out += s.lines()
    return out


def c14(rng, big):
    out = []
    for _ in range(200 if big else 30):
        s = Session(rng, rng.randrange(16, 60), rng.randrange(8, 20), 0)
        s.batch(["ah"])
        for _ in range(rng.choice([3, 12, 25])):
            s.batch(["c97"] * rng.randrange(2) + ["ent"])
            for _ in range(rng.choice([0, 2, 6])):
                s.batch([rng.choice(["sdown", "sdown", "pgdn", "sup", "pgup"]) for _ in range(rng.choice([1, 1, 2, 4]))])
            if rng.random() < 0.25:
                s.body.append(f"resize {rng.randrange(16, 60)} {rng.randrange(8, 20)}")
            if rng.random() < 0.1:
                s.batch([rng.choice(["at", "tab"])])
        out += s.lines()
    # past the limit of results
    for n in ([99, 100, 101, 140] if big else [102]):
        s = Session(rng, 30, 12, 0)
        s.batch(["ah"])
        for i in range(n):
            s.batch(["ent"])
            s.plans[-1] = f"plan ok {gen.tok([ord(c) for c in str(i)] + ([10, 64 + i % 26] if i % 3 == 0 else []))} 0 none none "
        for k in ["pgdn"] * 8 + ["sup"] * 4 + ["pgup"] * 3 + ["pgdn"] * 8 + ["sdown"]:
            s.batch([k])
        s.body.append("resize 18 9")
        s.batch(["pgdn"] * 7)
        s.batch(["ent"])
        out += s.lines()
    # one result of very many lines (no more than fit in 16 bits are promised by nobody)
    if big:
        s = Session(rng, 20, 9, 0)
        s.batch(["ah"])
        s.batch(["ent"])
        s.plans[-1] = "plan ok " + gen.tok([97 + i // 2 % 26 if i % 2 == 0 else 10 for i in range(1200)]) + " 0 none none "
        for _ in range(30):
            s.batch(["pgdn"])
        s.batch(["sup"])
        out += s.lines()
    return out


def c15(rng, big):
    """one session per executor run: each evaluation takes a second or more"""
    runs = []
    n = 32 if big else 14
    for i in range(n):
        s = Session(rng, 40, 12, rng.choice([0, 1]))
        s.batch(["ah"])
        for _ in range(3 if big else 2):
            mode = rng.choice(["hold", "deaf", "hold"])
            noise = lambda: [rng.choice(["left", "right", "cc", "ax", "c120" if mode == "x" else "left", "home"])
                             for _ in range(rng.choice([0, 0, 1, 2, 8, 20]))]
            bs = [noise() for _ in range(rng.choice([1, 2]))]
            if rng.random() < 0.65:
                j = rng.randrange(len(bs))
                bs[j] = bs[j] + ["cx"]
                if rng.random() < 0.3:
                    bs[j] += rng.choice([["left"], ["cx"], ["cc"]])
            s.plan(mode, keys=" / ".join(" ".join(b) for b in bs))
            s.batch([char(rng) for _ in range(rng.randrange(3))] + rng.choice([[], ["cx"], ["cc"]]) + ["ent"]
                    + rng.choice([[], [], ["cx"], ["c97"]]))
            # a plain evaluation in between, with Ctrl+x before and after it
            if rng.random() < 0.6:
                s.plan("ok")
                s.batch(rng.choice([["cx"], [], ["c97", "cx"]]) + ["ent"] + rng.choice([[], ["cx"]]))
            if rng.random() < 0.3:
                s.batch([rng.choice(["tab", "at"])])
        runs.append(s.lines())
    return runs


GEN = {"C11": c11, "C12": c12, "C13": c13, "C14": c14}


def sessions(lines):
    out = []
    for l in lines:
        if l.startswith("session"):
            out.append([])
        out[-1].append(l)
    return out


def tiny(rng, n):
    """any size at all: nothing but that the shell lives and ends is looked at (rows do not fit)"""
    out = []
    for _ in range(n):
        w, h = rng.choice([2, 3, 4, 7, 12, 30, 200]), rng.choice([1, 2, 3, 4, 5, 8, 30])
        out += free(rng, 40, size=(w, w + 1), height=(h, h + 1), resize=0.2, waits=0, srcs=0)
    return out


def check(pid):
    chk = Check(pid, "model_checking")
    bins = build("shellfull")
    cfg = "Shell.cfg"
    if THOROUGH:
        t = open(os.path.join(SPECS, "Shell.cfg")).read().replace("Depth = 10", "Depth = 12")
        cfg = "ShellBig.cfg"
        open(os.path.join(SPECS, cfg), "w").write(t)
    chk.model(tlc("Shell", cfg, workers=8, outdir=chk.path("tlc"), heap="8g"), "specification")
    rng = chk.rng
    if pid == "C15":
        parts = c15(rng, THOROUGH)
    else:
        ss = sessions(GEN[pid](rng, THOROUGH))
        rng.shuffle(ss)
        k = 24 if THOROUGH else 8
        parts = [sum(ss[i::k], []) for i in range(k)]

    def one(i):
        sc, tr = chk.path(f"s{i}.script"), chk.path(f"s{i}.ndjson")
        write_lines(sc, parts[i])
        rc, out = run_exec(os.path.join(bins, "shellfull"), [sc, tr], timeout=700)
        if rc != 0:
            raise ToolError(f"executor on s{i}.script: {rc} {out[-400:]}")
        n = len(read_lines(tr))
        got = validate(chk, "ShellTrace", tr, name=f"s{i}", what="recorded session", heap="2g",
                       group=sum(l.startswith("session") for l in parts[i]))
        return got >= n

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(one, range(len(parts))))
    for i in range(len(parts)):
        for l in read_lines(chk.path(f"s{i}.ndjson")):
            op = l[7:l.index('"', 7)]
            if op in ("key", "screen", "enterb", "wait", "dkey", "ended"):
                chk.add(**{op + "_events": 1})
    chk.cov.setdefault("samples", []).append([l[:80] for l in parts[0][-12:]])
    return chk.finish()
