"""C30: Split.tla bound to the reader of batch and definition files."""
import json
from judged import *

EXPR = ["\\ 1", "| + 2", "{ 3 }", "\\ 'a  b'", "ls | filter size > 50", "range 0 3 | map i {", "+ 1 }", "default 5", "defs", "def-type x",
        "né 日本", "\"# no note\"", "let $x", "x#y", "if"]
NOTES = ["about", "", "# more", "def x () { }", "[fail-fast]", "é  日", "#t", "----"]
PAD = ["", "", "", "", " ", "  ", "\t"]


def line(rng, first):
    """-> (class, text without its spaces, what it carries)"""
    r = rng.random()
    if r < 0.28:
        return "blank", "", ""
    if r < 0.45:
        t = rng.choice(NOTES)
        return "note", ("#" + rng.choice(["", " ", "  "]) + t).rstrip(), t.strip()
    if r < (0.62 if first else 0.46):
        return "dir", *rng.choice([("[fail-fast]", ["fail-fast"]), ("[no-parallelise]", ["no-parallelise"]), ("[ fail-fast no-parallelise ]", ["fail-fast", "no-parallelise"]),
                                   ("[fail-fast]", ["fail-fast"]), ("[import(a b/c /d)]", []), ("[export(x y)]", []), ("[no-parallelise export(a) fail-fast]", ["no-parallelise", "fail-fast"])])
    if r < (0.63 if first else 0.465):
        return "baddir", rng.choice(["[nope]", "[fail-fast", "[]", "[fail-fast, no-parallelise]", "[import()]"]), ""
    if r < 0.72:
        n = rng.choice("abcf")
        return "code", rng.choice([f"def {n} () {{ \\ 1 }}", f"def {n} Str (x:Num) {{", f"def-ty {n.upper()} {{ x:Num }}", f"def-ty {n.upper()} ::", f"def {n}-{n} () {{"]), ""
    return "code", rng.choice(EXPR), ""


def rec(c, tt, x, l="", r=""):
    if c == "blank":
        return {"c": c, "k": "", "t": "", "d": [], "raw": l + r, "lt": "", "rt": "", "tt": ""}
    k = "ty" if tt.startswith("def-ty ") else "im" if tt.startswith("def ") else "ex"
    return {"c": c, "k": k, "t": x if c == "note" else "", "d": x if c == "dir" else [], "raw": l + tt + r, "lt": tt + r, "rt": l + tt, "tt": tt}


def respaced(rng, ls):
    """the same items with more blank lines"""
    out = []
    for x in ls:
        out.append(x)
        if x["c"] == "blank":
            out += [rec("blank", "", "", rng.choice(["", " ", "\t"])) for _ in range(rng.choice([0, 1, 2]))]
    return out


def check(pid):
    chk = Check(pid, "model_checking")
    bins = build("engine")
    rng = chk.rng
    n = 5 if THOROUGH else 4
    r = tlc("SplitGen", env={"LEN": str(n)}, workers=8, outdir=chk.path("tlc"), heap="8g", timeout=3000 if THOROUGH else 300)
    chk.model(r, f"reader of files, files up to {n} lines")
    voc, files = None, []
    for l in r.out.splitlines():
        if l.startswith('"{'):
            x = json.loads(json.loads(l))
            if "voc" in x:
                voc = x["voc"]
            else:
                files.append(x["f"])
    files.sort()
    if not voc or len(files) != r.distinct:
        raise ToolError(f"{len(files)} files from {r.distinct} states")
    cases = [([voc[j - 1] for j in f], "\n", f and voc[f[-1] - 1]["c"] == "dir" or rng.random() < 0.5) for f in files]
    chk.cov["exhaustive_length"] = n
    for _ in range(200000 if THOROUGH else 12000):
        ls = []
        k = rng.choice([3, 6, 12, 25])
        while len(ls) < k:
            c, tt, x = line(rng, len(ls) < 4)
            l = rng.choice(PAD)
            ls.append(rec(c, tt, x, l, "" if c in ("dir", "baddir") else rng.choice(PAD)))
        eol = rng.choice(["\n", "\n", "\r\n"])
        fin = ls[-1]["c"] == "dir" or rng.random() < 0.5
        cases.append((ls, eol, fin))
        if rng.random() < 0.3:
            ls = respaced(rng, ls)
            cases.append((ls, eol, fin or ls[-1]["c"] == "dir"))
    # long files: the numbers of lines
    for k in [300, 5000] + ([70000] if THOROUGH else []):
        ls = []
        while len(ls) < k:
            c, tt, x = line(rng, False)
            if c not in ("dir", "baddir"):
                ls.append(rec(c, tt, x))
        cases.append((ls[:65000], "\n", True))
    src = ["".join(x["raw"] + eol for x in ls[:-1]) + (ls[-1]["raw"] + (eol if fin else "") if ls else "") for ls, eol, fin in cases]
    ops = [{"op": "split", "src": s, "id": i} for i, s in enumerate(src)]
    outs = engine(chk, bins, ops, "files")
    if outs is None:
        return chk.finish()
    recs = []
    for i, ((ls, eol, fin), q) in enumerate(zip(cases, outs)):
        x = {"id": i, "ls": ls, "eol": eol, "r": q["r"], "items": q.get("items", []), "par": q.get("par", True), "ff": q.get("ff", False)}
        recs.append(x)
    cnt, bad = judge_records(chk, "SplitTrace", recs, "files")
    log(f"{pid}: {len(recs)} files {dict(cnt)}")
    for i, v, want in sorted(bad, key=lambda b: (b[1], len(src[b[0]])))[:12]:
        chk.violation(f"file-{i}", f"{v}: {src[i]!r} gave {json.dumps({k: v for k, v in outs[i].items() if k not in ('id', 'us')})[:400]}", ident=v + " " + src[i],
                      src=src[i], got=outs[i], expected=want)
    chk.add(files=len(recs), items=sum(len(q.get("items", [])) for q in outs))
    chk.cov["samples"] = src[-3:][:1] + [s for s in src if 20 < len(s) < 200][-3:]
    chk.assumptions += ["directives behind a second comment and lines that are only the word def are not specified"]
    return chk.finish()
