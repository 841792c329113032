"""C10: Cli.tla bound to bin/app.rs."""
import itertools, json
import gen
from vlib import *

S = lambda s: [ord(c) for c in s]


def script(chk):
    rng = chk.rng
    toks = ["-q", "--quiet", "-qq", "--def", "--def=x", "--def=", "a", "-", "--", "-z", "--help", "", "b=c", "--nope"]
    out = []
    for n in range(0, 5 if THOROUGH else 4):
        out += list(itertools.product(toks, repeat=n))
    if not THOROUGH:
        out += [tuple(rng.choice(toks) for _ in range(4)) for _ in range(5000)]
    more = toks + ["-h", "-qh", "--def=-q", "--def=--def=x", "--quiet=1", "-q=1", "--qui", "-5", "file.ogma", "a b", "é/世.ogma",
                   "*.ogma", "**/[ab]?.ogma", "c:\\x", "./-q", "--Def", "--defs", "--d", "=", "--é", "-é", "---", "--def=a=b"]
    for _ in range(60000 if THOROUGH else 12000):
        # mostly readable vectors
        k = rng.choice([1, 2, 3, 5, 8, 13])
        v = []
        for _ in range(k):
            x = rng.random()
            if x < 0.35: v.append(rng.choice(["a", "b", "c.ogma", "dir/x.ogma", "a b", "é", "-", ""]))
            elif x < 0.55: v += ["--def", rng.choice(["p", "q*", "dir/**", "a", "", "-", "é"])]
            elif x < 0.70: v.append("--def=" + rng.choice(["p", "", "-q", "--def=z", "a=b", "é", "--", "a,b"]))
            elif x < 0.76 and "-q" not in v and "--quiet" not in v: v.append(rng.choice(["-q", "--quiet"]))
            elif x < 0.80: v.append("--")
            elif x < 0.82: v.append(rng.choice(more))
            else: v.append("".join(rng.choice("ab./*-=, é") for _ in range(rng.randrange(1, 5))).lstrip("-"))
        out.append(tuple(v))
    return [" ".join(gen.tok(S(a)) for a in v) for v in out]


def check(pid):
    chk = Check(pid, "model_checking")
    bins = build("shellpart")
    chk.model(tlc("Cli", workers=8, outdir=chk.path("tlc")), "specification")
    sc = script(chk)
    write_lines(chk.path("cli.script"), sc)
    rc, out = run_exec(os.path.join(bins, "shellpart"), ["cli", chk.path("cli.script"), chk.path("cli.ndjson")], timeout=200)
    if rc != 0:
        chk.violation("hang", f"reading the command line does not survive cli.script ({'no answer' if rc is None else rc})")
        return chk.finish()
    lines = read_lines(chk.path("cli.ndjson"))
    if len(lines) != len(sc):
        raise ToolError(f"{len(lines)} answers to {len(sc)} command lines")
    # fields absent on errors
    for i, l in enumerate(lines):
        r = json.loads(l)
        if r["res"] != "ok":
            r.update(quiet=False, hasdef=False, **{"def": [], "files": []})
            lines[i] = json.dumps(r)
    write_lines(chk.path("cli.ndjson"), lines)
    validate(chk, "CliTrace", chk.path("cli.ndjson"), name="cli", what="recorded command line", group=len(lines), starts="parse")
    res = collections.Counter(json.loads(l)["res"] for l in lines)
    chk.add(**{"vectors_" + k: v for k, v in res.items()}, distinct_vectors=len(set(sc)))
    chk.cov["samples"] = [json.loads(l) for l in lines[-4:]]
    return chk.finish()
