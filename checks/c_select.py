"""C05, C07: CompSelect.tla bound to completions.rs and input.rs (request, selection, replacement)."""
import json
import gen
from vlib import *

SEPW = [32, 9, 10, 13, 46, 47, 92] * 2 + [97, 98, 45, 95, 123, 33, 40] * 2 + gen.UNI_W + gen.UNI_O


def scripts(chk):
    rng = chk.rng
    out = []
    N = 2500 if THOROUGH else 300
    for _ in range(N):
        out.append("new")
        for _ in range(rng.choice([1, 2, 4])):
            n = rng.choice([0, 1, 2, 3, 5, 9, 14, 40])
            t = gen.text(rng, n, SEPW)
            for _ in range(rng.choice([1, 2])):
                # a cursor anywhere, also right after and right before separators
                seps = [i for i, c in enumerate(t) if c in (32, 9, 10, 13, 46, 47, 92)]
                c = rng.choice([n, rng.randrange(n + 1)] + ([rng.choice(seps), rng.choice(seps) + 1] if seps else []))
                out += ["reset", f"line {gen.tok(t)} {c}", "req"]
                answered = [False, False]
                for _ in range(rng.choice([2, 6, 14])):
                    x = rng.random()
                    free = [s for s in (0, 1) if not answered[s]]
                    if x < 0.35 and free:
                        s = rng.choice(free)
                        answered[s] = True
                        k = rng.choice([0, 1, 2, 3, 3, 10, 11, 13])
                        ans = [gen.tok(gen.text(rng, rng.choice([0, 1, 2, 4, 8]))) for _ in range(k)]
                        out.append(f"ans {s} {k} " + " ".join(ans))
                    elif x < 0.70: out.append("next")
                    else: out.append("prev")
                # the sources must be free for the next request
                for s in (0, 1):
                    if not answered[s]:
                        k = rng.choice([0, 1, 2])
                        out.append(f"ans {s} {k} " + " ".join(gen.tok(gen.text(rng, rng.randrange(5))) for _ in range(k)))
                out += [rng.choice(["next", "prev"]) for _ in range(rng.choice([0, 3, 26]))]
                if rng.random() < 0.3:
                    out += ["reset"] + [rng.choice(["next", "prev"])] * rng.randrange(2)
    return out


def words(chk):
    """Every line up to a length over separators, word and multi-byte characters, every cursor."""
    import itertools
    out = ["new"]
    alpha = [97, 32, 46, 47, 92, 10, 13, 9, 233, 128512] if THOROUGH else [97, 32, 46, 92, 233]
    for n in range(0, 4):
        for t in itertools.product(alpha, repeat=n):
            for c in range(n + 1):
                if not THOROUGH and n == 3 and chk.rng.random() < 0.5:
                    continue
                out += ["reset", f"line {gen.tok(t)} {c}", "req", "ans 0 1 98,98", "next", "ans 1 0", "next"]
    for s in ([9], [13], [10], [47], [13, 10]):  # the remaining separators on their own
        for t in (s + [97, 98], [97] + s + [98, 99], [97, 98] + s, [233] + s + [19990] + s):
            for c in range(len(t) + 1):
                out += ["reset", f"line {gen.tok(t)} {c}", "req", "ans 0 1 98,98", "prev", "ans 1 0", "prev"]
    return out


def check(pid):
    chk = Check(pid, "model_checking")
    bins = build("shellpart")
    chk.model(tlc("CompSelect", workers=8, outdir=chk.path("tlc")), "specification")
    for name, script in (("words", words(chk)), ("walks", scripts(chk))):
        write_lines(chk.path(name + ".script"), script)
        rc, out = run_exec(os.path.join(bins, "shellpart"),
                           ["select", chk.path(name + ".script"), chk.path(name + ".ndjson")], timeout=400)
        if rc != 0:
            chk.violation("hang", f"completions do not survive {name}.script ({'no answer' if rc is None else rc})")
            break
        lines = read_lines(chk.path(name + ".ndjson"))
        if validate(chk, "CompSelectTrace", chk.path(name + ".ndjson"), name=name, what="recorded use of completions",
                    cfg=f"CompSelectTrace_{pid}.cfg", group=sum(s == "req" for s in script)) < len(lines):
            break
        chk.add(requests=sum(s == "req" for s in script), walks=sum(s in ("next", "prev") for s in script))
        chk.cov.setdefault("samples", []).append([json.loads(l) for l in lines[-6:]])
    return chk.finish()
