"""C04, C06: CompEngine.tla bound to ogma-shell/interface/completions.rs (engine, schedules)."""
import json
import gen
from vlib import *


def schedules(chk, n):
    rng = chk.rng
    out = []
    for _ in range(n):
        srcs = rng.choice([1, 2, 2, 3])
        out.append(f"new {srcs}")
        r = 0
        style = rng.choice(["burst", "slow", "mixed", "mixed"])
        for _ in range(rng.choice([4, 8, 14, 22])):
            x = rng.random()
            if x < (0.45 if style == "burst" else 0.18):
                for _ in range(rng.choice([1, 1, 2, 4]) if style != "slow" else 1):
                    r += 1
                    # the request's number is the only number in its line
                    t = [97] * rng.randrange(3) + [32] + [ord(c) for c in str(r)] + gen.text(rng, rng.randrange(5), [97, 32, 46, 233])
                    out.append(f"req {gen.tok(t)} {rng.randrange(len(t) + 1)}")
            elif x < 0.26: out.append("reset")
            elif x < 0.42: out.append("recv")
            elif x < 0.48: out.append(rng.choice(["next", "prev"]))
            elif x < 0.78: out.append(f"permit {rng.randrange(srcs) + 1} {rng.choice([0, 1, 2, 2, 9, 10, 11, 12, 25])}")
            elif x < 0.86: out.append(f"await {rng.randrange(srcs) + 1}")
            else: out.append(f"nap {rng.choice([0, 20, 100, 400])}")
        if rng.random() < 0.25:
            out.append("reset")
        out.append("drain " + " ".join(str(rng.choice([0, 1, 3, 10, 13])) for _ in range(srcs)))
    return out


def stale(chk):
    """Directed schedules: an answer under way when its request is superseded or dismissed."""
    out = []
    r = 0
    for srcs in (1, 2, 3):
        for how in ("reset", "req", "reset+req", "req+reset"):
            for when in ("before", "after"):
                out.append(f"new {srcs}")
                out += ["req 97,49 2", "await 1"]
                if when == "after":
                    out += ["permit 1 3", "nap 300"]
                k = 1
                for h in how.split("+"):
                    if h == "req":
                        k += 1
                        out.append(f"req 97,32,{48 + k} 3")
                    else:
                        out.append("reset")
                if when == "before":
                    out += ["permit 1 3", "nap 300"]
                out += ["recv", "next", "recv"]
                out.append("drain " + " ".join(["2"] * srcs))
    return out


def stuck(chk):
    """One source does not return for as long as the others are asked: they must not notice."""
    rng = chk.rng
    out = []
    for srcs, rounds in ((2, 4), (3, 30), (2, 400 if THOROUGH else 150)):
        for bad in range(1, srcs + 1):
            out.append(f"new {srcs}")
            for r in range(1, rounds + 1):
                t = [97, 32] + [ord(c) for c in str(r)]
                out.append(f"req {gen.tok(t)} {len(t)}")
                if r == 1:
                    out.append(f"await {bad}")
                for s in range(1, srcs + 1):
                    if s != bad and rng.random() < (1.0 if rounds < 10 else 0.5):
                        out.append(f"settle {s} {rng.choice([1, 2, 10, 12])}")
                if rng.random() < 0.1:
                    out.append("reset")
            out.append("drain " + " ".join(str(rng.choice([0, 1, 3, 13])) for _ in range(srcs)))
    return out


def check(pid):
    chk = Check(pid, "model_checking")
    bins = build("shellpart")
    cfgs = ["CompEngine.cfg"] + (["CompEngineBig.cfg"] if THOROUGH else [])
    if THOROUGH:
        open(os.path.join(SPECS, "CompEngineBig.cfg"), "w").write(
            open(os.path.join(SPECS, "CompEngine.cfg")).read().replace("MaxReq = 3", "MaxReq = 4"))
    for c in cfgs:
        chk.model(tlc("CompEngine", c, workers=8, outdir=chk.path("tlc"), heap="12g"), "specification " + c)
    chk.model(tlc("CompEngine", "CompEngineLive.cfg", workers=8, outdir=chk.path("tlc")), "liveness with one source stuck")
    n = 6000 if THOROUGH else 700
    for name, script in (("directed", stale(chk) * 3), ("stuck", stuck(chk)), ("schedules", schedules(chk, n))):
        write_lines(chk.path(name + ".script"), script)
        rc, out = run_exec(os.path.join(bins, "shellpart"),
                           ["engine", chk.path(name + ".script"), chk.path(name + ".ndjson")], timeout=400)
        if rc != 0:
            chk.violation("hang", f"the completion engine does not survive {name}.script ({'no answer' if rc is None else rc})")
            break
        lines = read_lines(chk.path(name + ".ndjson"))
        m = validate(chk, "CompEngineTrace", chk.path(name + ".ndjson"), name=name, what="recorded schedule",
                     group=sum(s.startswith("new") for s in script))
        if m < len(lines):
            break
        kinds = collections.Counter(json.loads(l)["op"] for l in lines)
        chk.add(**{"recorded_" + k: v for k, v in kinds.items()})
        chk.cov.setdefault("samples", []).append([json.loads(l) for l in lines[:8]])
    return chk.finish()
