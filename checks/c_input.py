"""C01, C02: InputLine.tla bound to ogma-shell/interface/input.rs."""
import collections, json
import gen
from vlib import *


def scripts(chk):
    """Scripts of operations; each starts with `new`."""
    rng = chk.rng
    # (1) every transition of the bounded model, as a tour over the state graph
    ts, r = transitions("InputLineGen", "InputLineGen.cfg", outdir=chk.path("tlc"))
    key = lambda s: json.dumps(s)
    walk = ["new"]
    n = 0
    for t in tour(ts, key([[], 0, False]), lambda t: key(t["f"]), lambda t: key(t["t"]), rng):
        if t is None:
            walk.append("new")
            continue
        op, arg = t["a"]
        n += 1
        arg = "max" if arg == [2147483647] else gen.tok(arg)
        walk.append(f"{op} {arg}")
    log(f"{chk.pid}: tour of {len(ts)} model transitions in {n} steps")
    chk.add(model_transitions_replayed=len(ts))
    # (2) seeded long histories over a wide alphabet, biased to edits away from the end
    hist = []
    N = 220 if not THOROUGH else 2500
    for _ in range(N):
        hist.append("new")
        length = 0
        for _ in range(rng.choice([5, 20, 60])):
            o = rng.random()
            if o < 0.30:
                hist.append(f"ins {rng.choice(gen.CHARS)}")
                length += 1
            elif o < 0.42:
                t = gen.text(rng, rng.choice([0, 1, 2, 3, 5, 9]))
                hist.append(f"str {gen.tok(t)}")
                length += len(t)
            elif o < 0.50: hist.append("bs")
            elif o < 0.58: hist.append("del")
            elif o < 0.59: hist.append("clear"); length = 0
            elif o < 0.62: hist.append("ms")
            elif o < 0.71: hist.append(f"ml {rng.choice([0, 1, 1, 1, 2, 3, 5, length, length + 1, 'max'])}")
            elif o < 0.79: hist.append(f"mr {rng.choice([0, 1, 1, 1, 2, 3, 5, length, length + 1, 'max'])}")
            elif o < 0.87: hist.append("wl")
            elif o < 0.94: hist.append("wr")
            else: hist.append("rc")
    # (3) long lines: edits at every distance from either end
    for L in ([70, 300] if not THOROUGH else [70, 300, 1200]):
        hist.append("new")
        hist.append(f"str {gen.tok(gen.text(rng, L))}")
        for _ in range(25):
            hist.append(rng.choice(["ms", f"ml {rng.randrange(L)}", f"mr {rng.randrange(L)}", "wl", "wr"]))
            hist.append(rng.choice(["bs", "del", f"ins {rng.choice(gen.CHARS)}", "rc", "wl", "wr",
                                    f"str {gen.tok(gen.text(rng, 4))}"]))
    return walk, hist


def check(pid):
    chk = Check(pid, "model_checking")
    bins = build("shellpart")
    cfg = "InputLine.cfg"
    if THOROUGH:
        open(os.path.join(SPECS, "InputLineBig.cfg"), "w").write(
            open(os.path.join(SPECS, cfg)).read().replace("MaxLen = 4", "MaxLen = 6"))
        cfg = "InputLineBig.cfg"
    chk.model(tlc("InputLine", cfg, workers=8, outdir=chk.path("tlc"), timeout=500), "specification")
    total = 0
    for name, script in zip(("tour", "histories"), scripts(chk)):
        write_lines(chk.path(name + ".script"), script)
        rc, out = run_exec(os.path.join(bins, "shellpart"),
                           ["input", chk.path(name + ".script"), chk.path(name + ".ndjson")], timeout=120)
        lines = read_lines(chk.path(name + ".ndjson")) if os.path.exists(chk.path(name + ".ndjson")) else []
        if rc is None or (rc != 0 and len(lines) < len(script)):
            step = script[len(lines)] if len(lines) < len(script) else "?"
            chk.violation("hang", f"the input line does not survive step {len(lines)+1} ({step}) of {name}.script: "
                          + ("no answer" if rc is None else f"exit {rc}"), script=name + ".script")
            break
        recs = [json.loads(l) for l in lines]
        groups = sum(1 for x in script if x == "new")
        relevant = relevant_ops(pid, recs)
        chk.add(operations=relevant)
        bad = validate_only(chk, pid, name, recs, groups)
        total += len(recs)
        if bad:
            break
        chk.cov.setdefault("samples", []).append(recs[min(len(recs) - 1, 40)])
    return chk.finish()


EDIT = {"ins", "str", "bs", "del", "clear"}


def relevant_ops(pid, recs):
    return sum(1 for r in recs if (r["op"] in EDIT or r["op"] == "rc") == (pid == "C01"))


def validate_only(chk, pid, name, recs, groups):
    """Both properties are judged on the same histories. C01 looks at the text, the changed mark and where
    edits leave the cursor, C02 at where moves go and at byte positions: the configuration says which."""
    return validate(chk, "InputLineTrace", chk.path(name + ".ndjson"), name=name,
                    cfg=f"InputLineTrace_{pid}.cfg",
                    what="recorded editing history", group=groups) < len(recs)
