"""C03: History.tla bound to ogma-shell/interface/history.rs."""
import json
from vlib import *


def check(pid):
    chk = Check(pid, "model_checking")
    bins = build("shellpart")
    chk.model(tlc("History", workers=8, outdir=chk.path("tlc")), "specification")
    rng = chk.rng
    ts, r = transitions("HistoryGen", "HistoryGen.cfg", outdir=chk.path("tlc"))
    key = lambda s: json.dumps(s)
    walk = ["new"]
    for t in tour(ts, key([[], 0]), lambda t: key(t["f"]), lambda t: key(t["t"]), rng):
        walk.append("new" if t is None else f"{t['a'][0]} {t['a'][1]}")
    chk.add(model_transitions_replayed=len(ts))
    hist = []
    for n in [1, 2, 3, 99, 100, 101, 102, 150, 199, 200, 201, 350] + [rng.randrange(1, 260) for _ in range(40 if THOROUGH else 6)]:
        # fill up to n, then look at everything both ways, going round more than once
        hist.append("new")
        hist += [f"add {i + 1}" for i in range(n)]
        k = min(n, 100)
        hist += ["back"] * (2 * k + 3) + ["fwd"] * (2 * k + 5)
        # enter from the middle of the history, at the limit
        for _ in range(3):
            hist += ["back"] * rng.randrange(0, k + 2) + ["fwd"] * rng.randrange(0, 3)
            hist += [f"add {1000 + rng.randrange(5)}"]
            hist += ["back"] * 3 + ["fwd"] * 4
    for _ in range(60 if not THOROUGH else 600):
        hist.append("new")
        # a bias per history: some mostly enter, some mostly look around; lines repeat
        p = rng.choice([0.1, 0.3, 0.7])
        for _ in range(rng.choice([10, 60, 250])):
            x = rng.random()
            hist.append(f"add {rng.randrange(1, 9)}" if x < p else rng.choice(["back", "fwd"]))
        hist += ["back"] * 104
    for name, script in (("tour", walk), ("histories", hist)):
        write_lines(chk.path(name + ".script"), script)
        rc, out = run_exec(os.path.join(bins, "shellpart"),
                           ["history", chk.path(name + ".script"), chk.path(name + ".ndjson")], timeout=120)
        if rc != 0:
            chk.violation("hang", f"the history does not survive {name}.script ({'no answer' if rc is None else rc})")
            break
        n = len(script)
        if validate(chk, "HistoryTrace", chk.path(name + ".ndjson"), name=name, what="recorded history",
                    group=script.count("new")) < n:
            break
        chk.cov.setdefault("samples", []).append(script[:12])
    return chk.finish()
