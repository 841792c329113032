"""C09: Theme.tla bound to ogma-shell/interface/theme.rs."""
from vlib import *

NAMED = ["None", "Reset", "Black", "Red", "Green", "Yellow", "Blue", "Magenta", "Cyan", "Gray", "DarkGray",
         "LightRed", "LightGreen", "LightYellow", "LightBlue", "LightMagenta", "LightCyan", "White"]


def check(pid):
    chk = Check(pid, "model_checking")
    bins = build("shellpart")
    chk.model(tlc("Theme", workers=8, outdir=chk.path("tlc")), "specification")
    rng = chk.rng
    near = ["#192.192.192", "#192.192.191", "#191.192.192", "#192.193.192", "#55.55.55", "#210.105.30",
            "#255.140.0", "#0.0.0", "#255.255.255", "@0", "@7", "@15", "@255"]
    cols = NAMED + near
    script = []
    for t in range(256):  # every theme number with every colour in either place
        for c in cols if t < 4 or t > 251 or THOROUGH else rng.sample(cols, 8):
            script.append(f"{t} {c} None 0 0")
            script.append(f"{t} None {c} 0 0")
    for t in (0, 1, 2, 3, 255):  # every pair
        for a in cols:
            for b in cols:
                script.append(f"{t} {a} {b} {rng.choice([0, 1, 8, 9])} 0")
    for t in (0, 1, 7):  # every combination of added modifiers, and of removed ones
        for m in range(512):
            script.append(f"{t} {rng.choice(cols)} {rng.choice(cols)} {m} {rng.randrange(512)}")
            script.append(f"{t} {rng.choice(cols)} {rng.choice(cols)} {rng.randrange(512)} {m}")
    for _ in range(6000 if not THOROUGH else 60000):
        rc = lambda: (rng.choice(cols) if rng.random() < .6 else
                      "#%d.%d.%d" % tuple(rng.randrange(256) for _ in range(3)) if rng.random() < .7 else f"@{rng.randrange(256)}")
        script.append(f"{rng.randrange(256)} {rc()} {rc()} {rng.randrange(512)} {rng.randrange(512)}")
    write_lines(chk.path("theme.script"), script)
    rc, out = run_exec(os.path.join(bins, "shellpart"),
                       ["theme", chk.path("theme.script"), chk.path("theme.ndjson")], timeout=120)
    if rc != 0:
        chk.violation("hang", f"theming does not survive theme.script ({'no answer' if rc is None else rc})")
        return chk.finish()
    validate(chk, "ThemeTrace", chk.path("theme.ndjson"), name="theme", what="recorded theming", group=len(script), starts="none")
    chk.add(distinct_cases=len(set(script)))
    chk.cov["samples"] = read_lines(chk.path("theme.ndjson"))[:3]
    return chk.finish()
