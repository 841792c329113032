#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path[:0] = [os.path.join(R, "checks")]
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
T = "TLA+ specification model checked with TLC; "
TRACE = T + "traces recorded from the real code validated against it by TLC"
SH = T + "recorded sessions of the whole interface on a test terminal validated by TLC"
LG = T + "programs generated exhaustively from its state machine and at random from its grammar, run by the real engine, results judged by TLC"
CL = {  # property: (technique, level note)
 "C01": (T + "TLC-generated transition tour and random histories replayed into input.rs, recorded trace validated by TLC",
         "InputLine.tla exhaustively for short lines over an alphabet with separators and multi-byte characters; every transition of that graph replayed into the real Input, plus long seeded histories; each real step judged by TLC"),
 "C02": (T + "TLC-generated transition tour and random histories replayed into input.rs, recorded trace validated by TLC",
         "as C01, judging cursor movement; the word steps are specified by the characters between cursor and boundary"),
 "C03": (T + "TLC-generated transition tour replayed into history.rs, recorded trace validated by TLC",
         "History.tla exhaustively for a small bound, every transition replayed with the real bound reached by prefilling; long seeded histories across the bound"),
 "C04": (T + "recorded concurrent schedules of the real completion engine validated by TLC with hidden steps",
         "CompEngine.tla exhaustively over all interleavings of dispatcher, workers and shell for small bounds, plus liveness; hundreds of seeded schedules of the real threads, gated at the sources, judged by TLC"),
 "C05": (TRACE, "CompSelect.tla exhaustively for small bounds; seeded requests, answers and walks through the real Completions/Input judged by TLC"),
 "C06": (T + "recorded concurrent schedules of the real completion engine validated by TLC with hidden steps",
         "as C04: coalescing, one call at a time per source, independence of sources, quiescence; liveness with a stuck source"),
 "C07": (TRACE, "all short lines x cursors plus seeded ones; word boundary and splice judged by TLC against CompSelect.tla"),
 "C08": (T + "sessions of the real event source on a pseudo terminal recorded and validated by TLC",
         "Events.tla exhaustively for small bounds with liveness; hundreds of reports per session with polls interleaved at seeded moments"),
 "C09": (TRACE, "Theme.tla invariants by TLC; every theme number x every colour pair of the palette and seeded RGB/indexed ones compared by TLC"),
 "C10": (TRACE, "Cli.tla exhaustively for short argument lists, each replayed into the real parser, plus seeded long ones"),
 "C11": (SH, "Shell.tla exhaustively in small bounds; seeded sessions of the real interface (typed-ahead lines, several Enters per batch, several tabs, panicking evaluations, history limit), every evaluation and screen judged by TLC"),
 "C12": (SH, "as C11: thousands of keys in seeded batches, wrapping of long and multi-line input, suggestions, tiny terminals; the whole screen and the cursor compared with what the specification says it shows"),
 "C13": (SH, "as C11, with tabs opened, switched and closed while their histories, results and titles differ"),
 "C14": (SH, "as C11, with long results, the limit of 100, scrolling, resizing and wide characters"),
 "C15": (SH, "as C11, with keys pressed while a (gated) evaluation runs"),
 "C20": (LG, "Ogma.tla gives every program a type and a value; its machine (OgmaGen.tla) explored for every program up to 3 blocks over a vocabulary, each run by the real engine; thousands of seeded nested programs, each in two spellings and some twice"),
 "C21": (LG, "as C20 with if/and/or over failing, true, false and value-producing expressions, also inside rows and definitions"),
 "C22": (LG, "as C20 with let nested in sub-expressions, rows and definitions, and with variables moved to places where they may not be bound"),
 "C23": (T + "every transition of its state graph replayed into the real registry, and random histories, the recorded results judged by TLC",
         "Defs.tla over a small universe of definitions and types (invariants on dispatch, built-ins, clearing); all of its transitions and hundreds of seeded histories of def, def-ty, files, clear, calls, list and probes of the built-ins"),
 "C24": (LG, "as C20 with seeded libraries of typed, untyped and expression parameters, and calls broken in one place"),
 "C25": (LG, "as C20; the inferred type (typify) and value compared with the specification's, with right, wrong and no annotations, and ill-typed programs"),
 "C26": (LG, "as C20 with table commands on small tables of every shape, and on long ones with 1 and 8 threads"),
 "C27": (LG, "as C20 with values held by several variables and transformed; every holder looked at afterwards"),
 "C28": (T + "recorded schedules of real batches, with items gated by pipes, validated by TLC with hidden steps",
         "Batch.tla exhaustively for every batch of 2 items (3 thorough) over 9 kinds, parallel or not, with liveness; every such batch and hundreds of seeded ones (up to 40 items, 1-8 threads, items held and released in seeded orders, expressions of the language with the outcome they have alone) run by the real code, every report and the outcomes judged by TLC"),
 "C29": (T + "recorded schedules of real batches, with items gated by pipes, validated by TLC with hidden steps",
         "as C28 with fail-fast batches and cancellation at seeded moments"),
 "C30": (T + "files generated exhaustively from its state machine and at random, read by the real code, results judged by TLC",
         "Split.tla as a machine over lines, equal to its declarative reading for all files up to 4 lines (5 thorough) of 12 kinds of line; all of these and 12,000 seeded longer ones with every line ending and re-spacing read by the real reader and judged by TLC"),
}
LEVEL = {}
NA = {}
try:
    from notapp import NA as N2
    NA.update(N2)
except ImportError:
    pass
checks = []
na = []
for p in props:
    i = p["id"]
    if i in CL:
        checks.append(dict(property=i, quick_cmd=f"python3 checks/run.py {i}",
                           thorough_cmd=f"VERIF_TIER=thorough python3 checks/run.py {i}",
                           technique=CL[i][0], level=LEVEL.get(i, "model_checking"), level_note=CL[i][1]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "specification and harness for this part are still being built")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="TLA+ specifications in specs/, harness crates in harness/, drivers in checks/; see DESIGN.md. "
               "No hooks in /repo: its sources are compiled in place by the harness crates.")
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
