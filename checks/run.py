#!/usr/bin/env python3
"""python3 checks/run.py <property id>: decides one property (see DESIGN.md)."""
import os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), "lib")]
import importlib, vlib

WHERE = {"C01": "c_input", "C02": "c_input", "C03": "c_history", "C04": "c_engine", "C05": "c_select",
         "C06": "c_engine", "C07": "c_select", "C08": "c_events", "C09": "c_theme", "C10": "c_cli", "C11": "c_shell", "C12": "c_shell",
         "C13": "c_shell", "C14": "c_shell", "C15": "c_shell",
         "C23": "c_defs", "C28": "c_batch", "C29": "c_batch", "C30": "c_files",
         **{c: "c_lang" for c in ("C20", "C21", "C22", "C24", "C25", "C26", "C27")}}


def main():
    pid = sys.argv[1]
    try:
        mod = importlib.import_module(WHERE[pid])
        rc = mod.check(pid)
    except vlib.ToolError as e:
        vlib.log(f"{pid}: could not be checked: {e}")
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
