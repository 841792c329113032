"""Records of the real code, each judged on its own by a TLA+ module that prints <<"V", id, verdict>> or <<"BAD", id, verdict, expected>>."""
import collections, json, os, re
from concurrent.futures import ThreadPoolExecutor
from vlib import *


def judge_records(chk, module, recs, name, lanes=8, env=None):
    """-> (verdict counter, [(id, verdict, expected)])"""
    chunks = [recs[k::lanes] for k in range(lanes)]

    def go(k):
        if not chunks[k]:
            return ""
        p = chk.path(f"{name}.{k}.ndjson")
        write_lines(p, [json.dumps(x) for x in chunks[k]])
        r = tlc(module, env=dict(env or {}, TRACE=p), must_pass=False, outdir=chk.path("tlc"))
        if not re.search(r'<<"TRACE", %d, %d>>' % (len(chunks[k]), len(chunks[k])), r.out):
            log(r.out[-3000:])
            raise ToolError(f"judging {p} failed")
        os.remove(p)
        return r.out
    cnt, bad = collections.Counter(), []
    with ThreadPoolExecutor(lanes) as ex:
        for out in ex.map(go, range(lanes)):
            for m in re.finditer(r'^<<"(V|BAD)", (\d+), "([^"]*)"(?:, "(.*)")?>>$', out, re.M):
                cnt[m[3]] += 1
                if m[1] == "BAD":
                    bad.append((int(m[2]), m[3], (m[4] or "").replace('\\"', '"').replace("\\\\", "\\")))
    if sum(cnt.values()) != len(recs):
        raise ToolError(f"{len(recs)} records, {sum(cnt.values())} verdicts")
    chk.add(traces_validated_against_impl=len(recs), **{"verdict_" + k.replace("-", "_"): v for k, v in cnt.items()})
    return cnt, bad


def engine(chk, bins, ops, name, lanes=8, groups=None, timeout=800):
    """runs operations in the engine's executor, in parallel; `groups` are the indices where an independent part starts"""
    groups = groups or list(range(len(ops)))
    lanes = max(1, min(lanes, len(groups)))
    cut = [groups[len(groups) * k // lanes] for k in range(lanes)] + [len(ops)]

    def go(k):
        part = ops[cut[k]:cut[k + 1]]
        s, o = chk.path(f"{name}.{k}.script"), chk.path(f"{name}.{k}.out")
        write_lines(s, [json.dumps(x) for x in part])
        p = subprocess.run([os.path.join(bins, "engine"), "lang", s, o], timeout=timeout, capture_output=True, text=True)
        outs = []
        for l in open(o, errors="replace"):
            try:
                outs.append(json.loads(l))
            except ValueError:
                break
        os.remove(s)
        os.remove(o)
        return part, outs, p.returncode, p.stderr[-800:]
    res = []
    with ThreadPoolExecutor(lanes) as ex:
        for part, outs, rc, txt in ex.map(go, range(lanes)):
            if rc or len(outs) < len(part):
                chk.violation(name, f"the program dies of {json.dumps(part[min(len(outs), len(part) - 1)])[:400]}", output=txt)
                return None
            res += outs
    return res
