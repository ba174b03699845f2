#!/usr/bin/env python3
"""Decide one property from /repo's current sources.

usage: check.py PROPERTY [--tier quick|thorough]
exit 0: every obligation of the property's rules is discharged; exit 1: a construct violates a rule."""
import importlib
import json
import os
import pkgutil
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vp import build, lib as vlib            # noqa: E402
from vp.ir import AnchorError                # noqa: E402
from vp.rules import common                  # noqa: E402
import vp.rules                              # noqa: E402

sys.setrecursionlimit(20000)


class Libs:
    """analysed modules by level, for one compile configuration"""

    def __init__(self, config):
        self.config = config

    def __getitem__(self, level):
        return vlib.lib(level, self.config)


def known_findings(prop):
    out = []
    with open(os.path.join(HERE, "known-findings.txt")) as f:
        for l in f:
            m = re.match(r"open: property=(\S+) rule=(.*?) site=(.*?) \| (.*)", l)
            if m and m.group(1) == prop:
                out.append({"rule": m.group(2), "site": m.group(3), "what": m.group(4)})
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    t0 = time.time()
    for m in pkgutil.iter_modules(vp.rules.__path__):
        importlib.import_module("vp.rules." + m.name)
    rules = common.RULES.get(prop, [])
    if not rules:
        print(f"no rule decides {prop}")
        return 2
    configs = ["c++14"] if tier == "quick" else ["c++14", "asserts", "c++11", "c++17"]
    viol, ob, states, funcs, notes, used = {}, {}, 0, set(), [], []
    for cfg in configs:
        L = Libs(cfg)
        for name, fn in rules:
            if cfg != "c++14" and getattr(fn, "once", False):
                continue
            res = common.Result()
            try:
                fn(res, L)
            except AnchorError as e:
                res.fail(name, name, "-", f"the construct the rule is about was not found: {e}")
            except build.BuildError as e:
                if cfg == "c++14":
                    raise
                res.fail(name, name, "-", f"configuration {cfg} does not compile: {str(e)[-400:]}")
            for k, v in res.violations.items():
                viol.setdefault((name,) + k, dict(v, config=cfg))
            for (m, site), n in res.ob.items():
                ob[(name, m, site)] = ob.get((name, m, site), 0) + n
            states += res.states
            funcs |= res.funcs
            notes += res.notes
            used.append(f"{cfg}:{name}")
    known, new = [], []
    listed = known_findings(prop)
    for k, v in viol.items():
        e = [x for x in listed if x["rule"] in v["rule"] and x["site"] in v["site"]]
        (known if e else new).append((e, v))
    for e in listed:
        hit = any(e in es for es, v in known)
        if hit:
            print(f"KNOWN-FINDING: property={prop} {e['what']}")
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
        "coverage": {
            "explanation": "Static rules decided on the LLVM IR compiled from the current sources: "
                           f"{len(ob)} distinct rule instances (obligation x source site), {sum(ob.values())} path instances, "
                           f"{states} abstract states, {len(funcs)} entry functions, configurations {', '.join(configs)}; "
                           f"{len(ob) and len(viol)} undischarged.",
            "obligations": len(ob), "discharged": max(0, len(ob) - len(viol)), "path_instances": sum(ob.values()),
            "abstract_states": states, "functions": sorted(funcs), "rules": used,
            "sites": [f"{m} @ {s} x{n}" if s else f"{m} x{n}" for (r, m, s), n in sorted(ob.items())][:400],
            "notes": sorted(set(notes)),
            "checker_cmd": f"python3 check.py {prop} --tier {tier}",
            "trusted_base": ["clang 18 front end", "tool/irx.cpp inliner", "vp/ir.py value numbering", "vp/flow.py", "the rules"],
        },
        "assumptions": ["the compiled configuration (x86-64, clang) represents the sources",
                        "a library call writes only through the pointers it is given"],
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if new:
        rp = os.path.join(HERE, "evidence", prop + ".violation.json")
        with open(rp, "w") as f:
            json.dump([v for _, v in new], f, indent=1)
        for _, v in new[:20]:
            print(f"  {v['rule']}\n    in {v['function']}\n    at {v['site']} [{v['config']}, {v['check']}]")
            for c in v["chain"][:6]:
                print(f"      {c}")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    print(f"{prop}: {len(ob)} rule instances discharged, {sum(ob.values())} path instances, "
          f"{states} states, {time.time() - t0:.1f}s")
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except build.BuildError as e:
        print(str(e)[-2000:])
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
