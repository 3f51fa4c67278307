#!/usr/bin/env python3
"""python3 check.py <property> [--tier quick|thorough] [--repo DIR]"""
import argparse
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(30000)
import threading

threading.stack_size(512 * 1024 * 1024)
LIMIT_S = 600


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--selftest", action="store_true", help="import everything and run the positive examples of the rules")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default=os.environ.get("VERIF_REPO", "/repo"))
    a = ap.parse_args()
    from checks import REGISTRY
    if a.selftest:
        for modname, fname, _ in REGISTRY.values():
            getattr(importlib.import_module("checks." + modname), fname)
        from checks import selftest
        rc = [3]
        t = threading.Thread(target=lambda: rc.__setitem__(0, selftest.main()))
        t.start()
        t.join()
        return rc[0]
    from sa.framework import AnchorLost, Ctx, UNDECIDED, load_known
    if a.property not in REGISTRY:
        print(f"unknown property {a.property}", file=sys.stderr)
        return 2
    modname, fname, explanation = REGISTRY[a.property]
    mod = importlib.import_module("checks." + modname)
    end = {}

    def analyse():
        try:
            end["ctx"] = Ctx(a.property, a.tier, a.repo)
            getattr(mod, fname)(end["ctx"])
        except AnchorLost as e:
            end["lost"] = f"anchor lost: {e}"
        except SystemExit as e:
            end["lost"] = str(e)
        except Exception as e:       # noqa: BLE001 - reported, never silent
            tb = traceback.extract_tb(e.__traceback__)[-1]
            end["gave up"] = f"{type(e).__name__}: {e} at {tb.filename}:{tb.lineno}"

    t = threading.Thread(target=analyse, daemon=True)
    t.start()
    t.join(LIMIT_S)
    ctx = end.get("ctx")
    if "lost" in end or ctx is None:
        print(f"analysis error: {end.get('lost') or end.get('gave up')}", file=sys.stderr)
        return 2
    if t.is_alive():
        end["gave up"] = f"the analysis did not end within {LIMIT_S} s"
    if "gave up" in end:
        # what was decided until then counts; the rest is undecided
        ctx.ob("analysis", "complete", UNDECIDED, "", end["gave up"])
    return ctx.finish("other", explanation, load_known())


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
