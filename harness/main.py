"""Entry point: main.py <property> <tier> [replay.json]"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    import runtime

    with runtime.Scratch():  # anything the code under test writes lands in a scratch directory
        mod = importlib.import_module("checks." + prop.lower())
        rep = runtime.Report(prop, tier, getattr(mod, "LEVEL", "model_checking"))
        rep.assumptions = list(getattr(mod, "ASSUMPTIONS", []))
        if len(sys.argv) > 3:
            case = json.load(open(sys.argv[3]))["case"]
            mod.replay_one(case)
            print("replayed without mismatch")
            return 0
        try:
            mod.run(rep, tier)
        except Exception:
            import traceback

            traceback.print_exc()
            print(f"{prop}: the check could not be completed (infrastructure error)")
            return 2
    return rep.finish()


if __name__ == "__main__":
    sys.exit(main())
