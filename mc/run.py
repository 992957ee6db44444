"""usage: run.py PROPERTY [--tier quick|thorough] [--replay FILE]"""
import argparse, importlib, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import boot  # noqa: E402
sys.path.insert(1, HERE)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    import engine
    replay = None
    if a.replay:
        replay = json.load(open(a.replay))
        a.tier = replay["tier"]
    mod = importlib.import_module("checks." + a.prop)
    ctx = engine.Ctx(a.prop, a.tier, getattr(mod, "LEVEL", "model_checking"), replay)
    mod.run(ctx)
    return ctx.finish()


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
