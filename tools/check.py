#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property on /repo's current tree."""
import importlib, os, sys, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import env  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    os.makedirs(env.EVID, exist_ok=True)
    from checks import REGISTRY
    mod, fn = REGISTRY[prop]
    r = env.Run(prop, tier)
    try:
        getattr(importlib.import_module("checks." + mod), fn)(r)
        return r.finish()
    except env.NoAnswer as e:
        # whatever the property says of the answer, there is none
        r.violation("%s, such as %s" % (e, env.HANGS[0][:300]), {"requests": env.HANGS[:20]})
        return r.finish()
    except env.ToolError as e:
        print("TOOL ERROR:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
