"""Which module decides which property."""
import importlib
import traceback

from frontend import BuildError
from report import Check

CHECKS = {
    "C07": "api",
    "C10": "header",
    "C11": "pure",
    "C12": "front",
    "C13": "generic",
    "C14": "total",
    "C15": "cli",
    **{p: "decide" for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C08", "C09")},
}


def run(prop, tier):
    mod = importlib.import_module(CHECKS[prop])
    ck = Check(prop, tier)
    try:
        mod.check(ck, prop, tier)
    except BuildError as e:
        ck.undec("build", "%s %s" % (e, e.out[-600:]))
        print("build failed: %s\n%s" % (e, e.out[-2000:]))
    except Exception as e:  # an analysis failure is no verdict on the code
        traceback.print_exc()
        ck.undec("analysis", "%s: %s" % (type(e).__name__, e))
    return ck.finish()
