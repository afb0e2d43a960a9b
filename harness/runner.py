"""Entry point of every check: runner.py <PROPERTY> <quick|thorough>."""
import importlib
import os
import signal
import sys
import traceback

import common
from common import Check, MachineryError


class Hang(BaseException):
    pass


def on_alarm(sig, frame):
    raise Hang()


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    chk = Check(prop, tier, seed)
    try:
        import simcats
        assert os.path.realpath(simcats.__file__).startswith(os.path.realpath(common.TREE)), simcats.__file__
        mod = importlib.import_module("check_" + prop.lower())
        signal.signal(signal.SIGALRM, on_alarm)
        signal.alarm(780 if tier == "quick" else 7200)
        mod.run(chk)
        signal.alarm(0)
    except Hang:
        tb = sys.exc_info()[2]
        if not common.in_repo(tb):
            traceback.print_exc()
            print("MACHINERY-ERROR: time limit")
            return 2
        chk.violation("the code under test does not come to an end", traceback.format_exc()[-1500:])
    except MachineryError:
        if not chk.violations:
            traceback.print_exc()
            return 2
        print("(machinery stopped after violations had been found)")
    except Exception:
        tb = sys.exc_info()[2]
        if not common.in_repo(tb) and not chk.violations:
            traceback.print_exc()
            return 2
        chk.violation("unexpected exception in the code under test", traceback.format_exc()[-2500:])
    return chk.finish()


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
