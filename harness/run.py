"""usage: run.py PROPERTY   (VERIF_TIER, VERIF_SEED in the environment)"""
import importlib
import logging
import os
import sys
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = "/repo"
sys.path.insert(0, REPO)
logging.disable(logging.CRITICAL)

import vlib                                              # noqa


def main():
    pid = sys.argv[1]
    ctx = vlib.Ctx(pid)
    try:
        mod = importlib.import_module(pid.lower())
        import pyslet
        assert os.path.dirname(os.path.dirname(
            os.path.abspath(pyslet.__file__))) == REPO, pyslet.__file__
        mod.run(ctx)
        rc = ctx.finish()
    except Exception as e:
        traceback.print_exc()
        rc = 2
        last = getattr(e, "last", None) or \
            traceback.extract_tb(e.__traceback__)[-1].filename
        if not isinstance(e, vlib.MachineryError) and \
                os.path.abspath(last).startswith(REPO + "/"):
            # the code failed where the harness has no use for an error
            # (it records the ones a specification has something to say on)
            ctx.violation("unexpected exception", {
                "cfg": {}, "ev": [traceback.format_exc()]}, 1)
            rc = ctx.finish()
    finally:
        ctx.close()
    sys.stdout.flush()
    os._exit(rc)


main()
