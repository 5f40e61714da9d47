"""Worker: reads cases (one JSON per line) from stdin, answers with results on a private channel."""

import importlib
import json
import logging
import os
import pathlib
import sys
import warnings

import core


def main() -> None:
    prop, seed, tier, scratch = sys.argv[1], int(sys.argv[2]), sys.argv[3], pathlib.Path(sys.argv[4])
    chan = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)  # whatever the code under test prints goes to the log
    warnings.simplefilter("ignore")
    mod = importlib.import_module(prop.lower())
    if not getattr(mod, "NO_IMPORT", False):
        import sleplet  # noqa: F401

        f = pathlib.Path(sleplet.__file__).resolve()
        if not str(f).startswith(core.REPO_SRC):
            print(f"sleplet imported from {f}", file=sys.stderr)
            sys.exit(3)
        logging.getLogger("sleplet").setLevel(getattr(mod, "LOG_LEVEL", logging.CRITICAL))
    chan.write("READY\n")
    chan.flush()
    env0 = dict(os.environ)
    for line in sys.stdin:
        case = json.loads(line)
        d = scratch / f"case{case['#']}"
        d.mkdir()
        os.environ.clear()
        os.environ.update(env0)
        ctx = core.Ctx(prop, case, d, seed, tier)
        ctx.fresh_data()
        core.run_guarded(mod, ctx)
        os.environ.clear()
        os.environ.update(env0)
        core.shutil.rmtree(d, ignore_errors=True)
        chan.write(json.dumps(ctx.result(), default=str) + "\n")
        chan.flush()


if __name__ == "__main__":
    main()
