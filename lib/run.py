"""python3-vt lib/run.py <property id>: run one check (VERIF_TIER selects the depth)."""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "engines"))
sys.dont_write_bytecode = True
import common  # noqa: E402
import symcore  # noqa: E402

ENGINES = {"C": "c_engine", "R": "rust_engine", "G": "go_engine", "T": "ts_engine", "S": "cs_engine",
           "Z": "zig_engine", "P": "py_engine"}


def main():
    prop = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = common.TIER = sys.argv[2]
    rep = common.Report(prop, "model_checking")
    try:
        mod = importlib.import_module(ENGINES[prop[0]])
        mod.run(prop, rep, common.TIER)
    except (Exception, symcore.PathEnd, symcore.Budget, symcore.Unsupported):
        traceback.print_exc()
        rep.error("internal error: " + traceback.format_exc(limit=3))
    rc = rep.finish()
    sys.stdout.flush()
    sys.stderr.flush()
    # leave no helper process behind
    import shutil
    if common._scratch:
        shutil.rmtree(common._scratch, ignore_errors=True)
    os._exit(rc)


main()
