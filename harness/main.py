"""main.py check <ID> [quick|thorough]   |   main.py replay <file>"""
import json
import os
import sys

os.environ.setdefault("MPLBACKEND", "agg")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib  # noqa: E402


def main():
    if sys.argv[1] == "check":
        tier = sys.argv[3] if len(sys.argv) > 3 else os.environ.get("VERIF_TIER", "quick")
        return vlib.run_check(sys.argv[2], tier)
    if sys.argv[1] == "replay":
        import importlib
        import tempfile
        import shutil
        doc = json.load(open(sys.argv[2]))
        mod = importlib.import_module("p_" + doc["property"])
        scratch = tempfile.mkdtemp(prefix="verif_replay_")
        try:
            mass = vlib.import_mass(vlib.build_tree(scratch))
            mod.mass = mass
            fn = mod.REPLAY[doc.get("label", "")]
            r = vlib._worker((fn, 0, doc["trace"], scratch, 600, doc.get("label", "")))
            print(json.dumps(r, indent=1, default=str) if r else "not reproduced")
            return 1 if r else 0
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    raise SystemExit(__doc__)


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
