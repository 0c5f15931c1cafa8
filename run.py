"""Entry point: /opt/venv/bin/python run.py C01 [--tier quick|thorough] [--replay FILE]"""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

if __name__ == "__main__":
    pid = sys.argv[1]
    try:
        mod = importlib.import_module(f"checks.{pid.lower()}")
        from vlib.core import main
    except BaseException:  # noqa: BLE001
        import traceback

        traceback.print_exc()
        sys.exit(3)
    rc = main(mod.P, sys.argv[2:])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
