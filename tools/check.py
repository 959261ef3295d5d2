#!/usr/bin/env python3
"""python3 tools/check.py CXX : decides one property for the current tree of the repository."""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from core import Ctx, CheckError   # noqa: E402


def main():
    prop = sys.argv[1]
    table = {"C01": "c_value", "C11": "c_value", "C02": "c_auth", "C03": "c_auth", "C05": "c_auth", "C04": "c_auth", "C08": "c_state", "C10": "c_state", "C06": "c_mem", "C07": "c_mem", "C12": "c_ct", "C09": "c_conc", "C13": "c_frame", "C14": "c_len", "C15": "c_build", "C16": "c_port", "C17": "c_work", "C18": "c_work"}
    import importlib
    fn = getattr(importlib.import_module(table[prop]), prop.lower())
    ctx = Ctx(prop)
    try:
        return fn(ctx)
    except CheckError as e:
        print("check error:", e, file=sys.stderr)
        return 3
    except Exception:
        traceback.print_exc()
        return 4
    finally:
        ctx.scratch.close()


sys.exit(main())
