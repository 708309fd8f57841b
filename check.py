#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property of /repo."""
import os
import sys
import traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core
import importlib

WHERE = {"C01": "btree", "C02": "btree", "C03": "btree", "C04": "btree", "C05": "btree", "C06": "btree", "C08": "epoch", "C09": "epoch",
         "C17": "hasht", "C18": "hasht", "C07": "art", "C15": "art", "C16": "art",
         "C10": "cbt", "C11": "cbt", "C12": "cbt", "C13": "maps", "C14": "maps", "C21": "maps", "C22": "maps", "C23": "cbt", "C19": "ycsb", "C20": "ycsb"}


def main():
    prop = sys.argv[1]
    c = core.Check(prop, sys.argv[2] if len(sys.argv) > 2 else None)
    try:
        getattr(importlib.import_module(WHERE[prop]), prop.lower())(c)
        sys.exit(c.finish())
    except core.CheckError as e:
        print("ERROR:", e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)


main()
