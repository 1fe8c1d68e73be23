#!/usr/bin/env python3
"""corpus_add.py REPLAY...: append replay files to corpus/<id>.json"""
import json
import os
import sys

BASE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "corpus")


def main():
    for name in sys.argv[1:]:
        with open(name) as f:
            r = json.load(f)
        path = os.path.join(BASE, r["property"] + ".json")
        items = []
        if os.path.exists(path):
            with open(path) as f:
                items = json.load(f)
        new = {"family": r["family"], "case": r["case"]}
        if new not in items:
            items.append(new)
        with open(path, "w") as f:
            f.write("[\n" + ",\n".join(json.dumps(i, sort_keys=True)
                                       for i in items) + "\n]\n")


if __name__ == "__main__":
    main()
