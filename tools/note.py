#!/usr/bin/env python3
"""note.py ID TECHNIQUE NOTE: sets the technique and the level note of a check"""
import json, sys
p = "/verif/tools/notes.json"
d = json.load(open(p))
d[sys.argv[1]] = {"technique": sys.argv[2], "note": sys.argv[3]}
json.dump(d, open(p, "w"), indent=1)
