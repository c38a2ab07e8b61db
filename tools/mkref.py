#!/usr/bin/env python3
"""Writes spec/reference.json.xz: the type-checked MIR of the reviewed tree, to which rules of the conformance kind compare /repo.
Run it only after a reviewed change of /repo (a fix: commit)."""
import json
import lzma
import os
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core

d = tempfile.mkdtemp()
core.extract(d)
out = {}
for n in ("mutagenyx.json", "mutagenyx_lib.json"):
    out[n] = json.load(open(os.path.join(d, n)))
p = os.path.join(core.HERE, "spec", "reference.json.xz")
os.makedirs(os.path.dirname(p), exist_ok=True)
with lzma.open(p, "wt", preset=9) as f:
    json.dump(out, f, sort_keys=True, separators=(",", ":"))
print(p, os.path.getsize(p))
