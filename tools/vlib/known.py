"""The committed list of known findings.

Lines of known_findings.txt:
  KNOWN <property> <key> <description>      a genuine defect that is recorded and not repaired
  fixed: property=<id> <commit> <text>      a repaired defect (suppresses nothing)
"""
import os
from .env import VERIF


def load():
    out = {}
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for line in f:
            if line.startswith("KNOWN "):
                _, prop, key, desc = line.rstrip("\n").split(" ", 3)
                out[(prop, key)] = desc
    return out
