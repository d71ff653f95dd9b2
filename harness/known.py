"""Known findings listed in known_findings.txt: ``known: property=<id> <key>: <text>``."""
import re
from harness.engine import ROOT


def listed(prop):
    out = {}
    for line in (ROOT / 'known_findings.txt').read_text().splitlines():
        m = re.match(rf'known: property={prop} ([\w-]+): (.*)', line)
        if m:
            out[m.group(1)] = m.group(2)
    return out
