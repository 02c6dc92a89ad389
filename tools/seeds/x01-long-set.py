ID, PROPERTY = "x01-long-set", "X01"
NEEDS = "a set of more than fifteen elements"
BREAKS = "every sixteenth element is missing from its set (and has no section)"
EDITS = [("metku/raami/exports.py", "        file.write(', '.join(str(r) for r in els[i:i+16]))", "        file.write(', '.join(str(r) for r in els[i:i+15]))")]
DEMO = '''
import os, io
from metku.raami.exports import write_elset
f = io.StringIO()
write_elset(f, "S", list(range(1, 41)))
got = [int(v) for l in f.getvalue().splitlines()[1:] for v in l.split(",")]
assert got == list(range(1, 41)), got
'''
