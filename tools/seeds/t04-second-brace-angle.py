ID, PROPERTY = "t04-second-brace-angle", "T04"
NEEDS = "a K joint of a Truss2D whose two braces have different angles"
BREAKS = "the second brace is not on its line: the gap and the eccentricity of the joint are not those of the truss"
EDITS = [("metku/truss2d/truss2d.py", "            d2 = abs(self.chord.h / 2 / np.tan(theta2))\n            c02 += self.chord.unit * d2\n\n            if np",
          "            d2 = abs(self.chord.h / 2 / np.tan(theta1))\n            c02 += self.chord.unit * d2\n\n            if np")]
DEMO = '''
import matplotlib
matplotlib.use("Agg")
import numpy as np
import metku.eurocodes.en1993
from metku.truss2d.truss2d import Truss2D
t = Truss2D(simple=dict(H0=0, H1=1200, H2=2200, L1=10000, n=16, dx=1000))
for _ in range(10):
    t.update_model()
n = 0
for j in t.joints.values():
    if j.joint_type != "K" or not 0.01 < j.loc < 0.99:
        continue
    top = j.chord.mtype == "top_chord"
    e = []
    for w in j.webs.values():
        p = np.array(w.top_coord if top else w.bot_coord, float)
        u = np.array(w.top_coord, float) - np.array(w.bot_coord, float)
        u /= np.hypot(*u)
        d = p - (np.array(j.coordinate, float) - j.e * np.array(j.chord.perpendicular))
        e.append(abs(d[0] * u[1] - d[1] * u[0]))
    assert max(e) < 2, (j.jid, e)
    n += 1
assert n > 8
'''
