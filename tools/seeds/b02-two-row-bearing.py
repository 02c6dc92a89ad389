ID, PROPERTY = "b02-two-row-bearing", "B02"
NEEDS = "two vertical bolt rows with a horizontal spacing that governs the vertical bearing of the beam web"
BREAKS = "vertical bearing of the beam web ignores the spacing between the two vertical rows"
EDITS = [("metku/structures/steel/fin_plate_joint.py", "        pver = [self.p1,p2]\n", "        pver = [self.p1,max(self.p1,p2)]\n", 1)]
DEMO = '''
from metku.structures.steel.fin_plate_joint import FinPlateJoint
from metku.structures.steel.plates import RectPlateWithHoles
from metku.eurocodes.en1993.en1993_1_8.en1993_1_8 import Bolt
from metku.sections.steel.ISection import IPE
import inspect
sig = list(inspect.signature(FinPlateJoint.__init__).parameters)
import math
def joint(p2):
    p = RectPlateWithHoles(250, 300, 10, 22, [60, 40], p2, 110, 3, 2, "S355")
    J = FinPlateJoint(IPE(450), p, gh=10, bolt=Bolt(20, 8.8))
    return J
J = joint(52.0)
n, n1, e1, e2b, d0 = 6, 3, J.e1, J.e2b, 22.0
I = sum((x - 26) ** 2 + (y - 110) ** 2 for x in (0, 52) for y in (0, 110, 220))
a, b = J.z * 26 / I, J.z * 110 / I
fu, fub, t, d = J.beam.fu, 800.0, J.beam.tw, 20.0
def fb(ed, pd, ec, pc):
    al = min(ed / 3 / d0, fub / fu, 1.0)
    k = min(2.8 * ec / d0 - 1.7, 1.4 * pc / d0 - 1.7, 2.5)
    return k * al * fu * d * t / 1.25
ver, hor = fb(e1, 110, e2b, 52), fb(e2b, 52, e1, 110)
o = 1 / math.hypot((1 / n + a) / ver, b / hor)
got = J.beam_web_bearing()
assert abs(got / o - 1) < 1e-3, (got, o)
'''
