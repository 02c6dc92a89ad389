ID, PROPERTY = "b02-stale-edge", "B02"
NEEDS = "plate height, bolt number or spacing changed and block tearing of the plate queried before anything that refreshes the hole position"
BREAKS = "block tearing of the plate uses the edge distance that was valid at the last query"
EDITS = [("metku/structures/steel/fin_plate_joint.py", "        Anv = self.tp*(self.hp-self.e1-(self.plate.n1-0.5)*self.d0)\n", "        Anv = self.tp*(self.hp-self.plate.eTop()-(self.plate.n1-0.5)*self.d0)\n")]
DEMO = '''
from metku.structures.steel.fin_plate_joint import FinPlateJoint
from metku.structures.steel.plates import RectPlateWithHoles
from metku.eurocodes.en1993.en1993_1_8.en1993_1_8 import Bolt
from metku.sections.steel.ISection import IPE
def joint():
    return FinPlateJoint(IPE(450), RectPlateWithHoles(120, 240, 10, 22, [60, 50], 0, 70, 3, 1, "S355"), gh=10, bolt=Bolt(20, 8.8))
a, b = joint(), joint()
for J in (a, b):
    J.fin_plate_bearing()
    J.hp = 300.0
b.fin_plate_bearing()
x, y = a.fin_plate_block_tearing(), b.fin_plate_block_tearing()
assert abs(x / y - 1) < 1e-9, (x, y)
'''
