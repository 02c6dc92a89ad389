ID, PROPERTY = "b01-uneven-rows", "B01"
NEEDS = "a group of at least three tension rows with uneven spacing governed by the end plate"
BREAKS = "effective length of an inner row of a group uses the spacing to the row below only"
EDITS = [("metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py", "            elif position == OTHER_INNER_ROW:\n                row.Tstub_end_plate.p = 0.5*(self.group.p[i-1]+self.group.p[i])\n                \n", "            elif position == OTHER_INNER_ROW:\n                row.Tstub_end_plate.p = self.group.p[i]\n                \n")]
DEMO = '''
import io, contextlib
from metku.structures.steel.end_plate_joint import *
def joint(zs):
    beam = IPE(500, fy=235)
    pos = [{"flange": END_ROW, "plate": FIRST_ROW_BELOW_BEAM_TENSION_FLANGE}, {"flange": INNER_ROW, "plate": OTHER_INNER_ROW}, {"flange": END_ROW, "plate": OTHER_END_ROW}]
    return EndPlateJoint(HEA(340, fy=235), beam, tp=12, bp=240, mat_p="S235", etop=15, ebottom=15, bolt=Bolt(20, 8.8), y_bolts=zs, e_bolts=60,
                         bolt_row_pos=pos, groups=[[0, 1, 2]], group_pos=[pos], row_types=[TENSION_ROW] * 3)
with contextlib.redirect_stdout(io.StringIO()):
    c = joint([180.0, 120.0, 10.0])
    T = c.row_groups[0].Tstub_end_plate
    a = T.leff_nc
    rows = [r.Tstub_end_plate for r in c.bolt_rows]
    m, e = rows[0].m, rows[0].e
    import metku.eurocodes.en1993.en1993_1_8.component_method as cm
    want = 0.5 * 60 + cm.new_alpha(e, m, rows[0].m2) * m - (2 * m + 0.625 * e) + 0.5 * (60 + 110) + 2 * m + 0.625 * e + 0.5 * 110
assert abs(a - want) < 1e-6, (a, want)
'''
