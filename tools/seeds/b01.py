ID, PROPERTY = "b01-stale-leff", "B01"
NEEDS = "initial stiffness queried after a moment resistance and a later change of bolt distances, end plate width or column without a new moment resistance in between"
BREAKS = "stiffness of the column flange uses the effective length stored by the latest resistance evaluation instead of the present one"
EDITS = [("metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py", "        beff_row = min(self.Tstub_col_flange.leff_cp,self.Tstub_col_flange.leff_nc)\n        #beff_group = 1e5\n        beff_group = self.leff_flange_group()\n        leff = min(beff_row,beff_group)        \n",
"        stub = self.Tstub_col_flange\n        beff_row = min(stub.leff_cp,stub.leff_nc) if stub.failure_mode == -1 else min(stub._leff)\n        #beff_group = 1e5\n        beff_group = self.leff_flange_group()\n        leff = min(beff_row,beff_group)        \n")]
DEMO = '''
import io, contextlib
from metku.structures.steel import end_plate_joint as E
def joint(e):
    c = E.example_diaz(connection="B")
    c.row_groups.clear()
    for row in c.bolt_rows:
        row.groups.clear()
    return c
with contextlib.redirect_stdout(io.StringIO()):
    a = joint(0); a.MjRd; a.ebolts = 32.0; sa = a.Sj_ini()
    b = joint(0); b.ebolts = 32.0; b.MjRd; sb = b.Sj_ini()
assert abs(sa / sb - 1) < 1e-9, (sa, sb)
'''
