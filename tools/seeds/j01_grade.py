ID, PROPERTY = "j01-brace-grade", "J01"
NEEDS = "a K gap joint whose second brace has another steel grade than the first, in a chord thin enough for the effective width to govern"
BREAKS = "effective width of the second brace uses the yield strength of the first brace"
EDITS = [("metku/eurocodes/en1993/en1993_1_8/rhs_joints.py", "        beff = np.minimum(10/(self.b0/t0)*fy0*t0/(fy*t),1)*b\n", "        beff = np.minimum(10/(self.b0/t0)*fy0*t0/(fy[0]*t),1)*b\n", 0)]
DEMO = '''
from metku.sections.steel.RHS import SHS
from metku.eurocodes.en1993.en1993_1_8.rhs_joints import RHSKGapJoint
def res(f1, f2):
    b1, b2 = SHS(120, 6, f1), SHS(120, 6, f2)
    b1.Ned, b2.Ned = -3e5, 3e5
    return RHSKGapJoint(SHS(200, 6, 355), [b1, b2], [45, 45], 30, N0=-5e5).brace_failure()
a, b = res(355, 700), res(700, 355)
assert abs(a[0] - b[1]) < 1 and abs(a[1] - b[0]) < 1, (a, b)
'''
