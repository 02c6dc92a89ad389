ID, PROPERTY = "j01-light-compression", "J01"
NEEDS = "a chord in light compression (stress ratio below 0.75 of the width ratio)"
BREAKS = "the chord stress factor exceeds 1.0, so light compression raises the resistance"
EDITS = [("metku/eurocodes/en1993/en1993_1_8/rhs_joints.py", "            kn = min(1.3-0.4*n/b, 1.0)\n", "            kn = max(1.3-0.4*n/b, 0.0)\n")]
DEMO = '''
from metku.sections.steel.RHS import SHS
from metku.eurocodes.en1993.en1993_1_8.rhs_joints import RHSYJoint
def res(N0):
    b = SHS(100, 5, 355); b.Ned = -1e5
    return RHSYJoint(SHS(200, 8, 355), b, 60, N0=N0).chord_face_failure()
assert res(-2e5) <= res(1e5) * 1.0000001 and res(-1e6) < res(1e5), (res(-2e5), res(1e5))
'''
