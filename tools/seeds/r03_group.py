ID, PROPERTY = "r03-group-utilization", "R03"
NEEDS = "a member group in which a member other than the last has the largest utilization"
BREAKS = "utilization of a member group is that of its last overloaded-or-not member instead of the largest"
EDITS = [("metku/raami/frame_member.py", """            mem.design(load_id)
            rmax = max(rmax,mem.utilization[load_id])
""", """            mem.design(load_id)
            rmax = mem.utilization[load_id]
""", -1)]
DEMO = '''
from metku.raami.frame_member import MemberGroup
class M:
    def __init__(self, u): self.u, self.utilization = u, {}
    def design(self, i): self.utilization[i] = self.u
g = MemberGroup.__new__(MemberGroup)
g.members = [M(0.4), M(1.7), M(0.3)]; g.utilization = {}
g.design(1)
assert g.utilization[1] == 1.7 and not g.resistance_check
'''
