ID, PROPERTY = "w02-end-column", "W02"
NEEDS = "a beam between two columns of different height with a section in the reduction zone of its end"
BREAKS = "the shear force reduction at the end of a beam uses the depth of the column at its start"
EDITS = [("metku/structures/timber/timber_member.py", "                    other_h_end = section_depth(end[0].cross_section) / 2\n                sumH_end = (other_h_end + self.section.get_H(0)) / self.length\n", "                    other_h_end = section_depth(end[0].cross_section) / 2\n                sumH_end = sumH_start if len(end) == len(start) else (other_h_end + self.section.get_H(0)) / self.length\n")]
DEMO = '''
from metku.sections.timber.timber_section import TimberSection
from metku.materials.timber_data import T
from metku.structures.timber.timber_member import TimberMember
class O: pass
def col(H):
    q = O(); q.member = O(); q.cross_section = O(); q.cross_section.H = H
    return q
def beam(ha, hb):
    p = O(); p.n1, p.n2 = O(), O(); p.length = 6000.0; p.loads = []
    p.n1.parents, p.n2.parents = [col(ha)], [col(hb)]
    s = TimberSection(140, 400, T.GL30c)
    m = TimberMember(s, s.material, 6000.0, 'mt', 1, parent=p, nodes={}, lateral_support_y=[], lateral_support_z=[])
    s.timber_member = m
    for x in [i / 20 for i in range(21)]:
        m.add_section(vzed=60e3 * (1 - 2 * x), myed=1e6, loc=x)
    m.calc_l_c()
    return m
a, b = beam(1000.0, 200.0), beam(200.0, 1000.0)
# the same beam seen from the other side
ua = a.check_shear_force(a.nsect() - 1)
ub = b.check_shear_force(0)
assert abs(ua - ub) < 1e-9 * ua, (ua, ub)
'''
