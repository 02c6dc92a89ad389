ID, PROPERTY = "w02-mixed-axial", "W02"
NEEDS = "a segment with compression at some sections and a larger tension at another"
BREAKS = "a member segment with a larger tension force elsewhere is not checked for buckling"
EDITS = [("metku/structures/timber/timber_member.py", "                max_sigma_c0d = min(max_sigma_c0d_list)\n", "                max_sigma_c0d = max(max_sigma_c0d_list, key=abs)\n")]
DEMO = '''
from metku.sections.timber.timber_section import TimberSection
from metku.materials.timber_data import T
from metku.structures.timber.timber_member import TimberMember
class O: pass
p = O(); p.n1, p.n2 = O(), O(); p.length = 5000.0; p.loads = []
p.n1.parents, p.n2.parents = [], []
def column(n):
    s = TimberSection(140, 200, T.GL30c)
    m = TimberMember(s, s.material, 5000.0, 'mt', 1, mtype='other', parent=p, nodes={}, lateral_support_y=[], lateral_support_z=[])
    s.timber_member = m
    for i, x in enumerate((0.0, 0.5, 1.0)):
        m.add_section(ned=n[i], myed=1e6, loc=x)
    m.calc_l_c()
    return m.check_buckling()
a, b = column([-50e3, -40e3, -10e3]), column([-50e3, -40e3, 80e3])
assert max(b) > 0 and abs(a[0] - b[0]) < 1e-9 * a[0], (a, b)
'''
