ID, PROPERTY = "r04-moment-at-end", "R04"
NEEDS = "the largest moment of a member is at its second end with a smaller magnitude at the first ends of all its elements, in a later load case"
BREAKS = "largest forces of a member take the first ends of the elements only"
EDITS = [("metku/frame2d/frame2d.py", "            bending_moment = absmax(element.fint[load_id]['my'])\n            if abs(bending_moment) > abs(max_med):\n                max_med = bending_moment\n\n            \"\"\"\n", "            bending_moment = absmax(element.fint[load_id]['my'][:1])\n            if abs(bending_moment) > abs(max_med):\n                max_med = bending_moment\n\n            \"\"\"\n"),
 ("metku/frame2d/frame2d.py", "                bending_moment = absmax(element.fint[load_id]['my'])\n                if abs(bending_moment) > abs(max_med):\n                    max_med = bending_moment\n", "                bending_moment = element.fint[load_id]['my'][1]\n                if bending_moment > abs(max_med):\n                    max_med = bending_moment\n")]
DEMO = '''
from metku.frame2d.frame2d import *
f = Frame2D()
a = SteelFrameMember([[0, 0], [5000, 0]], profile='IPE 300', mtype='rigid', num_elements=4)
f.add(a)
f.add(FixedSupport([5000, 0]))
f.add(PointLoad([0, 0], [0, -1e4, 0]))
f.add(PointLoad([0, 0], [0, 2e4, 0], load_id=2))
f.generate()
for lid, want in ((LoadIDs.ULS, 5e7), (2, 1e8)):
    f.calculate(lid)
    f.calc_nodal_forces(lid)
    assert abs(abs(a.med) - want) < 1e3, (lid, a.med)
'''
