ID = "p02-split-order"
PROPERTY = "P02"
NEEDS = "an open profile one of whose segments is split: the node goes to the right segment but to the wrong place of the list of nodes"
BREAKS = "sectorial coordinates (shear centre, warping constant) of profiles with a split segment"
EDITS = [("metku/eurocodes/en1993/en1993_1_3/open_prof.py", "        self.nodes.insert(n+1,new_node)\n", "        self.nodes.insert(max(n,1),new_node)\n")]
DEMO = '''
import metku.eurocodes.en1993
from metku.eurocodes.en1993.en1993_1_3.open_prof import OpenProf
P = [[50, 0], [0, 0], [0, 100], [50, 100]]
a, b = OpenProf(P, 2.0), OpenProf(P, 2.0)
b.split_segment(1, 0.4)
assert abs(a.warping_constant()/b.warping_constant()-1) < 1e-6, (a.warping_constant(), b.warping_constant())
assert abs(a.shear_center()[0]-b.shear_center()[0]) < 1e-6
'''
