ID, PROPERTY = "t04-uplift-deflection", "T04"
NEEDS = "a Truss2D with an uplift load"
BREAKS = "the deflection of the bottom chord is that of a support or zero, not the largest upward displacement"
EDITS = [("metku/truss2d/truss2d.py", "            abs_Y = [abs(disp[1]) for disp in disps.values()]", "            abs_Y = [-disp[1] for disp in disps.values()]")]
DEMO = '''
import matplotlib
matplotlib.use("Agg")
import metku.eurocodes.en1993
import metku.frame2d.frame2d as FD
from metku.truss2d.truss2d import Truss2D
w = []
for q in (-20, 20):
    t = Truss2D(simple=dict(H0=0, H1=1200, H2=2200, L1=10000, n=16, dx=1000), q=q)
    t.add(FD.XYHingedSupport([0, 1200]))
    t.add(FD.YHingedSupport([20000, 1200]))
    t.generate()
    t.calculate(load_id=FD.LoadIDs.ULS)
    w.append(t.get_deflection(FD.LoadIDs.ULS))
assert abs(w[0] - w[1]) < 1e-6 * w[0], w
'''
