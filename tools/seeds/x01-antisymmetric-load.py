ID, PROPERTY = "x01-antisymmetric-load", "X01"
NEEDS = "a Frame2D member with a line load that changes linearly from q to -q"
BREAKS = "the load is written to the Robot file as a uniform load"
EDITS = [("metku/frame2d/frame2d.py", "                        if q0 != q1:", "                        if abs(q0) != abs(q1):")]
DEMO = '''
import os, tempfile, shutil
import metku.eurocodes.en1993
import metku.frame2d.frame2d as FD
d = tempfile.mkdtemp()
old = os.getcwd()
os.chdir(d)
try:
    f = FD.Frame2D()
    c1 = FD.SteelColumn([[0, 0], [0, 4000]], profile="HE 240 A")
    b = FD.SteelBeam([[0, 4000], [6000, 4000]], profile="IPE 300")
    for m in (c1, b):
        f.add(m)
    f.add(FD.FixedSupport([0, 0]))
    f.add(FD.LineLoad(b, [-20.0, 20.0], 'y'))
    f.to_robot("f")
    t = open("f.str").read().split("LOAds")[1]
finally:
    os.chdir(old)
    shutil.rmtree(d)
v = [float(w.split("=")[1]) for w in t.split() if w.startswith("PZ=")]
assert v == [-20.0, 20.0], t
'''
