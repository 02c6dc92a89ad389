ID = "t02-hardening-window"
PROPERTY = "T02"
NEEDS = "the stress-strain curve of carbon steel with hardening below 400 degrees at a strain between 15 and 20 per cent, or between 2 and 4 per cent above 300 degrees"
BREAKS = "the curve with hardening uses the ultimate strength of the plateau only: the descending branch is measured from the yield strength, so the stress jumps at 15 % strain"
EDITS = [("metku/eurocodes/en1993/en1993_1_2.py", "            st = fu_T*(1-20*(strain-0.15))", "            st = fu_T - 20*fy_t*(strain-0.15)")]
DEMO = '''
import metku.eurocodes.en1993
from metku.materials.steel_data import Steel
s = Steel("S355")
for t in (100, 250, 350):
    for e in (0.16, 0.17, 0.19):
        fy = s.fy_temp(t)
        fu = fy*(1.25 if t < 300 else 2-0.0025*t)
        w = fu*(0.20-e)/0.05
        assert abs(s.stress_temp(e, t, True)-w) < 1e-6*w, (t, e, s.stress_temp(e, t, True), w)
    assert abs(s.stress_temp(0.2-1e-9, t, True)) < 1e-3
'''
