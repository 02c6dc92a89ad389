ID, PROPERTY = "w01-ridge-off-centre", "W01"
NEEDS = "a ridge beam whose apex is not at midspan, height asked beyond the apex"
BREAKS = "the height of a double tapered beam with an off-centre apex is wrong on the falling side"
EDITS = [("metku/sections/timber/timber_section.py", "                                                               ((self.hap - self.h0) / (1 - self.xap)) * self.xap), 0))\n", "                                                               (self.hap - self.h0)), 0))\n")]
DEMO = '''
from metku.sections.timber.timber_section import HarjaPalkki
o = HarjaPalkki(140, 400, 800, 0.3)
for x, h in ((0, 400), (0.3, 800), (0.65, 600), (1.0, 400)):
    assert abs(o.get_H(x) + 0 - h + 0) < 1e-6 or abs(o.get_H(x) - o.get_H(0) - h + 400) < 1e-6, (x, o.get_H(x))
o.Xap = 0.5
assert abs(o.get_H(1.0) - o.get_H(0.0)) < 1e-6
'''
