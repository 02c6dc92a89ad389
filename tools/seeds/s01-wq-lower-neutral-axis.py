ID, PROPERTY = "s01-wq-lower-neutral-axis", "S01"
NEEDS = "a WQ beam with a bottom flange of more than half of the area"
BREAKS = "a neutral axis in the bottom flange is not recognised"
EDITS = [("metku/sections/steel/wq.py", "        elif dpl > self.hw:\n            # neutral axis is in the bottom flange\n            # ", "        elif dpl > self.height:\n            # neutral axis is in the bottom flange\n            # ")]
DEMO = '''
from metku.sections.steel.wq import WQSection
s = WQSection(200, 6, [150, 450], [10, 40], 355)
# areas 1500 + 2*1200 and 18000: the neutral axis is in the bottom flange
A = s.area()
y = A / 2 / 450
W = 450 * (y ** 2 + (40 - y) ** 2) / 2 + 2400 * (140 - y) + 1500 * (235 - y)
assert abs(s.Wpl[0] / W - 1) < 1e-9, (s.Wpl, W)
'''
