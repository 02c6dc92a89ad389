ID, PROPERTY = "s03-wq-web-depth", "S03"
NEEDS = "a WQ beam with a slender web that is just within its class between the flanges"
BREAKS = "the compressed web of a WQ section is classified by its height over the top flange as well"
EDITS = [("metku/sections/steel/wq.py", '        """ Determine class of compressed web """\n        rw = self.hw / self.tw\n', '        """ Determine class of compressed web """\n        rw = self.Aw / self.tw ** 2\n')]
DEMO = '''
from metku.sections.steel.wq import WQSection
s = WQSection(420, 15, [200, 450], [40, 25], 355)
s.Ned, s.Med = -1e6, [0.0, 0.0]
# (420 - 40)/15 = 25.3 < 33*0.814 = 26.8
assert s.section_class() == 1, s.section_class()
'''
