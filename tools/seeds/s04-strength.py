ID, PROPERTY = "s04-stale-strength", "S04"
NEEDS = "a steel whose strength is changed, or that is given a lower strength for thick parts"
BREAKS = "resistance to shear uses the strength for thickness over 40 mm"
EDITS = [("metku/design/steel_section.py", "        return EC3_1.shear_resistance(self.profile.Avz, self.material.fy)", "        return EC3_1.shear_resistance(self.profile.Avz, self.material.fy_40)")]
DEMO = '''
from metku.profiles.steel import ISections
from metku.materials.steel import SteelMaterial
from metku.design import SteelSection
m = SteelMaterial(fy=355, fu=510, fy_40=335)
c = SteelSection(material=m, profile=ISections.HEA200)
assert abs(c.VzRd/(ISections.HEA200.Avz*355/3**0.5)-1) < 1e-9
'''
