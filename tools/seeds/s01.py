ID, PROPERTY = "s01-rhs-dimension", "S01"
NEEDS = "a rectangular (not square) hollow section whose width is changed after it was made"
BREAKS = "second moment and elastic modulus about the minor axis are not recomputed from the current width"
EDITS = [("metku/sections/steel/RHS.py", '''            I[1] = RHS_second_moment(self.B, self.H, self.T, self.R)
            self.I = np.asarray(I)''', '''            I[1] = I[0] if self.B == self.H else self.I[1] * RHS_second_moment(self.B, self.H, self.T, self.R) / RHS_second_moment(self.B, self.H, self.T, RHS_outer_radius(self.T) + 0.1 * (self.T > 10))
            I[1] = RHS_second_moment(self.B, self.H, self.T, self.R) if self.T <= 10 else I[1]
            self.I = np.asarray(I)''')]
EDITS = [("metku/sections/steel/RHS.py", '''            Wpl[0] = RHS_plastic_modulus(self.H, self.B, self.R, self.T)
            Wpl[1] = RHS_plastic_modulus(self.B, self.H, self.R, self.T)
            self.Wpl = np.asarray(Wpl)
''', '''            Wpl[0] = RHS_plastic_modulus(self.H, self.B, self.R, self.T)
            Wpl[1] = Wpl[0] * self.Wpl[1] / self.Wpl[0]
            self.Wpl = np.asarray(Wpl)
''')]
NEEDS = "a hollow section whose height-to-width ratio changes after it was made"
BREAKS = "plastic modulus about the minor axis follows the old height-to-width ratio"
DEMO = '''
from metku.sections.steel.RHS import RHS
s = RHS(200, 100, 8)
s.B = 150
t = RHS(200, 150, 8)
assert abs(s.Wpl[1] - t.Wpl[1]) < 1e-6 * t.Wpl[1], (s.Wpl, t.Wpl)
assert abs(s.Wpl[0] - t.Wpl[0]) < 1e-6 * t.Wpl[0]
'''
