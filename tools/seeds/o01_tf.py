ID, PROPERTY = "o01-target-fun-scale", "O01"
NEEDS = "a scaled cross-section variable with several target properties, one of them given by a target function"
BREAKS = "the target function is evaluated with the unscaled value of the variable"
EDITS = [("metku/optimization/variables.py", "new_val = self.target_fun[p](new_value * self.scaling)", "new_val = self.target_fun[p](new_value)", 1)]
DEMO = '''
from metku.optimization.variables import CrossSectionVariable
class O: pass
m = O(); m.cross_section = O()
v = CrossSectionVariable("A", 1, 100, target={"property": ["A", "I"], "objects": [m]}, target_fun={"I": lambda A: A ** 2})
v.scale(10.0)
v.substitute(3.0)
assert m.cross_section.A == 30.0 and m.cross_section.I == 900.0, vars(m.cross_section)
'''
