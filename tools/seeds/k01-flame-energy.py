ID, PROPERTY = "k01-flame-energy", "K01"
NEEDS = "a plate thicker than 30 mm cut after a plate of at most 30 mm in the same workshop"
BREAKS = "flame cutting keeps the electricity consumption of the preceding plasma cut"
EDITS = [("metku/cost/workshop.py", "        if t_p <= 30:\n            # Plasma cutting\n            P_total = 72.0\n        else:\n            # Flame cutting\n            P_total = 0.0\n            \n        # Cost of energy [e/min]\n        self.productive_costs[\"energy\"] = P_total*cost_energy_min\n",
"        if t_p <= 30:\n            # Plasma cutting\n            P_total = 72.0\n            # Cost of energy [e/min]\n            self.productive_costs[\"energy\"] = P_total*cost_energy_min\n", 0)]
DEMO = '''
from metku.cost.workshop import Workshop
import metku.eurocodes.en1993
from metku.structures.steel.plates import RectPlate
a, b = Workshop(), Workshop()
thick = lambda: RectPlate(300, 500, 40, "S355")
c0 = thick().cost(a)
RectPlate(300, 500, 20, "S355").cost(b)
c1 = thick().cost(b)
assert abs(c0 - c1) < 1e-9, (c0, c1)
'''
