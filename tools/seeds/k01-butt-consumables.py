ID, PROPERTY = "k01-butt-consumables", "K01"
NEEDS = "an assembly butt weld costed after a fillet weld or the other way round in the same workshop"
BREAKS = "weight of the weld is evaluated with the type of the weld costed before"
EDITS = [("metku/cost/workshop.py", "        self.weld_length = weld_length\n        self.weld_type = weld_type\n        \n        self.consumables()\n        self.productive_time()\n",
"        self.weld_length = weld_length\n        \n        self.consumables()\n        self.weld_type = weld_type\n        self.productive_time()\n")]
DEMO = '''
from metku.cost.workshop import Workshop
a, b = Workshop().cost_centres["assembly_welding"], Workshop().cost_centres["assembly_welding"]
a.cost(5, 100, "fillet"); x = a.cost(12, 800, "butt")
b.cost(5, 100, "butt"); y = b.cost(12, 800, "butt")
assert abs(x - y) < 1e-9, (x, y)
'''
