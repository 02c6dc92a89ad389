ID, PROPERTY = "e02-leeward-interval", "E02"
NEEDS = 'a building with a height to depth ratio between 1 and 5'
BREAKS = 'suction of the leeward wall is interpolated over the wrong interval'
EDITS = [("metku/eurocodes/en1991/en1991_1_4.py", "            X = [1,5]            \n", "            X = [0.25,5]\n")]
DEMO = '''
from metku.eurocodes.en1991 import en1991_1_4 as W
z = W.rect_building_wall_pressure(length=20.0, width=10.0, h=20.0, qp=1.0, wind_dir="long")
# h/d = 2: E between -0.5 (h/d = 1) and -0.7 (h/d = 5)
assert abs(z["E"]["cpe"] + 0.55) < 1e-6, z["E"]
'''
