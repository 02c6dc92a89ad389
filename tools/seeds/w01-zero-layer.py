ID, PROPERTY = "w01-zero-layer", "W01"
NEEDS = "a side protected so well that charring starts after 20 minutes, asked before charring starts"
BREAKS = "the zero strength layer behind a good protection develops in 20 minutes instead of linearly until charring starts"
EDITS = [("metku/eurocodes/en1995/en1995_1_2.py", "            if t <= fp.t_ch:\n                k0 = t/fp.t_ch\n", "            if t <= 20:\n                k0 = t/20\n")]
DEMO = '''
from metku.eurocodes.en1995.en1995_1_2 import d_char_n
from metku.eurocodes.en1995.fire_protection import FireProtection
fp = FireProtection(40, 15, 55)
fp.t_a = 70.0
assert abs(d_char_n(fp, 20, 0.7) - 3.5) < 1e-9, d_char_n(fp, 20, 0.7)
assert abs(d_char_n(fp, 30, 0.7) - 5.25) < 1e-9
assert abs(d_char_n(None, 30, 0.7) - 28) < 1e-9
'''
