ID, PROPERTY = "e01-leading-largest", "E01"
NEEDS = "two or more variable loads where the larger characteristic value has the larger combination factor, so that the smaller load should lead"
BREAKS = "only combinations with the largest variable load leading are considered, so the governing combination is missed"
EDITS = [("metku/eurocodes/en1991/en1991.py", "        for l in self.Q_k:\n            case2q1 = []\n            case2qi = []\n            case2q1.append({'load': l, 'factor': 1.5 * self.kfi})\n",
 "        # the largest variable load is the leading one\n        for l in sorted(self.Q_k, key=lambda q: -q[0].value)[:1]:\n            case2q1 = []\n            case2qi = []\n            case2q1.append({'load': l, 'factor': 1.5 * self.kfi})\n")]
DEMO = '''
from metku.eurocodes.en1991 import en1991 as C
u = C.ULSCombiner('E', 2, 1)
u.add([C.Load(1.0), 'y', [0]], [C.ImposedLoad(4.0), 'y', [0]], [C.WindLoad(3.0), 'y', [0]])
res = u.get_result()['y'][0]
# imposed load of class E: psi0 = 1.0; wind: psi0 = 0.6
want = max(1.35 * 1.0, 1.15 + 1.5 * 4 + 1.5 * 0.6 * 3, 1.15 + 1.5 * 3 + 1.5 * 1.0 * 4)
assert abs(res - want) < 0.02, (res, want)
'''
