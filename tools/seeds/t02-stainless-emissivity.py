ID = "t02-stainless-emissivity"
PROPERTY = "T02"
NEEDS = "heating of an unprotected stainless steel section in any fire"
BREAKS = "the emissivity of stainless steel is given as that of the fire: the radiation is 0.4*0.7, the steel stays too cold"
EDITS = [("metku/eurocodes/en1993/en1993_1_2.py", "hnet(t_gas,Tsteel[-1],eps_m=0.4,ac=aconv)*dt", "hnet(t_gas,Tsteel[-1],eps_f=0.4,ac=aconv)*dt")]
DEMO = '''
import math
from metku.eurocodes.en1993 import en1993_1_2 as F
got, _ = F.stainless_steel_temp(0.7, 200, 900)
T = 20.0
for n in range(180):
    g = 20+345*math.log10(8*n*5/60+1)
    c = 450+0.28*T-2.91e-4*T**2+1.34e-7*T**3
    T += 0.7*200/c/7850*(25*(g-T)+0.4*5.67e-8*((g+273)**4-(T+273)**4))*5
assert abs(got[-1]-T) < 0.1, (got[-1], T)
'''
