import json,sys,math,numbers
def f(t):
    if not isinstance(t,list): return t
    if t[0]==9: return [float('nan'),float('inf'),float('-inf')][t[1]]
    if t[0]==8: return 'PANIC'
    v=0
    for i,l in enumerate(t[2:]): v+=l<<(15*i)
    from fractions import Fraction
    return float(t[0]*v*Fraction(32768)**t[1])
def enc(x):
    """the exact value of a double as a canonical Real of the specification"""
    if isinstance(x, bool) or not isinstance(x, numbers.Real): return [9, 0]
    x = float(x)
    if math.isnan(x): return [9, 0]
    if math.isinf(x): return [9, 1 if x > 0 else -1]
    if x == 0: return [0, 0]
    n, d = abs(x).as_integer_ratio()
    e = -(d.bit_length() - 1)
    q, r = e // 15, e % 15
    m = n << r
    while m % 32768 == 0: m //= 32768; q += 1
    l = []
    while m: l.append(m % 32768); m //= 32768
    return [1 if x > 0 else -1, q] + l
