#!/usr/bin/env python3
"""pyreplay IN OUT SEED: replays a recorded history (driver objects | damage | hyper) through the Python interface of the
library, and writes what that returns.  Objects: f (fields) and m (methods) of each event become those of Python objects.
Networks: p, q hold the results of Python.  Runs under the Python that has numpy, with polymers.so on the path."""
import sys, json, math, random
import numpy as np
import polymers
from dec import f as dec, enc

PANIC = [8, 0]
def guard(f):
    try: return f()
    except (Exception, BaseException) as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)): raise
        return None

SC = polymers.physics.single_chain
def cls(path):
    m = SC
    for p in path: m = getattr(m, p)
    c = [getattr(m, x) for x in dir(m) if isinstance(getattr(m, x), type)]
    assert len(c) == 1, path
    return c[0]
def params(o): return [x for x in o.__text_signature__.strip('()').replace(' ', '').replace('$self,', '').replace('$self', '').split(',') if x and x != '/']
def build(path, a, deep):
    k = 1 if deep and path[0] != 'ufjc' else 2 if deep else len(path)
    c = cls(path[:k])
    o = c(**{p: a[p] for p in params(c)})
    for p in path[k:]: o = getattr(o, p)
    return o
INIT = ['number_of_links', 'link_length', 'hinge_mass', 'link_stiffness', 'link_energy', 'well_width', 'persistance_length']
FIELDS = INIT + ['nondimensional_link_stiffness', 'nondimensional_persistance_length']
def fields(o, names): return {n: enc(getattr(o, n)) for n in names if hasattr(o, n)}
def method(o, n, a, rng):
    """one method at one state: the first argument is an array, in which the state stands at a random place"""
    f = getattr(o, n)
    ps = params(f)
    shape = rng.choice([(1,), (4,), (2, 3), (3, 1, 2), ()]) if rng.random() > 0.01 else rng.choice([(1500,), (70, 41), (2, 3, 2, 3, 2)])
    x = np.full(shape, a[ps[0]])
    at = tuple(rng.randrange(s) for s in shape)
    if x.size > 1:
        for i in np.ndindex(*shape):
            if i != at: x[i] = a[ps[0]] * rng.uniform(0.9, 1.0)
    if len(shape) == 2 and rng.random() < 0.5: x = np.asfortranarray(x)
    if rng.random() < 0.3: x = np.repeat(x, 2, axis=-1)[..., ::2] if shape else x
    y = f(x, *[a[p] for p in ps[1:]])
    if not isinstance(y, np.ndarray) or y.shape != x.shape: return [8, 1]
    if rng.random() < 0.02:
        y0 = f(np.zeros((0, 2)), *[a[p] for p in ps[1:]])
        if not isinstance(y0, np.ndarray) or y0.shape != (0, 2): return [8, 1]
    return enc(y[at])
def values(o, a, names, rng): return {n: guard(lambda: method(o, n, a, rng)) or PANIC for n in names}
def args(e): return {k: (v if not isinstance(v, list) else dec(v)) for k, v in e['a'].items()}

def objects(evs, out, rng):
    live = {}
    for e in evs:
        path = e['mod'].split('/')
        if e['s'] == 1: live = {}
        if e['tag'] == 'create':
            o = guard(lambda: build(path, args(e), e['deep']))
            e['f'] = fields(o, e['f']) if o is not None else {n: PANIC for n in e['f']}
            if o is None: e['a'] = {n: e['a'][n] for n in e['a']}
            live[e['id']] = o
        elif e['tag'] in ('call', 'again'):
            o = live[e['id']]
            # an argument that only a free function takes belongs to the object
            seed = rng.getrandbits(32) if e['tag'] == 'call' else None
            names = [n for n in e['m'] if hasattr(o, n)]
            e['m'] = values(o, args(e), names, rng)
            e['missing'] = sorted(n for n in e['r'] if not hasattr(o, n))
        out.append(e)
def levels(out, rng):
    """every structure of every hierarchy"""
    tops = [['efjc'], ['fjc'], ['ideal'], ['swfjc'], ['wlc'], ['ufjc', 'lennard_jones'], ['ufjc', 'log_squared'], ['ufjc', 'morse']]
    def walk(o, path, a, n, depth):
        for x in sorted(dir(o)):
            y = getattr(o, x)
            if x.startswith('_') or callable(y) or isinstance(y, (int, float)): continue
            fs = fields(y, FIELDS)
            out.append({'s': n, 'tag': 'level', 'mod': '/'.join(path + [x]), 'a': a, 'f': fs})
            walk(y, path + [x], a, 0, depth + 1)
    for t in tops:
        for k in range(2):
            a = dict(number_of_links=rng.randrange(2, 30), link_length=rng.uniform(0.2, 5), hinge_mass=rng.uniform(0.2, 5), link_stiffness=math.exp(rng.uniform(7, 12)), link_energy=math.exp(rng.uniform(7, 12)), well_width=rng.uniform(0.1, 2), persistance_length=rng.uniform(0.2, 5))
            # every class of the hierarchy, constructed on its own too
            def classes(m, path):
                for x in sorted(dir(m)):
                    y = getattr(m, x)
                    if isinstance(y, type): yield path, y
                    elif not x.startswith('_'): yield from classes(y, path + [x])
            m = SC
            for p in t: m = getattr(m, p)
            for path, c in classes(m, t):
                o = guard(lambda: c(**{p: a[p] for p in params(c)}))
                ea = {p: (v if p == 'number_of_links' else enc(v)) for p, v in a.items()}
                out.append({'s': 1, 'tag': 'level', 'mod': '/'.join(path), 'a': ea, 'f': fields(o, FIELDS) if o is not None else {'number_of_links': PANIC}})
                if o is not None: walk(o, path, ea, 0, 0)
def net(evs, out, rng):
    C = polymers.constitutive
    def one(y): return enc(y.item()) if isinstance(y, np.ndarray) and y.size == 1 else [8, 1]
    k = 0
    o = None
    while k < len(evs):
        e = evs[k]
        if e['tag'] == 'mirror':
            a = args(e); b = C.hyperelastic.BucheSilberstein(a['method'], a['k'], a['n'])
            l = a['lam']
            e['pequi'] = guard(lambda: one(b.equibiaxial_tension(np.array([l])))) or PANIC
            e['puni'] = guard(lambda: one(b.uniaxial_tension(np.array(1 / (l * l))))) or PANIC
            out.append(e)
        elif e['tag'] == 'network':
            x = {n: (v if not isinstance(v, list) else dec(v)) for n, v in e.items()}
            o = C.hyperelastic_damage.BucheSilberstein(x['method'], x['gc'], x['k'], x['n'], x['j'])
            out.append(e)
        elif e['tag'] == 'rest':
            h = [q for q in range(k + 1, len(evs))]
            n = 0
            while k + 1 + n < len(evs) and evs[k + 1 + n]['tag'] == 'stretch': n += 1
            lam = np.array([dec(x['lam']) for x in evs[k + 1:k + 1 + n]])
            y = guard(lambda: o.uniaxial_tension(lam))
            out.append(e)
            for q in range(n):
                x = evs[k + 1 + q]
                x['pstress'], x['ptotal'] = (enc(y[0].flat[q]), enc(y[1].flat[q])) if y is not None and len(y) == 2 and y[0].size == n and y[1].size == n else (PANIC, PANIC)
                out.append(x)
            k += n
        k += 1
def main():
    evs = [json.loads(l) for l in open(sys.argv[1])]
    rng = random.Random(int(sys.argv[3]))
    out = []
    if evs and evs[0]['tag'] == 'create': objects(evs, out, rng); levels(out, rng)
    else: net(evs, out, rng)
    with open(sys.argv[2], 'w') as h:
        for e in out: h.write(json.dumps(e, separators=(',', ':')) + '\n')
main()
