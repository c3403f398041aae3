#!/usr/bin/env python3
"""jlreplay IN OUT SEED: replays a recorded history of objects (driver objects) through the Julia package of the library
(evaluated by julia.py, calling the shared library built from the working tree), and writes what that returns.
jlreplay --api: writes julia_api.json, the interface (order of arguments) of the package."""
import sys, os, json, math, random
import numpy as np
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
sys.setrecursionlimit(20000)
from dec import f as dec, enc
import julia
from julia import U8, Unsupported, JuliaError
SRC = os.environ.get('POLYMERS_SRC', '/repo/src')
API = os.path.join(ROOT, 'tools', 'julia_api.json')
PANIC = [8, 0]
norm = lambda x: x.replace('_', '').lower()
def submodules(m): return {norm(k): v for k, v in m.vars.items() if isinstance(v, julia.Module) and v.parent is m}
def module(path):
    m = SC
    for p in path: m = submodules(m)[norm(p)]
    return m
def struct(m):
    c = [v for v in m.vars.values() if isinstance(v, julia.Type) and v.fields is not None and v.mod is m]
    assert len(c) == 1, m.name
    return c[0]
def everything(m, path):
    yield path, m
    for k in sorted(submodules(m)): yield from everything(submodules(m)[k], path + [k])
def value(n, x): return U8(x) if n == 'number_of_links' else float(x)

def api():
    out = {}
    names = lambda f: [p[0][:-2] if p[0].endswith('_i') else p[0] for p in f.methods[0].params]
    for path, m in everything(SC, []):
        if not path or not any(isinstance(v, julia.Type) and v.fields is not None and v.mod is m for v in m.vars.values()): continue
        t = struct(m)
        init = [p[0] for p in t.ctors.methods[-1].params]
        a = {p: value(p, 5 if p == 'number_of_links' else 1.5) for p in init}
        try:
            o = J.call(t, [a[p] for p in init])
            fs = {n: names(f) for n, f in o.f.items() if isinstance(f, julia.Fun)}
        except Exception as e: print('/'.join(path), e); fs = {}
        free = {n: names(f) for n, f in m.vars.items() if isinstance(f, julia.Fun) and f.methods[0].env.mod is m}
        out['/'.join(path)] = dict(init=init, methods=fs, free=free)
    json.dump(out, open(API, 'w'), indent=0, sort_keys=True)

unknown = set()
def guard(f):
    """the value of f; PANIC if the package raises an error, None if it uses what the evaluator does not know"""
    try: return f()
    except Unsupported as e: unknown.add(str(e)); return None
    except (JuliaError, KeyError, AssertionError) as e: return None if J.unknown else PANIC
def build(path, a, deep):
    k = 1 if deep and path[0] != 'ufjc' else 2 if deep else len(path)
    o = J.call(struct(module(path[:k])), [a[p] for p in IF['/'.join(norm(x) for x in path[:k])]['init']])
    for p in path[k:]: o = J.getdot(o, p)
    return o
FIELDS = ['number_of_links', 'link_length', 'hinge_mass', 'link_stiffness', 'link_energy', 'well_width', 'persistance_length', 'nondimensional_link_stiffness', 'nondimensional_persistance_length']
def fields(o, names): return {n: enc(o.f[n]) for n in names if n in o.f and not isinstance(o.f[n], (julia.Fun, julia.Obj))}
def arrays(xs, rng, scalars):
    """the arguments, some of them as arrays in which the given value stands at a place; that place"""
    shape = rng.choice([(), (1,), (4,), (2, 3), (3, 1, 2)]) if rng.random() > 0.004 else rng.choice([(300,), (20, 17), (2, 3, 2, 3, 2)])
    if not shape: return xs, None
    at = tuple(rng.randrange(s) for s in shape)
    out = []
    for k, x in enumerate(xs):
        if k in scalars or rng.random() < 0.3: out.append(x); continue
        # a singleton dimension is stretched
        sh = tuple(1 if len(shape) > 1 and rng.random() < 0.3 else s for s in shape)
        y = np.full(sh, int(x), dtype=np.uint8) if isinstance(x, U8) else np.full(sh, float(x))
        if not isinstance(x, U8) and y.size > 1:
            here = tuple(0 if sh[d] == 1 else at[d] for d in range(len(sh)))
            for i in np.ndindex(*sh):
                if i != here: y[i] = x * rng.uniform(0.97, 1.0)
        out.append(y)
    if not any(isinstance(y, np.ndarray) for y in out): return xs, None
    full = np.broadcast_shapes(*[y.shape for y in out if isinstance(y, np.ndarray)])
    return out, tuple(0 if full[d] == 1 else at[d] for d in range(len(full))), full
def apply(f, xs, rng, scalars):
    """f of xs; arguments may be arrays except those in scalars"""
    r = arrays(xs, rng, scalars)
    y = J.call(f, r[0])
    if r[1] is None: return enc(y)
    if not isinstance(y, np.ndarray) or y.shape != r[2]: return [8, 1]
    return enc(julia.scalar(y[r[1]]))
def args(e): return {k: value(k, v if not isinstance(v, list) else dec(v)) for k, v in e['a'].items()}
def objects(evs, out, rng):
    live = {}
    for e in evs:
        path = e['mod'].split('/'); iface = IF['/'.join(norm(x) for x in path)]
        if e['s'] == 1: live = {}
        if e['tag'] == 'create':
            a = args(e)
            o = guard(lambda: build(path, a, e['deep']))
            e['f'] = {} if o is None else {n: PANIC for n in e['f']} if o is PANIC else fields(o, e['f'])
            live[e['id']] = o
        elif e['tag'] in ('call', 'again'):
            o = live[e['id']]; a = args(e)
            if e['tag'] == 'call':
                # the functions of the module, for the same arguments
                m = guard(lambda: module(path)); r = {}; gone = []
                for n in e['r']:
                    if n not in iface['free']: continue
                    if m is None: continue
                    if m is PANIC or n not in m.vars:
                        if not J.unknown: gone.append(n)
                        continue
                    if any(p not in a for p in iface['free'][n]): continue
                    y = guard(lambda: apply(m.vars[n], [a[p] for p in iface['free'][n]], rng, {k for k, p in enumerate(iface['free'][n]) if p.startswith('normalization')}))
                    if y is not None: r[n] = y
                out.append(dict(e, m=r, missing=sorted(gone)))
            r = {}; gone = []
            for n in iface['methods']:
                if o is None or n not in e['m']: continue
                if o is PANIC: r[n] = PANIC; continue
                if n not in o.f: gone.append(n); continue
                if any(p not in a for p in iface['methods'][n]): continue
                y = guard(lambda: apply(o.f[n], [a[p] for p in iface['methods'][n]], random.Random(e['id']), {1, 2}))
                if y is not None: r[n] = y
            e['m'] = r; e['missing'] = sorted(gone)
        out.append(e)
def levels(out, rng):
    """every structure of every hierarchy, and each one constructed on its own"""
    def walk(o, path, a):
        for x in sorted(o.f):
            y = o.f[x]
            if not isinstance(y, julia.Obj): continue
            out.append({'s': 0, 'tag': 'level', 'mod': '/'.join(path + [x]), 'a': a, 'f': fields(y, FIELDS)})
            walk(y, path + [x], a)
    for path in sorted(IF):
        iface = IF[path]
        a = dict(number_of_links=rng.randrange(2, 30), link_length=rng.uniform(0.2, 5), hinge_mass=rng.uniform(0.2, 5), link_stiffness=math.exp(rng.uniform(7, 12)), link_energy=math.exp(rng.uniform(7, 12)), well_width=rng.uniform(0.1, 2), persistance_length=rng.uniform(0.2, 5))
        o = guard(lambda: J.call(struct(module(path.split('/'))), [value(p, a[p]) for p in iface['init']]))
        if o is None: continue
        ea = {p: (v if p == 'number_of_links' else enc(v)) for p, v in a.items()}
        out.append({'s': 1, 'tag': 'level', 'mod': path, 'a': ea, 'f': {'number_of_links': PANIC} if o is PANIC else fields(o, FIELDS)})
        if o is not PANIC: walk(o, path.split('/'), ea)
def main():
    evs = [json.loads(l) for l in open(sys.argv[1])]
    rng = random.Random(int(sys.argv[3]))
    out = []
    objects(evs, out, rng); levels(out, rng)
    ph = TOP.vars['Physics'].vars
    if not J.unknown: out.append({'s': 1, 'tag': 'constants', 'mod': 'physics', 'boltzmann': enc(ph.get('BOLTZMANN_CONSTANT')), 'planck': enc(ph.get('PLANCK_CONSTANT'))})
    with open(sys.argv[2], 'w') as h:
        for e in out: h.write(json.dumps(e, separators=(',', ':')) + '\n')
    unknown.update(J.unknown)
    if unknown: print('UNKNOWN ' + '; '.join(sorted(unknown)))
J = julia.Julia(os.environ['POLYMERS_LIB'])
TOP = J.load(os.path.join(SRC, 'Polymers.jl')).vars['Polymers']
SC = TOP.vars['Physics'].vars['SingleChain']
if sys.argv[1] == '--api': api()
else: IF = json.load(open(API)); main()
