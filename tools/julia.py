"""Evaluator of the part of the Julia language that the Julia package of the library is written in (modules, functions with
typed arguments, closures, structures, broadcasting, ccall).  What it does not know raises Unsupported, never a wrong value."""
import re, os, math, ctypes
import numpy as np

class Unsupported(Exception): pass
class JuliaError(Exception): pass

# ---------------------------------------------------------------- tokens
KEY = {'module', 'baremodule', 'function', 'struct', 'mutable', 'const', 'if', 'elseif', 'else', 'for', 'while', 'begin', 'let', 'return', 'break', 'continue',
       'using', 'import', 'export', 'end', 'do', 'local', 'global', 'in', 'isa', 'where', 'true', 'false', 'try', 'catch', 'finally', 'quote', 'macro', 'abstract', 'primitive'}
OPS = ['===', '!==', '...', '.==', '.!=', '.<=', '.>=', '.&&', '.||', '>>>', '.+=', '.-=', '.*=', './=', '->', '=>', '::', '==', '!=', '<=', '>=', '&&', '||', '|>', '<|', '+=', '-=', '*=', '/=', '^=', '÷=',
       '.+', '.-', '.*', './', '.^', '.=', '.<', '.>', '.÷', '.%', '<:', '>:', '//', '+', '-', '*', '/', '\\', '^', '÷', '%', '<', '>', '=', '!', '?', ':', ',', ';', '.', '(', ')', '[', ']', '{', '}',
       '&', '|', '~', '$', '@', '≤', '≥', '≠', '∈', '√', '≈', '∘', '⊻', "'"]
NUM = re.compile(r'0x[0-9a-fA-F_]+|0b[01_]+|(?:\d[\d_]*\.?(?!\.|[+\-*/^\\÷%=<>])\d*|\.\d+|\d[\d_]*)(?:[eEf][+-]?\d+)?')
IDENT = re.compile(r"[^\W\d]\w*!?'*", re.U)
class Tok:
    __slots__ = ('k', 'v', 'nl', 'sp', 'line')
    def __init__(s, k, v, nl, sp, line): s.k, s.v, s.nl, s.sp, s.line = k, v, nl, sp, line
    def __repr__(s): return '%s:%r@%d' % (s.k, s.v, s.line)
def tokens(t):
    i, n, line, nl, sp, out = 0, len(t), 1, True, True, []
    def push(k, v):
        nonlocal nl, sp
        out.append(Tok(k, v, nl, sp, line)); nl = sp = False
    while i < n:
        c = t[i]
        if c == '\n': nl = sp = True; line += 1; i += 1; continue
        if c in ' \t\r\ufeff': sp = True; i += 1; continue
        if t.startswith('#=', i):
            d = 1; i += 2
            while d:
                if t.startswith('#=', i): d += 1; i += 2
                elif t.startswith('=#', i): d -= 1; i += 2
                else:
                    if t[i] == '\n': line += 1; nl = True
                    i += 1
            sp = True; continue
        if c == '#':
            while i < n and t[i] != '\n': i += 1
            continue
        if c == '"' or (t.startswith('raw"', i)):
            if c == 'r': i += 3
            q = '"""' if t.startswith('"""', i) else '"'
            j = i + len(q)
            while not t.startswith(q, j):
                j += 2 if t[j] == '\\' else 1
                if j >= n: raise Unsupported('string')
            s = t[i + len(q):j]; push('str', s); line += s.count('\n'); i = j + len(q); continue
        m = NUM.match(t, i)
        if m and (c.isdigit() or (c == '.' and i + 1 < n and t[i + 1].isdigit())):
            push('num', m.group()); i = m.end(); continue
        m = IDENT.match(t, i)
        if m:
            v = m.group()
            while v.endswith("'"): v = v[:-1]
            if v.endswith('!') and t[i + len(v):i + len(v) + 1] == '=' : v = v[:-1]
            push('key' if v in KEY else 'id', v); i += len(v); continue
        for o in OPS:
            if t.startswith(o, i): push('op', o); i += len(o); break
        else: raise Unsupported('character %r' % c)
    push('eof', None); out[-1].nl = True
    return out

# ---------------------------------------------------------------- syntax trees: tuples
PREC = {'|>': 4, ':': 5, '..': 5, '+': 6, '-': 6, '|': 6, '⊻': 6, '*': 7, '/': 7, '÷': 7, '%': 7, '&': 7, '\\': 7, '∘': 7, '//': 8, '^': 10}
CMP = {'==', '!=', '<', '>', '<=', '>=', '===', '!==', '≤', '≥', '≠', '∈', '≈', '<:', '>:'}
for _o in list('+-*/^÷%'): PREC['.' + _o] = PREC[_o]
DCMP = {'.==', '.!=', '.<', '.>', '.<=', '.>='}
ASSIGN = {'=', '+=', '-=', '*=', '/=', '^=', '÷=', '.=', '.+=', '.-=', '.*=', './='}
class Parser:
    def __init__(s, text): s.t = tokens(text); s.i = 0; s.par = 0; s.norange = 0
    @property
    def c(s): return s.t[s.i]
    def op(s, v): return s.c.k == 'op' and s.c.v == v
    def key(s, v): return s.c.k == 'key' and s.c.v == v
    def nl(s): return s.c.nl and not s.par
    def next(s): s.i += 1; return s.t[s.i - 1]
    def fail(s, w='syntax'): raise Unsupported('%s at line %d near %r' % (w, s.c.line, s.c.v))
    def eat(s, v):
        if s.c.v != v or s.c.k not in ('op', 'key'): s.fail('expected ' + v)
        return s.next()
    def block(s, ends=('end',)):
        par, s.par = s.par, 0; out = []
        nr, s.norange = s.norange, 0
        while not (s.c.k == 'key' and s.c.v in ends):
            if s.c.k == 'eof': s.fail('end of file')
            if s.op(';'): s.next(); continue
            out.append(s.stmt())
            if not (s.c.nl or s.op(';') or (s.c.k == 'key' and s.c.v in ends)): s.fail('statement')
        s.par = par; s.norange = nr
        return ('block', out)
    def program(s):
        out = []
        while s.c.k != 'eof':
            if s.op(';'): s.next(); continue
            out.append(s.stmt())
            if not (s.c.nl or s.op(';')): s.fail('statement')
        return ('block', out)
    def stmt(s):
        e = s.expr()
        if s.op(',') and not s.par:              # a, b = ...
            l = [e]
            while s.op(',') and not s.par:
                s.next()
                if s.op('='): break
                l.append(s.tern())
            e = ('tuple', l)
            if s.op('='): s.next(); return ('assign', '=', e, s.tuplerhs())
        return e
    def tuplerhs(s):
        e = s.expr()
        if s.op(',') and not s.par:
            l = [e]
            while s.op(',') and not s.par: s.next(); l.append(s.expr())
            return ('tuple', l)
        return e
    def expr(s):
        l = s.tern()
        if s.c.k == 'op' and s.c.v in ASSIGN and not s.nl():
            o = s.next().v; nr, s.norange = s.norange, 0
            r = s.tuplerhs() if not s.par else s.expr()
            s.norange = nr
            if o == '=' and l[0] == 'call' : return ('function', l[1], l[2], l[3], None, r)
            if o == '=' and l[0] == 'typed' and l[1][0] == 'call': return ('function', l[1][1], l[1][2], l[1][3], l[2], r)
            if o == '=' and l[0] == 'where' and l[1][0] == 'call': return ('function', l[1][1], l[1][2], l[1][3], None, r)
            return ('assign', o, l, r)
        if s.op('->') and not s.nl():
            s.next(); par = s.par
            body = s.expr()
            if l[0] == 'tuple': a = l[1]
            elif l[0] == 'paren': a = [l[1]]
            else: a = [l]
            return ('lambda', a, body)
        return l
    def tern(s):
        e = s.pair()
        if s.op('?') and not s.nl():
            s.next(); s.norange += 1; a = s.expr(); s.norange -= 1; s.eat(':'); b = s.expr()
            return ('if', e, a, b)
        return e
    def pair(s):
        e = s.lor()
        if s.op('=>') and not s.nl(): s.next(); return ('tuple', [e, s.pair()])
        return e
    def lor(s):
        e = s.land()
        while (s.op('||') or s.op('.||')) and not s.nl(): s.next(); e = ('or', e, s.stmtexpr(s.land))
        return e
    def stmtexpr(s, f):
        return s.prim() if s.c.k == 'key' and s.c.v in ('return', 'break', 'continue') else f()
    def land(s):
        e = s.cmp()
        while (s.op('&&') or s.op('.&&')) and not s.nl(): s.next(); e = ('and', e, s.stmtexpr(s.cmp))
        return e
    def cmp(s):
        e = s.binary(4); parts = [e]
        while ((s.c.k == 'op' and (s.c.v in CMP or s.c.v in DCMP)) or (s.c.k == 'key' and s.c.v in ('in', 'isa') and not s.noin)) and not s.nl():
            parts.append(s.next().v); parts.append(s.binary(4))
        return e if len(parts) == 1 else ('cmp', parts)
    noin = 0
    def binary(s, p):
        l = s.unary()
        while s.c.k == 'op' and s.c.v in PREC and PREC[s.c.v] >= p and not s.nl():
            o = s.c.v; q = PREC[o]
            if o == ':' and (s.norange or s.c.sp and False): break
            if s.par and s.inarray and s.c.sp and not s.t[s.i + 1].sp and o in ('+', '-'): break
            s.next()
            r = s.unary() if o in ('^', '.^') and False else s.binary(q if o in ('^', '.^') else q + 1)
            if o == ':':
                if s.op(':') and not s.norange: s.next(); r2 = s.binary(6); l = ('range', l, r, r2)
                else: l = ('range', l, None, r)
            else: l = ('bin', o, l, r)
        return l
    inarray = 0
    def unary(s):
        if s.c.k == 'op' and s.c.v in ('-', '+', '!', '√', '.-') :
            o = s.next().v
            if o in '-+' and s.c.k == 'num' and not s.c.sp and not (s.t[s.i + 1].k == 'op' and s.t[s.i + 1].v in ('^', '.^')):
                return ('un', o, s.power())
            return ('un', o, s.binary(8) if o in ('-', '.-', '+') else s.unary())
        return s.power()
    def power(s):
        b = s.postfix(s.prim())
        if s.c.k == 'op' and s.c.v in ('^', '.^') and not s.nl():
            o = s.next().v
            return ('bin', o, b, s.unary() if (s.c.k == 'op' and s.c.v in ('-', '+')) else s.power())
        return b
    def args(s, close):
        """positional and keyword arguments up to close"""
        s.par += 1; ia, s.inarray = s.inarray, 0; nr, s.norange = s.norange, 0; ni, s.noin = s.noin, 0
        pos, kw, semi = [], [], False
        while not s.op(close):
            if s.op(';'): s.next(); semi = True; continue
            e = s.expr()
            if s.op('...'): s.next(); e = ('splat', e)
            if s.key('for'): e = s.gen(e)
            if e[0] == 'assign' and e[1] == '=': kw.append((e[2], e[3]))
            elif semi and e[0] == 'id': kw.append((e, e))
            elif semi and e[0] == 'splat': raise Unsupported('keyword splat')
            else: pos.append(e)
            if s.op(','): s.next()
            elif not s.op(close) and not s.op(';'): s.fail('arguments')
        s.eat(close); s.par -= 1; s.inarray = ia; s.norange = nr; s.noin = ni
        return pos, kw
    def gen(s, e):
        loops = []
        s.eat('for')
        while True:
            s.noin += 1; v = s.postfix(s.prim()); s.noin -= 1
            if s.op('=') or s.key('in') or s.op('∈'): s.next()
            else: s.fail('generator')
            loops.append((v, s.tern()))
            if s.op(','): s.next(); continue
            break
        if s.c.k == 'key' and s.c.v == 'if': s.next(); cond = s.expr()
        else: cond = None
        return ('gen', e, loops, cond)
    def postfix(s, e):
        while True:
            t = s.c
            if s.op('(') and not t.sp:
                s.next(); p, k = s.args(')')
                e = ('call', e, p, k)
                if s.key('do') and not s.nl():
                    s.next(); a = []
                    while not s.c.nl:
                        a.append(s.postfix(s.prim()))
                        if s.op(','): s.next()
                    b = s.block(); s.eat('end'); e = ('call', e[1], [('lambda', a, b)] + e[2], e[3])
            elif s.op('[') and not t.sp:
                s.next(); p, k = s.args(']'); e = ('index', e, p)
            elif s.op('{') and not t.sp:
                s.next(); p, k = s.args('}'); e = ('curly', e, p)
            elif s.op('.') and not (t.nl and not s.par):
                s.next()
                if s.op('('): s.next(); p, k = s.args(')'); e = ('dotcall', e, p, k)
                elif s.c.k in ('id', 'key'): e = ('dot', e, s.next().v)
                else: s.fail('field')
            elif s.op("'") and not t.sp: s.next(); e = ('call', ('id', 'transpose'), [e], [])
            elif s.op('::') and not s.nl():
                s.next(); e = ('typed', e, s.postfix_type())
            elif s.key('where') and not s.nl():
                s.next(); s.postfix_type(); e = ('where', e)
            elif e[0] == 'num' and not t.sp and (t.k == 'id' or s.op('(')):
                e = ('bin', '*', e, s.postfix(s.prim())); 
            else: return e
    def postfix_type(s):
        e = s.prim()
        while True:
            if s.op('{') and not s.c.sp: s.next(); p, k = s.args('}'); e = ('curly', e, p)
            elif s.op('.') and not s.c.sp: s.next(); e = ('dot', e, s.next().v)
            else: return e
    def prim(s):
        t = s.c
        if t.k == 'num': s.next(); return ('num', number(t.v))
        if t.k == 'str': s.next(); return ('str', t.v)
        if t.k == 'id': s.next(); return ('id', t.v)
        if t.k == 'op':
            if t.v == '(':
                s.next(); s.par += 1; ia, s.inarray = s.inarray, 0; nr, s.norange = s.norange, 0; ni, s.noin = s.noin, 0
                out, comma, semi = [], False, False
                while not s.op(')'):
                    if s.op(';'): s.next(); semi = True; continue
                    e = s.expr()
                    if s.op('...'): s.next(); e = ('splat', e)
                    if s.key('for'): e = s.gen(e)
                    out.append(e)
                    if s.op(','): s.next(); comma = True
                    elif not s.op(')') and not s.op(';'): s.fail('parenthesis')
                s.eat(')'); s.par -= 1; s.inarray = ia; s.norange = nr; s.noin = ni
                if semi and not comma: return ('block', out)
                if comma or not out: return ('tuple', out)
                return ('paren', out[0])
            if t.v == '[':
                s.next(); s.par += 1; ia, s.inarray = s.inarray, 1; nr, s.norange = s.norange, 0; ni, s.noin = s.noin, 0
                rows, row, sep = [], [], None
                while not s.op(']'):
                    if s.op(';'): s.next(); rows.append(row); row = []; sep = ';'; continue
                    e = s.expr()
                    if s.key('for'):
                        e = s.gen(e); s.eat(']'); s.par -= 1; s.inarray = ia; s.norange = nr; s.noin = ni
                        return ('comp', e)
                    row.append(e)
                    if s.op(','): s.next(); sep = sep or ','
                    elif not s.op(']') and not s.op(';'): sep = ' '
                s.eat(']'); s.par -= 1; s.inarray = ia; s.norange = nr; s.noin = ni
                if sep in (None, ','): return ('array', row)
                raise Unsupported('matrix literal')
            if t.v == ':':
                s.next()
                if s.c.k in ('id', 'key') and not s.c.sp: return ('sym', s.next().v)
                return ('id', 'Colon')
            if t.v == '@':
                s.next(); m = s.next().v
                if m in ('inline', 'noinline', 'inbounds', 'fastmath', 'simd', 'eval', 'views', 'assert_not'): return s.stmt()
                if m == '__FILE__' or m == '__DIR__': return ('id', '@' + m)
                if m == 'assert': e = s.expr(); return ('assert', e)
                if m == 'doc': s.expr(); return s.stmt()
                if m == 'ccall':
                    e = s.expr(); return ('atccall', e)
                raise Unsupported('macro @' + str(m))
            if t.v in ('+', '-', '*', '/', '^', '<', '>', '==', '<=', '>=') and (s.t[s.i + 1].v in (',', ')')):
                s.next(); return ('opfun', t.v)
            if t.v == '::': s.next(); return ('typed', ('id', '_'), s.postfix_type())
        if t.k == 'key':
            v = t.v
            if v in ('true', 'false'): s.next(); return ('const', v == 'true')
            if v in ('module', 'baremodule'):
                s.next(); n = s.next().v; b = s.block(); s.eat('end'); return ('module', n, b)
            if v == 'function':
                s.next()
                if s.op('('): name = None; s.next(); p, k = s.args(')')
                else:
                    e = ('id', s.next().v)
                    while s.op('.') and not s.c.nl: s.next(); e = ('dot', e, s.next().v)
                    if s.op('{'): s.next(); s.args('}')
                    if not s.op('('):
                        s.eat('end'); return ('block', [])
                    s.next(); p, k = s.args(')'); name = e
                ret = None
                if s.op('::'): s.next(); ret = s.postfix_type()
                if s.key('where'): s.next(); s.postfix_type()
                b = s.block(); s.eat('end')
                return ('function', name, p, k, ret, b) if name else ('lambda', p, b)
            if v in ('struct', 'mutable'):
                s.next()
                if v == 'mutable': s.eat('struct')
                n = s.next().v
                if s.op('{'): s.next(); s.args('}')
                if s.op('<:'): s.next(); s.postfix_type()
                b = s.block(); s.eat('end'); return ('struct', n, b)
            if v == 'const': s.next(); return s.stmt()
            if v in ('local', 'global'): s.next(); return (v, s.stmt())
            if v == 'if':
                s.next(); return s.iff()
            if v == 'for':
                s.next(); loops = []
                while True:
                    s.noin += 1; var = s.postfix(s.prim()); s.noin -= 1
                    if s.op('=') or s.key('in') or s.op('∈'): s.next()
                    else: s.fail('for')
                    loops.append((var, s.tern()))
                    if s.op(','): s.next(); continue
                    break
                b = s.block(); s.eat('end'); return ('for', loops, b)
            if v == 'while': s.next(); c = s.expr(); b = s.block(); s.eat('end'); return ('while', c, b)
            if v == 'begin': s.next(); b = s.block(); s.eat('end'); return b
            if v == 'let':
                s.next(); a = []
                while not s.c.nl and not s.op(';'):
                    a.append(s.expr())
                    if s.op(','): s.next()
                b = s.block(); s.eat('end'); return ('let', a, b)
            if v == 'return':
                s.next()
                if s.c.nl or s.key('end'): return ('return', None)
                return ('return', s.tuplerhs())
            if v in ('break', 'continue'): s.next(); return (v,)
            if v in ('using', 'import'):
                s.next(); return s.using()
            if v == 'export':
                s.next(); s.next()
                while s.op(','): s.next(); s.next()
                return ('block', [])
            if v == 'end' and s.par: s.next(); return ('id', 'end')
        s.fail('expression')
    def iff(s):
        c = s.expr(); a = s.block(('elseif', 'else', 'end'))
        if s.key('elseif'): s.next(); return ('if', c, a, s.iff())
        if s.key('else'): s.next(); b = s.block(); s.eat('end'); return ('if', c, a, b)
        s.eat('end'); return ('if', c, a, ('block', []))
    def path(s):
        dots = 0
        while s.c.k == 'op' and set(s.c.v) == {'.'}: dots += len(s.c.v); s.next()
        names = [s.next().v]
        while s.op('.') and not s.c.sp: s.next(); names.append(s.next().v)
        return dots, names
    def using(s):
        p = s.path(); items = None; out = []
        if s.op(':') :
            s.next(); items = [s.next().v]
            while s.op(','): s.next(); items.append(s.next().v)
            return ('using', [p], items)
        ps = [p]
        while s.op(','): s.next(); ps.append(s.path())
        return ('using', ps, None)

class U8(int):
    """UInt8"""
def number(v):
    w = v.replace('_', '')
    if w.startswith('0x'):
        return U8(int(w, 16)) if len(w) <= 4 else int(w, 16)
    if w.startswith('0b'): return U8(int(w[2:], 2)) if len(w) <= 10 else int(w[2:], 2)
    if re.fullmatch(r'\d+', w): return int(w)
    if 'f' in w: raise Unsupported('Float32')
    return float(w)

# ---------------------------------------------------------------- values
class Module:
    def __init__(s, name, parent): s.name, s.parent, s.vars = name, parent, {name: s}
class Later:
    def __init__(s, m, n): s.m, s.n = m, n
class Stub:
    """a package that is not evaluated"""
    def __init__(s, name): s.name = name
class Type:
    def __init__(s, name, fields=None, mod=None): s.name, s.fields, s.mod, s.ctors = name, fields, mod, None
    def __repr__(s): return s.name
class Obj:
    def __init__(s, type_): s.__dict__['type'] = type_; s.__dict__['f'] = {}
class Fun:
    def __init__(s, name): s.name, s.methods = name, []
class Method:
    def __init__(s, params, body, env, ret, kw): s.params, s.body, s.env, s.ret, s.kw = params, body, env, ret, kw
class Return(Exception):
    def __init__(s, v): s.v = v
class Break(Exception): pass
class Continue(Exception): pass
class Env:
    """scope: the variables of a function (or module)"""
    def __init__(s, up, mod, kind): s.up, s.mod, s.kind, s.v, s.types = up, mod, kind, {}, {}
def isarr(x): return isinstance(x, np.ndarray)
def scalar(x):
    """a Julia value of an element of an array"""
    if isinstance(x, np.uint8): return U8(int(x))
    if isinstance(x, np.bool_): return bool(x)
    if isinstance(x, np.integer): return int(x)
    if isinstance(x, np.floating): return float(x)
    return x
def arr(l):
    l = list(l)
    if l and all(isinstance(x, float) for x in l): return np.array(l, dtype=float)
    if l and all(isinstance(x, (int, float)) and not isinstance(x, bool) for x in l) and any(isinstance(x, float) for x in l): return np.array([float(x) for x in l])
    if l and all(isinstance(x, U8) for x in l): return np.array([int(x) for x in l], dtype=np.uint8)
    if l and all(isinstance(x, int) and not isinstance(x, (bool, U8)) for x in l): return np.array(l, dtype=np.int64)
    a = np.empty(len(l), dtype=object)
    for i, x in enumerate(l): a[i] = x
    return a
def retype(a):
    """an object array with the element type that Julia would infer"""
    f = arr([scalar(x) for x in a.ravel()])
    return f.reshape(a.shape) if f.dtype != object or a.dtype == object else a

def bin1(o, a, b):
    if isinstance(a, (Fun, Obj, Type, str)) or isinstance(b, (Fun, Obj, Type, str)): 
        if o == '*' and isinstance(a, str) and isinstance(b, str): return a + b
        raise JuliaError('MethodError: ' + o)
    if isinstance(a, complex) or isinstance(b, complex): raise Unsupported('complex')
    if o == '+': r = a + b
    elif o == '-': r = a - b
    elif o == '*': r = a * b
    elif o == '/':
        a, b = float(a), float(b)
        return a / b if b != 0 else (math.nan if a == 0 or a != a else math.copysign(math.inf, a) * math.copysign(1, b))
    elif o == '\\': return bin1('/', b, a)
    elif o == '^':
        if isinstance(a, float) or isinstance(b, float):
            try: r = float(a) ** float(b)
            except OverflowError: return math.inf if a > 0 or float(b) % 2 == 0 else -math.inf
            except ZeroDivisionError: return math.inf
            if isinstance(r, complex): raise JuliaError('DomainError')
            return r
        if b < 0: raise JuliaError('DomainError')
        r = int(a) ** int(b); return U8(r & 255) if isinstance(a, U8) else wrap(r)
    elif o in ('÷', '%'):
        if b == 0: raise JuliaError('DivideError')
        if isinstance(a, float) or isinstance(b, float): return math.fmod(a, b) if o == '%' else float(math.trunc(a / b))
        q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
        r = q if o == '÷' else a - q * b
    elif o in ('&', '|', '⊻'): r = a & b if o == '&' else a | b if o == '|' else a ^ b
    else: raise Unsupported(o)
    if isinstance(r, float) or isinstance(r, bool): return r
    if isinstance(a, U8) and isinstance(b, U8): return U8(int(r) & 255)
    return wrap(int(r))
def wrap(r): return (r + 2**63) % 2**64 - 2**63
def cmp1(o, a, b):
    if o in ('==', '.=='): return a == b
    if o in ('!=', '.!=', '≠'): return a != b
    if o == '===': return type(a) is type(b) and a == b
    if o == '!==': return not (type(a) is type(b) and a == b)
    if o in ('<', '.<'): return a < b
    if o in ('>', '.>'): return a > b
    if o in ('<=', '.<=', '≤'): return a <= b
    if o in ('>=', '.>=', '≥'): return a >= b
    if o == '≈': return abs(a - b) <= 1.4901161193847656e-8 * max(abs(a), abs(b))
    raise Unsupported(o)
def broadcast(f, args):
    if not any(isarr(x) or isinstance(x, (tuple, range)) for x in args): return f(*args)
    xs = []
    for x in args:
        if isinstance(x, (tuple, range)): x = arr(x)
        xs.append(x)
    shape_dims = max(x.ndim for x in xs if isarr(x))
    # Julia pads missing dimensions at the end
    dims = [1] * shape_dims
    for x in xs:
        if isarr(x):
            for d, n in enumerate(x.shape):
                if n != 1:
                    if dims[d] not in (1, n): raise JuliaError('DimensionMismatch')
                    dims[d] = n
    out = np.empty(dims, dtype=object)
    for i in np.ndindex(*dims):
        out[i] = f(*[scalar(x[tuple(0 if x.shape[d] == 1 else i[d] for d in range(x.ndim))]) if isarr(x) else x for x in xs])
    return retype(out)

# ---------------------------------------------------------------- evaluation
NOTHING = None
PRIM = ['UInt8', 'UInt32', 'UInt64', 'Int', 'Int64', 'Int32', 'Float64', 'Bool', 'String', 'Function', 'Any', 'Vector', 'Matrix', 'Array', 'AbstractArray', 'AbstractVector', 'AbstractMatrix', 'Real', 'Number',
        'AbstractFloat', 'Integer', 'Signed', 'Unsigned', 'Tuple', 'Nothing', 'Union', 'Symbol', 'Cdouble', 'Cuchar', 'Cint', 'Cvoid', 'Cuint', 'AbstractString', 'Float32', 'Ptr', 'Val', 'Type', 'NTuple', 'AbstractRange', 'UnitRange']
class Julia:
    def __init__(s, library):
        s.lib = ctypes.CDLL(library)
        s.base = {n: Type(n) for n in PRIM}
        s.base['Cdouble'] = s.base['Float64']; s.base['Cuchar'] = s.base['UInt8']; s.base['Int'] = s.base['Int64']
        for n in dir(s):
            if n.startswith('b_'): s.base[n[2:]] = getattr(s, n)
        for n in ('exp', 'expm1', 'sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'asin', 'acos', 'atan', 'asinh', 'erf', 'cbrt'):
            s.base[n] = s.real(getattr(math, n))
        s.base.update(pi=math.pi, π=math.pi, Inf=math.inf, NaN=math.nan, nothing=None, missing=None)
        s.base['Base'] = Stub('Base')
        s.depth = 0
        s.unknown = []       # files of which only a part was evaluated
    def real(s, f):
        def g(x):
            if isarr(x) or not isinstance(x, (int, float)): raise JuliaError('MethodError')
            try: return float(f(float(x)))
            except OverflowError: return math.inf
            except ValueError: raise JuliaError('DomainError')
        return g
    # builtins
    def b_log(s, x, y=None):
        if y is not None: return s.b_log(y) / s.b_log(x)
        if isarr(x): raise JuliaError('MethodError')
        if x < 0: raise JuliaError('DomainError')
        return -math.inf if x == 0 else math.log(x)
    def b_log1p(s, x): return s.real(math.log1p)(x)
    def b_sqrt(s, x): return s.real(math.sqrt)(x)
    def b_coth(s, x): return bin1('/', 1.0, math.tanh(x))
    def b_csch(s, x): return bin1('/', 1.0, math.sinh(x))
    def b_abs(s, x): return U8(abs(x)) if isinstance(x, U8) else abs(x)
    def b_abs2(s, x): return bin1('*', x, x)
    def b_inv(s, x): return bin1('/', 1.0, x)
    def b_identity(s, x): return x
    def b_one(s, x): return 1.0 if isinstance(x, float) or x is s.base['Float64'] else 1
    def b_zero(s, x): return 0.0 if isinstance(x, float) or x is s.base['Float64'] else 0
    def b_oneunit(s, x): return s.b_one(x)
    def b_float(s, x): return broadcast(float, [x])
    def b_min(s, *a): return min(a)
    def b_max(s, *a): return max(a)
    def b_clamp(s, x, a, b): return a if x < a else b if x > b else x
    def b_floor(s, *a): return s.rnd(math.floor, a)
    def b_ceil(s, *a): return s.rnd(math.ceil, a)
    def b_round(s, *a): return s.rnd(round, a)
    def b_trunc(s, *a): return s.rnd(math.trunc, a)
    def rnd(s, f, a):
        if isinstance(a[0], Type): return s.convert(a[0], f(a[1]))
        return float(f(a[0]))
    def b_isnan(s, x): return x != x
    def b_isinf(s, x): return abs(x) == math.inf
    def b_isfinite(s, x): return math.isfinite(x)
    def b_iseven(s, x): return x % 2 == 0
    def b_isodd(s, x): return x % 2 == 1
    def b_ifelse(s, c, a, b): return a if c else b
    def b_muladd(s, a, b, c): return bin1('+', bin1('*', a, b), c)
    def b_fma(s, a, b, c): return s.b_muladd(a, b, c)
    def b_string(s, *a): return ''.join(str(x) for x in a)
    def b_joinpath(s, *a): return os.path.join(*a)
    def b_dirname(s, x): return os.path.dirname(x)
    def b_abspath(s, x): return os.path.abspath(x)
    def b_error(s, *a): raise JuliaError(' '.join(map(str, a)))
    def b_throw(s, x): raise JuliaError(str(x))
    def b_ArgumentError(s, *a): return 'ArgumentError'
    def b_DomainError(s, *a): return 'DomainError'
    def b_broadcast(s, f, *a): return broadcast(lambda *x: s.call(f, list(x)), list(a))
    def b_map(s, f, *a):
        if not isarr(a[0]): l = [s.call(f, list(x)) for x in zip(*[s.iter(y) for y in a])]; return tuple(l) if isinstance(a[0], tuple) else arr(l)
        if any(not isarr(x) or x.shape != a[0].shape for x in a): return arr([s.call(f, list(x)) for x in zip(*[s.iter(y) for y in a])])
        return broadcast(lambda *x: s.call(f, list(x)), list(a))
    def iter(s, x):
        if isarr(x): return [scalar(y) for y in x.ravel(order='F')]
        if isinstance(x, (tuple, range, list)): return list(x)
        if isinstance(x, (int, float)): return [x]
        raise JuliaError('not iterable')
    def b_foreach(s, f, *a): s.b_map(f, *a)
    def b_sum(s, *a):
        l = s.iter(a[-1])
        if len(a) == 2: l = [s.call(a[0], [x]) for x in l]
        return math.fsum(l) if l and all(isinstance(x, float) and math.isfinite(x) for x in l) else sum(l)
    def b_prod(s, *a):
        l = s.iter(a[-1])
        if len(a) == 2: l = [s.call(a[0], [x]) for x in l]
        p = 1
        for x in l: p = bin1('*', p, x)
        return p
    def b_mapreduce(s, f, o, x, init=None): return s.b_reduce(o, arr([s.call(f, [y]) for y in s.iter(x)]), init=init)
    def b_reduce(s, f, x, init=None):
        l = s.iter(x); r = init
        if r is None: r, l = l[0], l[1:]
        for y in l: r = s.call(f, [r, y])
        return r
    b_foldl = b_reduce
    def b_maximum(s, x): return max(s.iter(x))
    def b_minimum(s, x): return min(s.iter(x))
    def b_any(s, *a): return any(s.call(a[0], [x]) if len(a) == 2 else x for x in s.iter(a[-1]))
    def b_all(s, *a): return all(s.call(a[0], [x]) if len(a) == 2 else x for x in s.iter(a[-1]))
    def b_collect(s, x): return x if isarr(x) else arr(s.iter(x))
    def b_vec(s, x): return x.ravel(order='F') if isarr(x) else s.b_collect(x)
    def b_copy(s, x): return x.copy() if isarr(x) else x
    b_deepcopy = b_copy
    def b_transpose(s, x): return x.reshape(1, -1) if isarr(x) and x.ndim == 1 else x.T if isarr(x) else x
    def b_length(s, x): return x.size if isarr(x) else len(s.iter(x))
    def b_size(s, x, d=None): t = x.shape if isarr(x) else (); return tuple(t) if d is None else t[d - 1]
    def b_ndims(s, x): return x.ndim if isarr(x) else 0
    def b_eltype(s, x): return s.base['Float64'] if isarr(x) and x.dtype == float else s.base['UInt8'] if isarr(x) and x.dtype == np.uint8 else s.base['Any']
    def b_axes(s, x, d=None): t = tuple(range(1, n + 1) for n in x.shape); return t if d is None else t[d - 1]
    def b_eachindex(s, x): return range(1, s.b_length(x) + 1)
    def b_first(s, x): return s.iter(x)[0]
    def b_last(s, x): return s.iter(x)[-1]
    def b_isempty(s, x): return len(s.iter(x)) == 0
    def b_zip(s, *a): return list(zip(*[s.iter(x) for x in a]))
    def b_enumerate(s, x): return [(i + 1, y) for i, y in enumerate(s.iter(x))]
    def b_reverse(s, x): return arr(s.iter(x)[::-1])
    def b_zeros(s, *a):
        if a and isinstance(a[0], Type): a = a[1:]
        return np.zeros(a[0] if a and isinstance(a[0], tuple) else a)
    def b_ones(s, *a):
        if a and isinstance(a[0], Type): a = a[1:]
        return np.ones(a[0] if a and isinstance(a[0], tuple) else a)
    def b_fill(s, v, *a): x = np.empty(a[0] if a and isinstance(a[0], tuple) else a, dtype=object); x.fill(v); return retype(x)
    def b_similar(s, x, *a): return np.zeros(x.shape)
    def b_reshape(s, x, *a): return x.reshape(a[0] if isinstance(a[0], tuple) else a, order='F')
    def b_tuple(s, *a): return tuple(a)
    def b_ntuple(s, f, n): return tuple(s.call(f, [i]) for i in range(1, n + 1))
    def b_Ref(s, x): return x
    def b_mod(s, a, b): return a % b
    def b_rem(s, a, b): return bin1('%', a, b)
    def b_div(s, a, b): return bin1('÷', a, b)
    def b_sign(s, a): return (a > 0) - (a < 0)
    def b_isa(s, x, t): return s.isa(x, t)
    def b_convert(s, t, x): return s.convert(t, x)
    def b_typeof(s, x): raise Unsupported('typeof')
    def b_push_(s, x, y): raise Unsupported('push!')
    def b_getfield(s, o, n): return s.getdot(o, n[1] if isinstance(n, tuple) else n)
    b_getproperty = b_getfield
    def b_hasproperty(s, o, n): return (n[1] if isinstance(n, tuple) else n) in o.f
    def b_fieldnames(s, t): return tuple(('sym', f) for f, _ in t.fields)
    def b_LinRange(s, a, b, n): return s.b_range(a, b, length=n)
    def b_range(s, *a, **k):
        start = k.get('start', a[0] if a else 1); stop = k.get('stop', a[1] if len(a) > 1 else None); n = k.get('length', a[2] if len(a) > 2 else None); step = k.get('step')
        if step is None and n is None: return range(start, stop + 1)
        if n is None: n = int(math.floor((stop - start) / step + 1e-9)) + 1
        if step is None:
            if stop is None: return range(start, start + n)
            return np.array([float(start) if n == 1 else start + (stop - start) * (i / (n - 1)) for i in range(n)])
        return arr([start + i * step for i in range(n)])
    # types
    def isa(s, x, t):
        if isinstance(t, tuple) and t and t[0] == 'union': return any(s.isa(x, y) for y in t[1:])
        if isinstance(t, tuple) and t and t[0] == 'param':
            n = t[1].name
            if n in ('Vector', 'Matrix', 'Array', 'AbstractArray', 'AbstractVector', 'AbstractMatrix'):
                if not s.isa(x, t[1]): return False
                el = t[2]
                if len(t) > 3 and isinstance(t[3], int) and x.ndim != t[3]: return False
                return not isinstance(el, Type) or el.name in ('Any', 'Real', 'Number') or (x.dtype == float if el.name == 'Float64' else x.dtype == np.uint8 if el.name == 'UInt8' else True)
            return s.isa(x, t[1])
        if isinstance(t, TypeVar): return True
        if not isinstance(t, Type): raise Unsupported('type %r' % (t,))
        n = t.name
        if t.fields is not None: return isinstance(x, Obj) and x.type is t
        if n in ('Any',): return True
        if isarr(x): return n in ('Array', 'AbstractArray') or (x.ndim == 1 and n in ('Vector', 'AbstractVector')) or (x.ndim == 2 and n in ('Matrix', 'AbstractMatrix'))
        if isinstance(x, bool): return n in ('Bool', 'Integer', 'Real', 'Number')
        if isinstance(x, U8): return n in ('UInt8', 'Unsigned', 'Integer', 'Real', 'Number')
        if isinstance(x, int): return n in ('Int64', 'Signed', 'Integer', 'Real', 'Number')
        if isinstance(x, float): return n in ('Float64', 'AbstractFloat', 'Real', 'Number')
        if isinstance(x, str): return n in ('String', 'AbstractString')
        if isinstance(x, tuple): return n in ('Tuple', 'NTuple')
        if isinstance(x, range): return n in ('AbstractRange', 'UnitRange', 'AbstractVector', 'AbstractArray')
        if x is None: return n == 'Nothing'
        if isinstance(x, Fun) or callable(x): return n == 'Function'
        if isinstance(x, Type): return n == 'Type'
        return False
    def convert(s, t, x):
        if s.isa(x, t): return x
        if isinstance(t, tuple): raise JuliaError('MethodError: convert')
        n = t.name
        if isinstance(x, (int, float)) and n == 'Float64': return float(x)
        if isinstance(x, (int, float)) and n in ('UInt8', 'Int64', 'UInt32', 'Int32', 'UInt64', 'Integer'):
            if isinstance(x, float) and not (math.isfinite(x) and x == int(x)): raise JuliaError('InexactError')
            x = int(x); lo, hi = {'UInt8': (0, 255), 'UInt32': (0, 2**32 - 1), 'Int32': (-2**31, 2**31 - 1), 'UInt64': (0, 2**64 - 1)}.get(n, (-2**63, 2**63 - 1))
            if not lo <= x <= hi: raise JuliaError('InexactError')
            return U8(x) if n == 'UInt8' else x
        if isarr(x) and n in ('Vector', 'Array', 'Matrix'): return x
        raise JuliaError('MethodError: convert to %s' % n)
    # modules
    def load(s, path, mod=None):
        if mod is None: mod = Module('Main', None); mod.loaded = []
        if not os.path.exists(path): raise JuliaError('no file ' + path)
        env = Env(None, mod, 'module')
        old, s.file = getattr(s, 'file', None), path
        try: s.run_top(Parser(open(path, encoding='utf-8').read()).program(), env, mod)
        except Unsupported as e: s.unknown.append('%s: %s' % (path, e))
        s.file = old
        return mod
    def run_top(s, tree, env, mod):
        for st in tree[1]:
            if st[0] == 'module':
                m = Module(st[1], mod); mod.vars[st[1]] = m
                s.run_top(st[2], Env(None, m, 'module'), m)
            elif st[0] == 'call' and st[1] == ('id', 'include'):
                s.load(os.path.join(os.path.dirname(s.file), s.ev(st[2][0], env)), mod)
            else: s.ev(st, env)
    def lookup(s, n, env):
        e = env
        while e is not None:
            if n in e.v: return e.v[n]
            e = e.up
        m = env.mod
        if n in m.vars:
            v = m.vars[n]
            if isinstance(v, Later):
                if v.n not in v.m.vars: raise JuliaError('UndefVarError: ' + n)
                v = m.vars[n] = v.m.vars[v.n]
            return v
        if n in s.base: return s.base[n]
        if n == m.name: return m
        for p in getattr(m, 'usings', []):
            if isinstance(p, Module) and n in p.vars: return p.vars[n]
        raise JuliaError('UndefVarError: ' + n)
    def assign(s, n, v, env):
        e = env
        while e is not None and e.kind != 'module':
            if n in e.v:
                if n in e.types: v = s.convert(e.types[n], v)
                e.v[n] = v; return
            if e.kind == 'lambda' or e.kind == 'function':
                # a closure assigns to the variable of the function around it, if that has one
                u = e.up
                while u is not None and u.kind != 'module':
                    if n in u.v: u.v[n] = v; return
                    u = u.up
                break
            e = e.up
        if env.kind == 'module': env.mod.vars[n] = v
        else: env.v[n] = v
    # calls
    def sig(s, params, env):
        """(name, type, default, splat) of each parameter"""
        out = []
        for p in params:
            d = None; splat = False; t = None
            if p[0] == 'splat': splat = True; p = p[1]
            if p[0] == 'typed': t = p[2]; p = p[1]
            if p[0] == 'splat': splat = True; p = p[1]
            if p[0] == 'id': n = p[1]
            elif p[0] == 'tuple': n = p
            else: raise Unsupported('parameter')
            out.append((n, s.type(t, env) if t is not None else None, d, splat))
        return out
    def type(s, t, env):
        if t[0] == 'curly':
            b = s.type(t[1], env); a = [s.type(x, env) if x[0] != 'num' else x[1] for x in t[2]]
            if isinstance(b, Type) and b.name == 'Union': return ('union',) + tuple(a)
            return ('param', b) + tuple(a) if a else b
        if t[0] == 'un' or t[0] == 'cmp': return TypeVar('<:')
        try: v = s.ev(t, env)
        except JuliaError: return TypeVar(str(t))
        return v
    def specificity(s, m):
        r = 0
        for p in m.params:
            t = p[1]
            r += 0 if t is None or isinstance(t, TypeVar) or (isinstance(t, Type) and t.name == 'Any') else 1 if isinstance(t, tuple) or t.name in ('Real', 'Number', 'AbstractArray', 'AbstractFloat', 'Integer') else 2
        return r
    def applicable(s, m, args):
        ps = m.params; k = len(ps)
        if k and ps[-1][3]:
            if len(args) < k - 1: return False
        else:
            need = sum(1 for p in ps if p[2] is None)
            if not need <= len(args) <= k: return False
        for i, a in enumerate(args):
            t = ps[min(i, k - 1)][1]
            if t is not None and not s.isa(a, t): return False
        return True
    def call(s, f, args, kw=None):
        kw = kw or {}
        if isinstance(f, Fun):
            best = None
            for m in f.methods:
                if s.applicable(m, args) and (best is None or s.specificity(m) >= s.specificity(best)): best = m
            if best is None: raise JuliaError('MethodError: no method matching %s(%s)' % (f.name, ', '.join(type(a).__name__ for a in args)))
            return s.invoke(best, args, kw)
        if isinstance(f, Type): return s.construct(f, args, kw)
        if isinstance(f, Obj): raise JuliaError('not callable')
        if callable(f):
            try: return f(*args, **kw)
            except TypeError as e: raise JuliaError('MethodError: %s' % e)
        raise JuliaError('not callable: %r' % (f,))
    def invoke(s, m, args, kw):
        s.depth += 1
        if s.depth > 400: s.depth = 0; raise JuliaError('StackOverflowError')
        env = Env(m.env, m.env.mod, 'function')
        k = len(m.params)
        for i, (n, t, d, splat) in enumerate(m.params):
            if splat: v = tuple(args[i:])
            elif i < len(args): v = args[i]
            else: v = s.ev(d, env)
            if isinstance(n, tuple):
                for x, y in zip(n[1], s.iter(v)): env.v[x[1] if x[0] == 'id' else x[1][1]] = y
            else: env.v[n] = v
        for n, d in m.kw:
            nm = n[1] if n[0] == 'id' else n[1][1]
            env.v[nm] = kw[nm] if nm in kw else s.ev(d, env)
        for n in kw:
            if n not in [x[0][1] if x[0][0] == 'id' else x[0][1][1] for x in m.kw]: raise JuliaError('MethodError: keyword ' + n)
        try: r = s.ev(m.body, env)
        except Return as e: r = e.v
        finally: s.depth -= 1
        return s.convert(m.ret, r) if m.ret is not None and not isinstance(m.ret, TypeVar) else r
    def construct(s, t, args, kw):
        if t.ctors:
            for m in t.ctors.methods:
                if s.applicable(m, args): return s.call(t.ctors, args, kw)
        if t.fields is None:
            if len(args) == 1: return s.convert(t, args[0])
            raise JuliaError('MethodError: ' + t.name)
        return s.new(t, args)
    def new(s, t, args):
        if len(args) != len(t.fields): raise JuliaError('MethodError: %s of %d arguments' % (t.name, len(args)))
        o = Obj(t)
        for (n, ft), a in zip(t.fields, args): o.f[n] = s.convert(ft, a) if ft is not None else a
        return o
    def getdot(s, o, n):
        if isinstance(o, Module):
            if n in o.vars: return o.vars[n]
            raise JuliaError('UndefVarError: %s.%s' % (o.name, n))
        if isinstance(o, Stub):
            if o.name == 'Base' and n in s.base: return s.base[n]
            return Stub(o.name + '.' + n)
        if isinstance(o, Obj):
            if n in o.f: return o.f[n]
            raise JuliaError('no field ' + n)
        raise JuliaError('field ' + n)
    def ctype(s, t):
        n = t.name if isinstance(t, Type) else None
        m = {'Float64': ctypes.c_double, 'UInt8': ctypes.c_uint8, 'Int64': ctypes.c_int64, 'UInt32': ctypes.c_uint32, 'Int32': ctypes.c_int32, 'UInt64': ctypes.c_uint64, 'Bool': ctypes.c_bool,
             'Cint': ctypes.c_int, 'Cuint': ctypes.c_uint, 'Float32': ctypes.c_float}
        if n not in m: raise Unsupported('ccall type %r' % (t,))
        return m[n]
    def ccall(s, sym, ret, types, args):
        try: f = s.lib[sym]
        except AttributeError: raise JuliaError('could not load symbol ' + sym)
        if len(types) != len(args): raise JuliaError('ccall: %d types, %d arguments' % (len(types), len(args)))
        f.restype = s.ctype(ret); f.argtypes = [s.ctype(t) for t in types]
        a = []
        for t, x in zip(types, args):
            x = s.convert(t, x); a.append(x if isinstance(x, float) else int(x))
        r = f(*a)
        return U8(r) if isinstance(ret, Type) and ret.name == 'UInt8' else r
    # expressions
    def ev(s, e, env):
        k = e[0]
        if k == 'num' or k == 'const': return e[1]
        if k == 'id':
            return s.lookup(e[1], env) if not e[1].startswith('@') else (s.file if e[1] == '@__FILE__' else os.path.dirname(s.file))
        if k == 'paren': return s.ev(e[1], env)
        if k == 'block':
            r = None
            for x in e[1]: r = s.ev(x, env)
            return r
        if k == 'str': return re.sub(r'\\(.)', r'\1', e[1])
        if k == 'sym': return e
        if k == 'call': return s.ev_call(e, env)
        if k == 'dot': return s.getdot(s.ev(e[1], env), e[2])
        if k == 'lambda':
            f = Fun('#'); f.methods.append(Method(s.sig(e[1], env), e[2], env, None, [])); return f
        if k == 'tuple': return tuple(s.items(e[1], env))
        if k == 'array': return arr(s.items(e[1], env))
        if k == 'opfun': return (lambda o: lambda *a: s.fold(o, a))(e[1])
        if k == 'bin':
            o = e[1]; a = s.ev(e[2], env); b = s.ev(e[3], env)
            if o.startswith('.'): return broadcast(lambda x, y: bin1(o[1:], x, y), [a, b])
            if isinstance(a, Stub) or isinstance(b, Stub): return a if isinstance(a, Stub) else b
            if o == '|>': return s.call(b, [a])
            if o == '∘': return lambda *x: s.call(a, [s.call(b, list(x))])
            if isarr(a) or isarr(b):
                if o in '+-' and isarr(a) and isarr(b) and a.shape == b.shape or (o == '*' and (isarr(a) != isarr(b))) or (o == '/' and not isarr(b)): return broadcast(lambda x, y: bin1(o, x, y), [a, b])
                raise JuliaError('MethodError: %s of arrays' % o)
            return bin1(o, a, b)
        if k == 'un':
            x = s.ev(e[2], env); o = e[1]
            if o == '!': return not x
            if o == '√': return s.b_sqrt(x)
            if o == '+': return x
            return broadcast(lambda y: U8(-y & 255) if isinstance(y, U8) else -y, [x])
        if k == 'cmp':
            p = e[1]; l = s.ev(p[0], env)
            for i in range(1, len(p), 2):
                r = s.ev(p[i + 1], env) if p[i] != 'isa' else s.type(p[i + 1], env)
                if p[i] in ('in', '∈'): ok = l in s.iter(r)
                elif p[i] == 'isa': ok = s.isa(l, r)
                elif p[i] in DCMP: ok = broadcast(lambda x, y: cmp1(p[i], x, y), [l, r]); return ok
                else: ok = cmp1(p[i], l, r)
                if not ok: return False
                l = r
            return True
        if k == 'and': return s.ev(e[2], env) if s.ev(e[1], env) else False
        if k == 'or': return True if s.ev(e[1], env) else s.ev(e[2], env)
        if k == 'if':
            c = s.ev(e[1], env)
            if not isinstance(c, bool): raise JuliaError('TypeError: non-boolean')
            return s.ev(e[2], env) if c else s.ev(e[3], env)
        if k == 'assign': return s.ev_assign(e, env)
        if k == 'function': return s.ev_function(e, env)
        if k == 'return': raise Return(s.ev(e[1], env) if e[1] is not None else None)
        if k == 'typed':
            if e[1][0] == 'id' and e[1][1] == '_': raise Unsupported('type')
            v = s.ev(e[1], env); t = s.type(e[2], env)
            if not s.isa(v, t): raise JuliaError('TypeError')
            return v
        if k == 'curly':
            return s.type(e, env)
        if k == 'struct':
            fs, inner = [], []
            for f in e[2][1]:
                if f[0] == 'id': fs.append((f[1], None))
                elif f[0] == 'typed': fs.append((f[1][1], s.type(f[2], env)))
                elif f[0] == 'function': inner.append(f)
                elif f[0] == 'str': pass
                else: raise Unsupported('structure')
            t = Type(e[1], fs, env.mod); t.ctors = Fun(e[1]); env.mod.vars[e[1]] = t
            for f in inner:
                ie = Env(env, env.mod, 'function'); ie.v['new'] = lambda *a: s.new(t, list(a))
                t.ctors.methods.append(Method(s.sig(f[2], env), f[5], ie, None, f[3])); t.inner = True
            return None
        if k == 'index':
            a = s.ev(e[1], env)
            n = s.b_length(a)
            env2 = Env(env, env.mod, 'block'); env2.v['end'] = n
            ix = [s.ev(i, env2) for i in e[2]]
            if isinstance(a, Type): return arr(ix)
            if any(not isinstance(i, int) for i in ix): raise Unsupported('index')
            if isarr(a):
                try:
                    if any(i < 1 for i in ix): raise IndexError
                    return scalar(a.ravel(order='F')[ix[0] - 1] if len(ix) == 1 else a[tuple(i - 1 for i in ix)])
                except IndexError: raise JuliaError('BoundsError')
            if not 1 <= ix[0] <= n: raise JuliaError('BoundsError')
            return s.iter(a)[ix[0] - 1]
        if k == 'dotcall':
            f = s.ev(e[1], env); a = s.items(e[2], env)
            return broadcast(lambda *x: s.call(f, list(x)), a)
        if k == 'range':
            a = s.ev(e[1], env); b = s.ev(e[3], env)
            if e[2] is None:
                if isinstance(a, float) or isinstance(b, float): return arr([a + i for i in range(int(math.floor(b - a + 1e-9)) + 1)])
                return range(a, b + 1)
            st = s.ev(e[2], env)
            return s.b_range(a, b, step=st) if any(isinstance(x, float) for x in (a, b, st)) else range(a, b + (1 if st > 0 else -1), st)
        if k == 'comp' : return arr(s.generate(e[1], env)) if len(e[1][2]) == 1 else (_ for _ in ()).throw(Unsupported('comprehension'))
        if k == 'gen': return s.generate(e, env)
        if k == 'for':
            s.loops(e[1], e[2], env); return None
        if k == 'while':
            while s.ev(e[1], env):
                try: s.ev(e[2], Env(env, env.mod, 'block'))
                except Break: break
                except Continue: continue
            return None
        if k == 'break': raise Break()
        if k == 'continue': raise Continue()
        if k == 'let':
            env2 = Env(env, env.mod, 'function')
            for a in e[1]:
                if a[0] == 'assign': env2.v[a[2][1]] = s.ev(a[3], env2)
            return s.ev(e[2], env2)
        if k == 'local':
            x = e[1]
            if x[0] == 'assign': env.v[x[2][1] if x[2][0] == 'id' else x[2][1][1]] = s.ev(x[3], env)
            return None
        if k == 'using': return s.using(e, env)
        if k == 'assert':
            if not s.ev(e[1], env): raise JuliaError('AssertionError')
            return None
        if k == 'atccall':
            x = e[1]
            if x[0] != 'typed' or x[1][0] != 'call': raise Unsupported('@ccall')
            c = x[1]; sym = c[1][2] if c[1][0] == 'dot' else c[1][1]
            return s.ccall(sym, s.type(x[2], env), [s.type(a[2], env) for a in c[2]], [s.ev(a[1], env) for a in c[2]])
        if k == 'where': return s.ev(e[1], env)
        raise Unsupported(k)
    def fold(s, o, a):
        if o in CMP: return cmp1(o, a[0], a[1])
        r = a[0]
        if len(a) == 1: return -r if o == '-' else r
        for x in a[1:]: r = bin1(o, r, x)
        return r
    def items(s, l, env):
        out = []
        for x in l:
            if x[0] == 'splat': out += s.iter(s.ev(x[1], env))
            else: out.append(s.ev(x, env))
        return out
    def ev_call(s, e, env):
        f = e[1]
        if f == ('id', 'ccall'):
            a = e[2]
            fn = a[0]
            while fn[0] == 'paren': fn = fn[1]
            if fn[0] == 'tuple': fn = fn[1][0]
            while fn[0] == 'paren': fn = fn[1]
            sym = s.ev(fn, env)
            sym = sym[1] if isinstance(sym, tuple) else sym
            if not isinstance(sym, str): raise Unsupported('ccall')
            ts = s.ev(a[2], env)
            return s.ccall(sym, s.type(a[1], env), list(ts), s.items(a[3:], env))
        fv = s.ev(f, env)
        kw = {}
        for n, v in e[3]: kw[n[1] if n[0] == 'id' else n[1][1]] = s.ev(v, env)
        return s.call(fv, s.items(e[2], env), kw)
    def ev_assign(s, e, env):
        o, l, r = e[1], e[2], e[3]
        if o == '=':
            v = s.ev(r, env)
            if l[0] == 'id': s.assign(l[1], v, env)
            elif l[0] == 'typed':
                t = s.type(l[2], env); v = s.convert(t, v)
                if env.kind == 'module': env.mod.vars[l[1][1]] = v
                else: env.v[l[1][1]] = v; env.types[l[1][1]] = t
            elif l[0] == 'tuple':
                vs = s.iter(v)
                for x, y in zip(l[1], vs): s.ev_assign(('assign', '=', x, ('const', y)), env)
            elif l[0] == 'index':
                a = s.ev(l[1], env); ix = [s.ev(i, env) for i in l[2]]
                if not isarr(a) or any(not isinstance(i, int) for i in ix): raise Unsupported('index assignment')
                if len(ix) == 1: a[np.unravel_index(ix[0] - 1, a.shape, order='F')] = v
                else: a[tuple(i - 1 for i in ix)] = v
            elif l[0] == 'dot': s.ev(l[1], env).f[l[2]] = v
            else: raise Unsupported('assignment')
            return v
        if o.startswith('.'): raise Unsupported('broadcast assignment')
        return s.ev_assign(('assign', '=', l, ('bin', o[:-1], l, r)), env)
    def ev_function(s, e, env):
        _, name, params, kw, ret, body = e
        ps = []
        pos = []
        for p in params: pos.append(p)
        sig = s.sig(pos, env)
        rt = s.type(ret, env) if ret is not None else None
        # keyword-looking arguments before a semicolon are defaults
        for n, d in kw: sig.append((n[1] if n[0] == 'id' else n[1][1], s.type(n[2], env) if n[0] == 'typed' else None, d, False))
        m = Method(sig, body, env, rt, [])
        if name[0] == 'dot': raise Unsupported('method of another module')
        n = name[1]
        if env.kind != 'module':
            f = env.v.get(n)
            if not isinstance(f, Fun): f = Fun(n); env.v[n] = f
            f.methods.append(m); return f
        f = env.mod.vars.get(n)
        if isinstance(f, Type):
            f.ctors.methods.append(m); return f
        if not isinstance(f, Fun): f = Fun(n); env.mod.vars[n] = f
        same = [x for x in f.methods if [p[1] for p in x.params] == [p[1] for p in m.params]]
        for x in same: f.methods.remove(x)
        f.methods.append(m)
        return f
    def bind(s, v, x, env):
        if v[0] == 'id': env.v[v[1]] = x
        elif v[0] == 'tuple':
            for a, b in zip(v[1], s.iter(x)): s.bind(a, b, env)
        else: raise Unsupported('loop variable')
    def generate(s, e, env):
        out = []
        def go(i, en):
            if i == len(e[2]):
                if e[3] is None or s.ev(e[3], en): out.append(s.ev(e[1], en))
                return
            for x in s.iter(s.ev(e[2][i][1], en)):
                e2 = Env(en, env.mod, 'block'); s.bind(e[2][i][0], x, e2); go(i + 1, e2)
        go(0, env)
        return out
    def loops(s, loops, body, env):
        def go(i, en):
            if i == len(loops):
                try: s.ev(body, en)
                except Continue: pass
                return
            for x in s.iter(s.ev(loops[i][1], en)):
                e2 = Env(en, env.mod, 'block'); s.bind(loops[i][0], x, e2); go(i + 1, e2)
        try: go(0, env)
        except Break: pass
    def using(s, e, env):
        m = env.mod
        for dots, names in e[1]:
            if dots == 0:
                p = Stub(names[0])
                for n in names[1:]: p = Stub(n)
                if not e[2]: m.vars.setdefault(names[-1], p)
                continue
            p = m
            for _ in range(dots - 1):
                p = p.parent or p
            path = names
            for n in path:
                if not isinstance(p, Module) : raise JuliaError('UndefVarError: ' + n)
                if n in p.vars: p = p.vars[n]
                else: raise JuliaError('UndefVarError: ' + n)
            if e[2]:
                for n in e[2]:
                    if not isinstance(p, Module): raise JuliaError('UndefVarError: ' + n)
                    m.vars[n] = p.vars[n] if n in p.vars else Later(p, n)
            else:
                m.vars[path[-1]] = p
                if isinstance(p, Module): m.__dict__.setdefault('usings', []).append(p)
        return None
class TypeVar:
    def __init__(s, n): s.name = n
