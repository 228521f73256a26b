"""Hash-consed terms: the value-numbering domain of the analysis.

A value is
  Term            an interned operator applied to values (unknown scalars, byte strings, sets, ...)
  Agg(v, fs)      a struct, tuple or known enum variant
  Arr(xs)         an array, slice or Vec content with a known number of elements
  Ptr(cell, path) a reference
  Fn(ref) Clo(ty, fs)   function items and closures
"""
import math
from collections import namedtuple

class Term:
    __slots__ = ('op', 'a', 'n', '_s')
    def __repr__(self): return show(self)
    def __lt__(self, o): return self.n < o.n
    def __reduce__(self): return (T, (self.op,) + self.a)

_tab = {}
def T(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = Term.__new__(Term)
        t.op, t.a, t.n, t._s = op, a, len(_tab), None
        _tab[k] = t
    return t

Agg = namedtuple('Agg', 'v fs')
Arr = namedtuple('Arr', 'xs')
Ptr = namedtuple('Ptr', 'cell path')
Fn = namedtuple('Fn', 'key')          # key indexes Program.fnrefs
Clo = namedtuple('Clo', 'ty fs')
Iter = namedtuple('Iter', 'k a')      # lazy iterator

UNIT = Agg(0, ())
_ints = {}
def I(n):
    t = _ints.get(n)
    if t is None: t = _ints[n] = T('int', n)
    return t
ZERO, ONE = I(0), I(1)
TRUE, FALSE = I(1), I(0)
def isint(t): return isinstance(t, Term) and t.op == 'int'
def B(b): return TRUE if b else FALSE

def show(t, d=0):
    if isinstance(t, Term):
        if t._s is not None and d == 0: return t._s
        if t.op == 'int': s = str(t.a[0])
        elif t.op == 'lit':
            b = t.a[0]
            s = repr(b)[1:] if all(32 <= c < 127 for c in b) else '0x' + b.hex()
        elif t.op == 'pk': s = 'pk:' + NAMES.get(t.a[0], t.a[0].hex()[:12])
        elif t.op == 'lin':
            s = ''
            for x, c in t.a[1]:
                s += (' + ' if c > 0 else ' - ') + ('' if abs(c) == 1 else '%s*' % abs(c)) + show(x, d + 1)
            if t.a[0]: s += ' %s %d' % ('+' if t.a[0] > 0 else '-', abs(t.a[0]))
            s = '(' + s.strip(' +') + ')'
        elif t.op == 'fld': s = show(t.a[0], d + 1) + '.' + '.'.join(str(x) for x in t.a[1:])
        elif not t.a: s = t.op
        else: s = t.op + '(' + ', '.join(show(x, d + 1) for x in t.a) + ')'
        if d == 0: t._s = s
        return s
    if isinstance(t, Agg): return '{' + ('%s|' % t.v if t.v else '') + ', '.join(show(x, d + 1) for x in t.fs) + '}'
    if isinstance(t, Arr): return '[' + ', '.join(show(x, d + 1) for x in t.xs[:40]) + ']'
    if isinstance(t, Ptr): return '&' + str(t.cell) + ''.join('.%s' % (e[2] if e[0] == 'f' else show_e(e)) for e in t.path)
    if isinstance(t, bytes): return repr(t)
    return str(t)
def show_e(e): return e[0] + '(' + ','.join(show(x) for x in e[1:3]) + ')'

NAMES = {bytes(32): 'system_program/default'}

# ------------------------------------------------------------------ integers
def lin(t):
    """t as (const, {atom: coef})"""
    if t.op == 'int': return t.a[0], {}
    if t.op == 'lin': return t.a[0], dict(t.a[1])
    return 0, {t: 1}
def mk(c, d):
    d = {k: v for k, v in d.items() if v != 0}
    if not d: return I(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1: return k
    return T('lin', c, tuple(sorted(d.items(), key=lambda kv: kv[0].n)))
def add(a, b, s=1):
    ca, da = lin(a); cb, db = lin(b)
    d = dict(da)
    for k, v in db.items(): d[k] = d.get(k, 0) + s * v
    return mk(ca + s * cb, d)
def sub(a, b): return add(a, b, -1)
def div(a, b):
    """floor division of non-negative integers, in lowest terms"""
    if isint(b) and b.a[0] > 0:
        k = b.a[0]
        if k == 1: return a
        if isint(a): return I(a.a[0] // k)
        if a.op == 'div' and isint(a.a[1]): return div(a.a[0], I(a.a[1].a[0] * k))
        c, d = lin(a)
        g = math.gcd(k, c, *d.values())
        if g > 1: return div(mk(c // g, {x: v // g for x, v in d.items()}), I(k // g))
    return T('div', a, b)
def scale(a, k):
    c, d = lin(a)
    return mk(c * k, {x: v * k for x, v in d.items()})

# ------------------------------------------------------------------ bytes
def lit(b): return T('lit', bytes(b))
def le(t, n):
    if isint(t): return lit((t.a[0] % (1 << (8 * n))).to_bytes(n, 'little'))
    return T('le', t, n)
def pkb(k):
    if isinstance(k, Term) and k.op == 'pk': return lit(k.a[0])
    if isinstance(k, Term) and k.op == 'pkof' : return k.a[0]
    return T('pkb', k)
def pkof(b):
    """the key with these bytes"""
    b = tobytes(b)
    if b.op == 'lit' and len(b.a[0]) == 32:
        return T('pk', b.a[0])
    if b.op == 'pkb': return b.a[0]
    return T('pkof', b)

WIDTH = {}   # atom -> bits
ENCLEN = {}  # encoded term -> length
FIXED = {}   # type string -> size, for 'pod' terms
def blen(t):
    """length of a byte string or sequence, as a term"""
    if isinstance(t, Arr): return I(len(t.xs))
    if not isinstance(t, Term): return T('len', t)
    o = t.op
    if o == 'lit': return I(len(t.a[0]))
    if t in ENCLEN: return ENCLEN[t]
    if o == 'str': return I(len(t.a[0].encode()))
    if o == 'catseq':
        r = ZERO
        for x in t.a: r = add(r, blen(x))
        return r
    if o == 'cat':
        r = ZERO
        for x in t.a: r = add(r, blen(x))
        return r
    if o == 'sub': return sub(t.a[2], t.a[1])
    if o in ('pkb',): return I(32)
    if o == 'le': return I(t.a[1])
    if o == 'zero': return t.a[0]
    if o == 'resize': return t.a[1]
    if o == 'pod' and t.a[0] in FIXED: return I(FIXED[t.a[0]])
    if o == 'byte': return ONE
    if o == 'rep': return t.a[1]
    if o == 'seqmap': return blen(t.a[0])
    return T('len', t)

def cat(*xs):
    out = []
    for x in xs:
        x = tobytes(x)
        parts = x.a if x.op == 'cat' else (x,)
        for p in parts:
            l = blen(p)
            if isint(l) and l.a[0] == 0: continue
            if out and p.op == 'lit' and out[-1].op == 'lit': out[-1] = lit(out[-1].a[0] + p.a[0])
            elif out and p.op == 'sub' and out[-1].op == 'sub' and out[-1].a[0] is p.a[0] and out[-1].a[2] is p.a[1]:
                out[-1] = bsub(p.a[0], out[-1].a[1], p.a[2])
            else: out.append(p)
    if not out: return lit(b'')
    return out[0] if len(out) == 1 else T('cat', *out)

def tobytes(v):
    """byte-string term of a value (array of u8, nested or not, or already a term)"""
    if isinstance(v, Arr):
        out = []
        for x in v.xs:
            if isint(x): out.append(lit(bytes([x.a[0] & 255])))
            elif isinstance(x, Term): out.append(T('byte', x) if not (x.op == 'at' and False) else x)
            else: out.append(T('byte', x))
        # re-assemble runs at(t, i), at(t, i+1)...
        r, i = [], 0
        while i < len(out):
            o = out[i]
            if o.op == 'byte' and isinstance(o.a[0], Term) and o.a[0].op == 'at' and isint(o.a[0].a[1]):
                b, j = o.a[0].a[0], o.a[0].a[1].a[0]
                k = 1
                while i + k < len(out) and out[i + k].op == 'byte' and out[i + k].a[0].op == 'at' and out[i + k].a[0].a == (b, I(j + k)): k += 1
                r.append(bsub(b, I(j), I(j + k))); i += k
            else: r.append(o); i += 1
        return cat(*r)
    if isinstance(v, Term): return v
    if v is None: return T('uninit')
    return T('bytesof', v)

def bsub(t, lo, hi):
    t = tobytes(t)
    n = blen(t)
    if lo is ZERO and (hi is None or hi is n): return t
    if hi is None: hi = n
    if lo is hi: return lit(b'')
    if t.op == 'sub': return bsub(t.a[0], add(t.a[1], lo), add(t.a[1], hi))
    if t.op == 'lit' and isint(lo) and isint(hi): return lit(t.a[0][lo.a[0]:hi.a[0]])
    if t.op == 'cat':
        # align both ends with segment boundaries where that is syntactically possible
        offs = [ZERO]
        for x in t.a: offs.append(add(offs[-1], blen(x)))
        i = locate(offs, lo, False); j = locate(offs, hi, True)
        if i is not None and j is not None:
            if i == j: return bsub(t.a[i], sub(lo, offs[i]), sub(hi, offs[i]))
            if i < j:
                return cat(bsub(t.a[i], sub(lo, offs[i]), None), *t.a[i + 1:j], bsub(t.a[j], ZERO, sub(hi, offs[j])))
    if t.op == 'zero': return T('zero', sub(hi, lo))
    return T('sub', t, lo, hi)
def locate(offs, p, end):
    """index of the segment that contains offset p (as an end offset if `end`)"""
    for i in range(len(offs) - 1):
        a, b = offs[i], offs[i + 1]
        if not end and p is a: return i
        if end and p is b: return i
    for i in range(len(offs) - 1):
        a, b = sub(p, offs[i]), sub(offs[i + 1], p)
        if isint(a) and isint(b):
            if (not end and a.a[0] >= 0 and b.a[0] > 0) or (end and a.a[0] > 0 and b.a[0] >= 0): return i
        elif isint(a) and a.a[0] > 0 and i == len(offs) - 2: return i
    return None
def bset(t, lo, hi, src):
    t = tobytes(t)
    return cat(bsub(t, ZERO, lo), src, bsub(t, hi, blen(t)) if hi is not None and hi is not blen(t) else lit(b''))
def at(t, i):
    if isinstance(t, Arr) and isint(i) and 0 <= i.a[0] < len(t.xs): return t.xs[i.a[0]]
    if isinstance(t, Term):
        if t.op == 'lit' and isint(i) and i.a[0] < len(t.a[0]): return I(t.a[0][i.a[0]])
        if t.op == 'sub': return at(t.a[0], add(t.a[1], i))
        if t.op == 'byte' and i is ZERO: return t.a[0]
        if t.op == 'cat':
            o = ZERO
            for x in t.a:
                n = blen(x); d = sub(i, o)
                if isint(d) and d.a[0] >= 0 and (isint(n) and d.a[0] < n.a[0] or x is t.a[-1]): return at(x, d)
                if not isint(n): break
                o = add(o, n)
        if t.op == 'seqmap': return T('elem', t, i)
    return T('at', t, i)

def walk(t, f):
    """call f on every sub-term"""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, Term):
            if x.n in seen: continue
            seen.add(x.n); f(x)
            st.extend(x.a)
        elif isinstance(x, tuple): st.extend(x)
def contains(t, pred):
    r = []
    walk(t, lambda x: r.append(x) if pred(x) else None)
    return r

# ------------------------------------------------------------------ linear reasoning
def nonneg(t, facts, deep=4):
    """prove t >= 0 (all atoms are unsigned integers) as a positive combination of the facts (each known to be >= 0) and the
    ranges of the atoms"""
    c, d = lin(t)
    return _nn(c, d, facts, deep, {})
M64 = (1 << 64) - 1
def upper(x):
    """linear upper bounds (denominator, const, {atom: coef}) of a single unsigned atom"""
    o = x.op
    if o == 'div' and isint(x.a[1]) and x.a[1].a[0] > 0:
        c, d = lin(x.a[0])
        yield x.a[1].a[0], c, d
        return
    if x in WIDTH: yield 1, (1 << WIDTH[x]) - 1, None
    elif o == 'len': yield 1, 1 << 40, None
    elif o == 'card': yield 1, 1 << 35, None
    elif o in ('at', 'bump'): yield 1, 255, None
    elif o == 'minbal': yield 1, 1 << 50, None     # rent of at most 10 MiB under any real rent schedule
    elif o not in ('mul', 'wrap', 'bin', 'un'): yield 1, M64, None
def lower(x):
    if x.op == 'minbal' and x.a[0] is T('rent', 'default') and isint(x.a[1]):
        return (128 + x.a[1].a[0]) * 3480 * 2
    if x.op == 'div' and isint(x.a[1]) and x.a[1].a[0] > 0: return None
    return None
def _combine(c, d, s, uc, ud, m):
    """m * (c, d) + s * (uc, ud), reduced"""
    n = {a: v * m for a, v in d.items()} if m != 1 else dict(d)
    for a, w in ud.items():
        v = n.get(a, 0) + s * w
        if v: n[a] = v
        else: n.pop(a, None)
    c = c * m + s * uc
    g = math.gcd(c, *n.values())
    if g > 1: c //= g; n = {a: v // g for a, v in n.items()}
    return c, n
def _nn(c, d, facts, deep, seen):
    neg = [k for k, v in d.items() if v < 0]
    if not neg:
        if c >= 0: return True
        if not d: return False
        for k in d:
            l = lower(k)
            if l:
                n = dict(d); v = n.pop(k)
                if c + v * l >= 0: return True
    key = (c, frozenset(d.items()))
    if seen.get(key, -1) >= deep: return False
    seen[key] = deep
    if not neg:
        if deep > 0:
            for fc, fd in facts:
                if fc < 0:      # -fc * t = -c * fact + rest
                    nc, n = _combine(c, d, c, fc, fd, -fc)
                    if len(n) <= len(d) + 1 and _nn(nc, n, facts, deep - 1, seen): return True
        return False
    k = max(neg, key=lambda a: a.op == 'div' and isint(a.a[1]) or a in WIDTH and WIDTH[a] <= 8)
    v = d[k]
    bounds = list(upper(k))
    if k.op == 'div' and isint(k.a[1]):
        # floor(x/(j*m)) = floor(floor(x/j)/m) <= floor(x/j)/m
        for x in d:
            if x is not k and x.op == 'div' and x.a[0] is k.a[0] and isint(x.a[1]) and x.a[1].a[0] and k.a[1].a[0] % x.a[1].a[0] == 0:
                bounds.insert(0, (k.a[1].a[0] // x.a[1].a[0], 0, {x: 1}))
    for den, uc, ud in bounds:
        # t = ... + v*k, v < 0, k <= (uc + ud)/den
        n = dict(d); n.pop(k)
        nc, n = _combine(c, n, v, uc, ud or {}, den)
        if ud is not None:
            if _nn(nc, n, facts, deep, seen): return True
        elif nc >= 0 or deep <= 1:
            if _nn(nc, n, facts, deep, seen): return True
    if deep > 0:
        for fc, fd in facts:
            w = fd.get(k, 0)
            if w < 0:           # -w * t = -v * fact + rest
                nc, n = _combine(c, d, v, fc, fd, -w)
                if _nn(nc, n, facts, deep - 1, seen): return True
    return False
