"""Path-sensitive abstract interpreter over the dumped MIR: functions of the crate are analysed in context (inlined), library
functions through models.py. The domain is value numbering (terms) x must-facts x account cells, with trace partitioning;
outcomes that agree on everything but one complementary fact are joined at function returns."""
import json, sys
from terms import *
sys.setrecursionlimit(20000)

class Limit(Exception): pass
class Diverge(Exception): pass
class Restart(Exception): pass      # a loop-carried variable was discovered: analyse again

class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.d = d
        self.types = d['types']
        self.fns = {f['id']: f for f in d['fns']}
        self.roots = dict((p, i) for p, i in d['roots'])
        self.consts = {c['path']: c for c in d['consts']}
        self.fnrefs = []
        self._fr = {}
        self._cc = {}
        self.bytype = {}
        for i, t in enumerate(self.types):
            if t: self.bytype.setdefault(t['s'], i)
            if t and t.get('size') is not None: FIXED.setdefault(t['s'], t['size'])
        for f in self.fns.values():
            for st, tm in f['blocks']:
                pass
    def fnref(self, r):
        k = r['full'] + '#%s' % r.get('id', '') + '@' + ','.join(str(x) for x in r['targs'])
        if k not in self._fr:
            self._fr[k] = len(self.fnrefs); self.fnrefs.append(r)
        return Fn(self._fr[k])
    def tname(self, t): return self.types[t]['s'] if t is not None and t >= 0 else '?'
    def adt(self, t):
        x = self.types[t]
        return x if x and x['k'] == 'adt' else None
    def const(self, c, ty):
        """value of a dumped constant"""
        t = self.types[ty] if ty is not None else None
        if 'fn' in c: return self.fnref(c['fn'])
        if 'i' in c: return I(int(c['i']))
        if 'str' in c: return T('str', c['str'])
        if 'seq' in c:
            ety = t.get('ty') if t else None
            if c['seq'] and all('i' in x for x in c['seq']) and t and ety is not None and self.types[ety]['s'] == 'u8':
                return lit(bytes(int(x['i']) for x in c['seq']))
            return Arr(tuple(self.const(x, ety) for x in c['seq']))
        if 'agg' in c:
            tt = c.get('ty', ty)
            x = self.types[tt]
            if x['k'] == 'tuple': ftys = x['tys']; v = 0
            else:
                v = c.get('v', 0); ftys = [f[1] for f in x['variants'][v]['fields']]
            fs = tuple(self.const(y, ft) for y, ft in zip(c['agg'], ftys))
            if ispubkey(x): return pkof(fs[0])
            if x.get('path', '').endswith('mem::MaybeUninit'): return fs[0] if fs else None
            return Agg(v, fs)
        if 'ref' in c:
            it = t.get('ty') if t else None
            v = self.const(c['ref'], it)
            return Ptr(('const', v), ())
        if 'closure' in c: return Clo(c['closure'], ())
        return T('opqc', c.get('opaque', '?')[:80], self.tname(ty))

def ispubkey(x): return x and x['k'] == 'adt' and x['path'].endswith('::Pubkey') and x['path'].startswith('solana')
TRANSPARENT = ('std::mem::MaybeUninit', 'std::mem::ManuallyDrop', 'std::boxed::Box', 'std::ptr::Unique', 'std::ptr::NonNull', 'std::cell::RefCell', 'std::cell::Cell',
               'std::cell::UnsafeCell', 'core::mem::MaybeDangling', 'std::mem::MaybeDangling', 'core::mem::maybe_dangling::MaybeDangling', 'std::rc::Rc', 'std::pin::Pin')

class State:
    __slots__ = ('cells', 'facts', 'ev', 'ledger', 'fails', 'nfacts', 'notes')
    def __init__(self):
        self.cells, self.facts, self.ev, self.ledger, self.fails, self.nfacts, self.notes = {}, {}, (), ZERO, (), None, ()
    def fork(self):
        s = State.__new__(State)
        s.cells, s.facts, s.ev, s.ledger, s.fails, s.nfacts, s.notes = dict(self.cells), dict(self.facts), self.ev, self.ledger, self.fails, self.nfacts, self.notes
        return s
    # ---- facts
    def fact(self, t, val):
        """assume t == val; returns False if contradictory"""
        v = self.decide(t)
        if v is not None: return v == val
        if t.op == 'not': return self.fact(t.a[0], not val)
        if t.op == 'and' and val: return self.fact(t.a[0], True) and self.fact(t.a[1], True)
        if t.op == 'or' and not val: return self.fact(t.a[0], False) and self.fact(t.a[1], False)
        self.facts[t] = val
        self.nfacts = None
        if t.op == 'is' and val is False and t.a[0] in DISCR:
            left = [n for n in DISCR[t.a[0]] if self.facts.get(T('is', t.a[0], n)) is not False]
            if len(left) == 1: self.facts[T('is', t.a[0], left[0])] = True
            if not left: return False
        return True
    def split(self, t, val):
        """states that together cover t == val, with conjunctions and disjunctions taken apart"""
        while t.op == 'not': t, val = t.a[0], not val
        d = self.decide(t)
        if d is not None: return [self] if d == val else []
        if t.op in ('and', 'or'):
            if val == (t.op == 'and'): return [y for x in self.split(t.a[0], val) for y in x.split(t.a[1], val)]
            return self.fork().split(t.a[0], val) + [y for x in self.split(t.a[0], not val) for y in x.split(t.a[1], val)]
        return [self] if self.fact(t, val) else []
    def decide(self, t):
        if t.op == 'int': return bool(t.a[0])
        if t in self.facts: return self.facts[t]
        o = t.op
        if o == 'not':
            v = self.decide(t.a[0]); return None if v is None else not v
        if o in ('and', 'or'):
            a, b = self.decide(t.a[0]), self.decide(t.a[1])
            if o == 'and':
                if a is False or b is False: return False
                return True if a and b else None
            if a or b: return True
            return False if a is False and b is False else None
        if o == 'eq':
            a, b = t.a
            if a is b: return True
            if isinstance(a, Term) and isinstance(b, Term):
                if a.op in ('int', 'lit', 'pk') and b.op == a.op: return False
                if a.op == 'pk' and b.op == 'pk': return a.a == b.a
                if isnum(a) and isnum(b):
                    d = sub(a, b)
                    if isint(d): return d.a[0] == 0
                    for x, y in ((a, b), (b, a)):       # the encoding of a vector has a length prefix
                        if y is ZERO and x.op == 'enclen' and str(x.a[0]).startswith('Vec<'): return False
                    if self.ge(sub(sub(a, b), ONE)) or self.ge(sub(sub(b, a), ONE)): return False
                    if self.haseq and self.ge(sub(a, b)) and self.ge(sub(b, a)): return True
            return None
        if o == 'lt':
            a, b = t.a
            if self.ge(sub(sub(b, a), ONE)): return True
            if self.ge(sub(a, b)): return False
            return None
        if o == 'is':
            for n in DISCR.get(t.a[0], ()):
                if n != t.a[1] and self.facts.get(T('is', t.a[0], n)) is True: return False
            if t.a[0] in self.facts: pass
            return None
        return None
    @property
    def haseq(self): return True
    def linear(self):
        if self.nfacts is None:
            r = []; ne = []
            for f, v in self.facts.items():
                if f.op == 'lt':
                    x = sub(sub(f.a[1], f.a[0]), ONE) if v else sub(f.a[0], f.a[1])
                elif f.op == 'eq' and isnum(f.a[0]) and isnum(f.a[1]):
                    d = sub(f.a[0], f.a[1])
                    if v:
                        c, l = lin(d); r.append((c, l)); r.append((-c, {k: -w for k, w in l.items()})); continue
                    # x != 0 for unsigned x
                    c, l = lin(d)
                    if c == 0 and len(l) == 1: x = sub(list(l)[0], ONE)
                    else: ne.append((c, l)); continue
                else: continue
                r.append(lin(x))
            for c, l in ne:             # x >= 0 and x != 0: x >= 1
                m = (-c, {k: -w for k, w in l.items()})
                if (c, l) in r: r.append((c - 1, l))
                elif m in r: r.append((m[0] - 1, m[1]))
            self.nfacts = r
        return self.nfacts
    def ge(self, t):
        """t >= 0 ?"""
        c, d = lin(t)
        if c >= 0 and all(v > 0 for v in d.values()): return True
        return nonneg(t, self.linear())

NUMOPS = {'enclen', 'int', 'lin', 'len', 'lam0', 'card', 'div', 'mul', 'minbal', 'wrap', 'at', 'bump', 'rem', 'width', 'slot', 'bin', 'lamx'}
NUMTERMS = set()
def isnum(t): return isinstance(t, Term) and (t.op in NUMOPS or t in NUMTERMS)
DISCR = {}      # term of enum type -> variant names

SMALL = {'len', 'lam0', 'lamx', 'card', 'minbal', 'slot', 'enclen', 'fld', 'width'}
def small(t):
    """surely of 64-bit magnitude: sums of a few 64-bit amounts"""
    c, d = lin(t)
    return abs(c) < 1 << 80 and all(k.op in SMALL and abs(w) < 1 << 16 for k, w in d.items())
BOOLS = {'is_signer', 'is_writable', 'executable', 'eq', 'lt', 'not', 'and', 'or', 'is', 'in', 'oncurve', 'any', 'all'}
def asbool(t):
    if not isinstance(t, Term): return None
    if t.op == 'ofbool': return t.a[0]
    return t if t.op in BOOLS else None
def eq(a, b):
    if a is b: return TRUE
    for x, y in ((a, b), (b, a)):
        c = asbool(x)
        if c is not None and isint(y): return c if y.a[0] == 1 else not_(c) if y.a[0] == 0 else FALSE
    if isinstance(a, Term) and isinstance(b, Term):
        if a.op in ('int', 'pk', 'lit') and b.op == a.op: return FALSE
        for x, y in ((a, b), (b, a)):
            # an integer read from bytes equals a constant: the bytes are that constant's
            if x.op == 'unle' and isint(y): return eq(x.a[0], le(y, x.a[1])) if 0 <= y.a[0] < 1 << 8 * x.a[1] else FALSE
        if isnum(a) and isnum(b) or isint(a) or isint(b):
            NUMTERMS.update((a, b))
            d = sub(a, b)
            c, l = lin(d)
            if not l: return B(c == 0)
            # canonical sign: first atom positive
            pos = mk(max(c, 0), {k: v for k, v in l.items() if v > 0}); neg = mk(max(-c, 0), {k: -v for k, v in l.items() if v < 0})
            a, b = pos, neg
        return T('eq', a, b) if a.n < b.n else T('eq', b, a)
    if a == b: return TRUE
    return T('eq', a, b)
def lt(a, b):
    x, y = asbool(a), asbool(b)
    if x is not None and isint(b): return FALSE if b.a[0] <= 0 else not_(x) if b.a[0] == 1 else TRUE
    if y is not None and isint(a): return y if a.a[0] == 0 else FALSE if a.a[0] > 0 else TRUE
    if x is not None and y is not None: return T('and', not_(x), y)
    NUMTERMS.update((a, b))
    c, l = lin(sub(b, a))
    if not l: return B(c > 0)
    pos = mk(max(c, 0), {k: v for k, v in l.items() if v > 0}); neg = mk(max(-c, 0), {k: -v for k, v in l.items() if v < 0})
    if pos is ZERO: return FALSE        # neg < 0 never
    if neg is ZERO: return not_(eq(pos, ZERO))
    return T('lt', neg, pos)
def not_(t):
    if isint(t): return B(not t.a[0])
    return t.a[0] if t.op == 'not' else T('not', t)

def bound(c, stay, ix):
    """n such that `c is stay` means ix < n, for a condition linear in ix"""
    while c.op == 'not': c, stay = c.a[0], not stay
    if c.op not in ('lt', 'eq'): return None
    e = sub(c.a[1], c.a[0])
    k = lin(e)[1].get(ix, 0)
    if abs(k) != 1: return None
    r = sub(e, scale(ix, k))            # e = r + k*ix
    if contains(r, lambda t: t is ix): return None
    if c.op == 'eq': return None if stay else scale(r, -k)
    if k == -1: return r if stay else None                    # e > 0  iff  ix < r
    return sub(ONE, r) if not stay else None                  # e <= 0 iff  ix < 1 - r
def natural_loops(f):
    def succs(b):
        t = f['blocks'][b][1]; k = t[0]
        if k == 'goto': return [t[1]]
        if k == 'drop': return [t[2]]
        if k == 'assert': return [t[4]]
        if k == 'switch': return [b for _, b in t[2]] + [t[3]]
        if k == 'call': return [t[4]] if t[4] >= 0 else []
        return []
    n = len(f['blocks'])
    pre = {}
    order, seen, st = [], {0}, [(0, iter(succs(0)))]
    back = []
    onst = {0}
    while st:
        b, it = st[-1]
        for x in it:
            pre.setdefault(x, []).append(b)
            if x in onst: back.append((b, x))
            if x not in seen:
                seen.add(x); onst.add(x); st.append((x, iter(succs(x)))); break
        else: st.pop(); onst.discard(b)
    loops = {}
    for b, h in back:
        body = loops.setdefault(h, {h})
        w = [b]
        while w:
            x = w.pop()
            if x in body: continue
            body.add(x); w += pre.get(x, [])
    return loops
class Interp:
    def __init__(self, prog, models, max_visits=80):
        self.p, self.m = prog, models
        self.max_visits = max_visits
        self.frf = {}
        self.nloops = {}
        self.site_ = None
        self.ncell = 0
        self.stats = {'fns': set(), 'blocks': set(), 'calls': 0, 'outcomes': 0, 'models': set(), 'opaque': set()}
        self.uid = 0
        self.stack = []
        self.steps = 0
        self.panics = []            # (state, site, what) of every point where the program may abort
        models.ip = self
    def fresh(self, name):
        self.uid += 1
        return T('opq', name, self.uid)
    def newcell(self):
        self.ncell += 1
        return self.ncell

    # ---------------------------------------------------------------- places
    def deref(self, v):
        """location that a reference value points to"""
        if isinstance(v, Ptr): return v
        if isinstance(v, Agg) and len(v.fs) == 1 and isinstance(v.fs[0], Ptr): return v.fs[0]
        return Ptr(('sym', v), ())      # pointee of an unknown reference
    def resolve(self, st, base, proj, ty):
        """base cell + MIR projection -> Ptr; also returns the static type index"""
        loc = Ptr(base, ())
        var = None
        P = self.p.types
        for e in proj:
            k = e[0]
            t = P[ty] if ty is not None and ty >= 0 else None
            if k == '*':
                if t and t['k'] == 'adt' and t['path'] in ('std::boxed::Box',):
                    ty = t['args'][0] if t['args'] else None
                    continue
                v = self.read(st, loc)
                loc = self.deref(v)
                ty = t.get('ty') if t else None
                var = None
            elif k == 'f':
                fi, fty = e[1], e[2]
                if t and t['k'] == 'adt' and t['path'] in TRANSPARENT:
                    ty = fty; continue
                if ispubkey(t):
                    loc = Ptr(loc.cell, loc.path + (('pkb',),)); ty = fty; continue
                if t and t['k'] == 'adt':
                    vv = t['variants'][var if var is not None else 0]
                    names = tuple(f[0] for f in vv['fields'])
                    if t['kind'] == 'enum': el = ('v', fi, names[fi], names, var or 0, vv['name'])
                    else: el = ('f', fi, names[fi], names)
                elif t and t['k'] in ('tuple', 'closure'):
                    names = tuple(str(i) for i in range(len(t['tys'])))
                    el = ('f', fi, str(fi), names)
                else: el = ('f', fi, str(fi), tuple(str(i) for i in range(fi + 1)))
                loc = Ptr(loc.cell, loc.path + (el,)); ty = fty; var = None
            elif k == 'dc': var = e[1]
            elif k == 'i':
                iv = self.read(st, Ptr(self.frame_cell(e[1]), ()))
                loc = self.index(loc, iv); ty = t.get('ty') if t else None
            elif k == 'ci':
                if e[3]: iv = sub(self.length(st, loc, ty), I(e[1]))
                else: iv = I(e[1])
                loc = self.index(loc, iv); ty = t.get('ty') if t else None
            elif k == 'ss':
                n = self.length(st, loc, ty)
                hi = sub(n, I(e[2])) if e[3] else I(e[2])
                loc = self.subrange(loc, I(e[1]), hi)
            elif k == 'oc': ty = e[1]
            else: raise Limit('projection %s' % e)
        return loc, ty
    def frame_cell(self, l): return (self.fr, l)
    def index(self, loc, i):
        if loc.path and loc.path[-1][0] == 'rng':
            r = loc.path[-1]
            return Ptr(loc.cell, loc.path[:-1] + (('ix', add(r[1], i)),))
        return Ptr(loc.cell, loc.path + (('ix', i),))
    def subrange(self, loc, lo, hi):
        if loc.path and loc.path[-1][0] == 'rng':
            r = loc.path[-1]
            lo = add(r[1], lo); hi = add(r[1], hi)
            return Ptr(loc.cell, loc.path[:-1] + (('rng', lo, hi),))
        return Ptr(loc.cell, loc.path + (('rng', lo, hi),))
    def length(self, st, loc, ty=None):
        if loc.path and loc.path[-1][0] == 'rng': return sub(loc.path[-1][2], loc.path[-1][1])
        if loc.path and loc.path[-1][0] == 'pkb': return I(32)
        if loc.path and loc.path[-1][0] == 'bytesof' and loc.path[-1][1] in FIXED: return I(FIXED[loc.path[-1][1]])
        if ty is not None and ty >= 0 and self.p.types[ty] and self.p.types[ty]['k'] == 'array' and self.p.types[ty]['len'] >= 0: return I(self.p.types[ty]['len'])
        v = self.read(st, loc)
        if isinstance(v, Ptr): v = self.read(st, v)
        return blen(v)

    # ---------------------------------------------------------------- memory
    def init_cell(self, cell):
        """value of a cell nothing was stored in yet"""
        if cell[0] == 'const': return cell[1]
        if cell[0] == 'sym':
            return T('deref', cell[1]) if isinstance(cell[1], Term) else None
        r = self.m.init_cell(cell)
        return r
    def read(self, st, loc):
        cell = loc.cell
        if cell in st.cells: v = st.cells[cell]
        elif isinstance(cell[0], str): v = self.init_cell(cell)
        else: v = None
        for e in loc.path: v = self.proj(st, v, e)
        return v
    def proj(self, st, v, e):
        k = e[0]
        if v is None: return None
        if k == 'f':
            if isinstance(v, (Agg, Clo)):
                return v.fs[e[1]] if e[1] < len(v.fs) else None
            if isinstance(v, Term): return self.m.field(v, e[2])
            return None
        if k == 'v':
            if isinstance(v, Agg): return v.fs[e[1]] if v.v == e[4] and e[1] < len(v.fs) else None
            if isinstance(v, Term): return self.m.field(v, e[5], e[2])
            return None
        if k == 'ix':
            if isinstance(v, Arr): return at(v, e[1]) if isint(e[1]) else T('elem', v, e[1])
            if isinstance(v, Term): return self.m.elem(v, e[1])
            return None
        if k == 'rng':
            if isinstance(v, Arr):
                if isint(e[1]) and isint(e[2]): return Arr(v.xs[e[1].a[0]:e[2].a[0]])
                return bsub(tobytes(v), e[1], e[2])
            if isinstance(v, Term): return bsub(v, e[1], e[2])
            return None
        if k == 'pkb': return pkb(v)
        if k == 'pk': return pkof(v) if not isinstance(v, Arr) else pkof(tobytes(v))
        if k == 'pod':
            b = tobytes(v)
            if b.op == 'pod' and b.a[0] == e[1]: return b.a[1]
            return T('podv', e[1], b)
        if k == 'bytesof':
            if isinstance(v, Term) and v.op == 'podv' and v.a[0] == e[1]: return v.a[1]
            if e[1] and 'Pubkey' in e[1]: return pkb(v)
            return T('pod', e[1], self.m.freeze(st, v))
        raise Limit('proj %s' % (e,))
    def write(self, st, loc, val):
        cell = loc.cell
        if cell[0] == 'const': return
        if loc.path:
            old = st.cells[cell] if cell in st.cells else (self.init_cell(cell) if isinstance(cell[0], str) else None)
            val = self.wproj(st, old, loc.path, val)
        if cell[0] == 'lam' :
            old = st.cells.get(cell)
            if old is None: old = self.init_cell(cell)
            st.ledger = add(st.ledger, sub(val, old)) if isinstance(val, Term) and isinstance(old, Term) else T('opq', 'ledger')
        st.cells[cell] = val
    def wproj(self, st, old, path, val):
        if not path: return val
        e, rest = path[0], path[1:]
        k = e[0]
        if k in ('f', 'v'):
            names = e[3]
            vi = e[4] if k == 'v' else 0
            if isinstance(old, Clo):
                fs = list(old.fs); fs[e[1]] = self.wproj(st, fs[e[1]], rest, val); return Clo(old.ty, tuple(fs))
            if isinstance(old, Agg) and (k == 'f' or old.v == vi) and len(old.fs) >= len(names): fs = list(old.fs)
            elif isinstance(old, Term):
                fs = [(self.m.field(old, n) if k == 'f' else self.m.field(old, e[5], n)) for n in names]
            else:
                fs = list(old.fs) if isinstance(old, Agg) else []
                fs += [None] * (len(names) - len(fs))
            fs[e[1]] = self.wproj(st, fs[e[1]], rest, val)
            return Agg(vi, tuple(fs))
        if k == 'ix':
            if isinstance(old, Arr) and isint(e[1]) and 0 <= e[1].a[0] < len(old.xs):
                xs = list(old.xs); i = e[1].a[0]
                xs[i] = self.wproj(st, xs[i], rest, val); return Arr(tuple(xs))
            if rest: return T('opq', 'upd', self.uidn())
            if isinstance(old, Term) and old.op == 'rep' and not isint(old.a[0]) and not isnum(old.a[0]): return T('updseq', old, e[1], val)
            if isinstance(old, (Term, Arr)) :
                return bset(tobytes(old), e[1], add(e[1], ONE), T('byte', val) if not isint(val) else lit(bytes([val.a[0] & 255])))
            return T('opq', 'upd', self.uidn())
        if k == 'rng':
            inner = self.proj(st, old, e)
            nv = self.wproj(st, inner, rest, val)
            if isinstance(old, Arr) and isinstance(nv, Arr) and isint(e[1]) and isint(e[2]):
                return Arr(old.xs[:e[1].a[0]] + nv.xs + old.xs[e[2].a[0]:])
            n = blen(old)
            return bset(tobytes(old), e[1], e[2] if e[2] is not n else None, nv)
        if k == 'pkb': return pkof(self.wproj(st, pkb(old), rest, val))
        if k == 'pk': return pkb(self.wproj(st, pkof(old), rest, val))
        if k == 'pod':
            inner = self.wproj(st, self.proj(st, old, e), rest, val)
            return self.proj(st, inner, ('bytesof', e[1]))
        if k == 'bytesof':
            b = self.wproj(st, self.proj(st, old, e), rest, val)
            return self.proj(st, b, ('pod', e[1]))
        raise Limit('wproj %s' % (e,))
    def uidn(self):
        self.uid += 1; return self.uid

    # ---------------------------------------------------------------- operands, rvalues
    def operand(self, st, f, o):
        if 'cp' in o or 'mv' in o:
            p = o.get('cp') or o.get('mv')
            if not p[1]:
                return st.cells.get((self.fr, p[0]))
            loc, _ = self.resolve(st, (self.fr, p[0]), p[1], f['locals'][p[0]])
            return self.read(st, loc)
        if 'c' in o:
            k = id(o)
            c = self.p._cc.get(k)
            if c is None:
                c = self.p.const(o['c'], o['ty'])
                if isinstance(c, Term) and c.op == 'lit' and False: pass
                self.p._cc[k] = c
            return c
        if 'rt' in o: return TRUE if 'true' in o['rt'] else FALSE
        raise Limit('operand %s' % o)
    def optype(self, f, o):
        if 'cp' in o or 'mv' in o:
            p = o.get('cp') or o.get('mv')
            return self.ptype(f, p)
        return o.get('ty')
    def ptype(self, f, p):
        ty = f['locals'][p[0]]
        for e in p[1]:
            t = self.p.types[ty] if ty is not None and ty >= 0 else None
            if e[0] == '*': ty = (t['args'][0] if t and t['k'] == 'adt' else t.get('ty') if t else None)
            elif e[0] == 'f': ty = e[2]
            elif e[0] in ('i', 'ci'): ty = t.get('ty') if t else None
            elif e[0] == 'oc': ty = e[1]
        return ty
    def rvalue(self, st, f, r, dty):
        k = r[0]
        if k == 'use': return self.operand(st, f, r[1])
        if k == 'ref':
            loc, ty = self.resolve(st, (self.fr, r[2][0]), r[2][1], f['locals'][r[2][0]])
            return loc
        if k == 'agg':
            kind = r[1]
            vals = tuple(self.operand(st, f, o) for o in r[2])
            if kind[0] == 'array':
                ety = self.p.types[dty].get('ty') if dty is not None and self.p.types[dty] else None
                return Arr(vals)
            if kind[0] == 'tuple': return Agg(0, vals)
            if kind[0] == 'adt':
                t = self.p.types[kind[1]]
                if t['kind'] == 'union': return vals[0]
                if ispubkey(t): return pkof(vals[0])
                if t['path'] in TRANSPARENT and len(vals) >= 1: return vals[0]
                return Agg(kind[2], vals)
            if kind[0] == 'closure': return Clo(kind[1], vals)
            if kind[0] == 'rawptr': return vals[0]
            return self.fresh('agg')
        if k == 'cast':
            ck = r[1]
            if ck == 'BoxDerefTransmute':
                p = r[2].get('cp') or r[2].get('mv')
                loc, _ = self.resolve(st, (self.fr, p[0]), p[1][:-1], f['locals'][p[0]])
                return loc
            v = self.operand(st, f, r[2])
            if ck == 'IntToInt':
                a, b = self.p.types[self.optype(f, r[2])], self.p.types[r[3]]
                return self.cast_int(st, v, a, b)
            return v
        if k == 'bin':
            a, b = self.operand(st, f, r[2]), self.operand(st, f, r[3])
            return self.binop(st, r[1], a, b, self.optype(f, r[2]))
        if k == 'un':
            v = self.operand(st, f, r[2])
            if r[1] == 'Not':
                ty = self.p.types[self.optype(f, r[2])]
                if ty['k'] == 'bool': return not_(v)
                return T('bitnot', v)
            if r[1] == 'PtrMetadata':
                if isinstance(v, Ptr):
                    ty = self.p.types[self.optype(f, r[2])]
                    return self.length(st, v, ty.get('ty'))
                if isinstance(v, Term): return blen(T('deref', v))
            return T('un', r[1], v)
        if k == 'discr':
            loc, ty = self.resolve(st, (self.fr, r[1][0]), r[1][1], f['locals'][r[1][0]])
            v = self.read(st, loc)
            t = self.p.types[ty]
            if isinstance(v, Agg): return I(int(t['variants'][v.v]['discr']))
            if v is None: return self.fresh('discr')
            if t['k'] == 'adt':
                DISCR[v] = tuple(x['name'] for x in t['variants'])
                for x in t['variants']:
                    if st.facts.get(T('is', v, x['name'])): return I(int(x['discr']))
                if len(t['variants']) == 1: return I(int(t['variants'][0]['discr']))
                return T('discr', v, tuple((int(x['discr']), x['name']) for x in t['variants']))
            return T('un', 'discr', v)
        if k == 'repeat':
            v = self.operand(st, f, r[1])
            if 0 <= r[2] <= 4096: return Arr((v,) * r[2])
            return T('rep', v, I(r[2]))
        return self.fresh('rv:%s' % (r[1] if len(r) > 1 else k))
    def cast_int(self, st, v, a, b):
        if not isinstance(v, Term): return self.fresh('cast')
        bits = b.get('bits', 64)
        if isint(v):
            n = v.a[0] & ((1 << bits) - 1)
            if b.get('signed') and n >> (bits - 1): n -= 1 << bits
            return I(n)
        abits = a.get('bits', 8 if a['k'] == 'bool' else 32)
        if v.op == 'discr': return v
        if a['k'] == 'bool': return T('ofbool', v)
        if a.get('signed') and not b.get('signed'):
            if abits == 128 and small(v) and st.ge(v) and st.ge(sub(I((1 << bits) - 1), v)): return v
            return T('wrap', 'cast', bits, v)
        if bits >= abits: 
            if abits < 64: self.m.width(v, abits)
            return v
        if st.ge(sub(I((1 << bits) - 1), v)): return v
        return T('wrap', 'trunc', bits, v)
    def binop(self, st, op, a, b, ty):
        t = self.p.types[ty] if ty is not None and ty >= 0 else {'k': '?'}
        if not isinstance(a, Term) or not isinstance(b, Term):
            if op in ('Eq', 'Ne'):
                r = eq(a, b)
                return r if op == 'Eq' else not_(r)
            return self.fresh('bin')
        if t['k'] == 'bool':
            if op == 'BitAnd': return FALSE if a is FALSE or b is FALSE else b if a is TRUE else a if b is TRUE else T('and', a, b)
            if op == 'BitOr': return TRUE if a is TRUE or b is TRUE else b if a is FALSE else a if b is FALSE else T('or', a, b)
            if op == 'Eq': return b if a is TRUE else a if b is TRUE else not_(a) if b is FALSE else not_(b) if a is FALSE else eq(a, b)
            if op in ('Ne', 'BitXor'): return not_(self.binop(st, 'Eq', a, b, ty))
        bits = t.get('bits', 64)
        if t.get('signed'):
            if isint(a) and isint(b): pass
            else:
                if op == 'Eq': return eq(a, b)
                if op == 'Ne': return not_(eq(a, b))
                if bits == 128 and small(a) and small(b):       # sums and differences of 64-bit amounts are exact
                    o = op.replace('Unchecked', '').replace('WithOverflow', '')
                    e = {'Lt': lambda: lt(a, b), 'Gt': lambda: lt(b, a), 'Le': lambda: not_(lt(b, a)), 'Ge': lambda: not_(lt(a, b)), 'Add': lambda: add(a, b), 'Sub': lambda: sub(a, b)}.get(o)
                    if e:
                        NUMTERMS.update((a, b))
                        return Agg(0, (e(), FALSE)) if 'WithOverflow' in op else e()
                return T('bin', op, a, b)
        if op == 'Eq': return eq(a, b)
        if op == 'Ne': return not_(eq(a, b))
        if op == 'Lt': return lt(a, b)
        if op == 'Gt': return lt(b, a)
        if op == 'Le': return not_(lt(b, a))
        if op == 'Ge': return not_(lt(a, b))
        if op in ('Add', 'Sub', 'Mul', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked', 'AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
            o = op.replace('Unchecked', '').replace('WithOverflow', '')
            ex = self.arith(st, o, a, b, bits)
            if 'WithOverflow' in op:
                return Agg(0, (ex[0], FALSE if ex[1] else T('ovf', o, bits, a, b)))
            if not ex[1] and bits >= 32: st.notes += (('wrap', o, self.site()),)
            return ex[0]
        if op == 'Div':
            return div(a, b)
        if op == 'Rem':
            if isint(a) and isint(b) and b.a[0]: return I(a.a[0] % b.a[0])
            return T('rem', a, b)
        if isint(a) and isint(b):
            x, y = a.a[0], b.a[0]
            m = (1 << bits) - 1
            if op == 'BitAnd': return I(x & y)
            if op == 'BitOr': return I(x | y)
            if op == 'BitXor': return I(x ^ y)
            if op.startswith('Shl'): return I((x << (y % bits)) & m)
            if op.startswith('Shr'): return I(x >> (y % bits))
        if op.startswith('Shl') and isint(b):
            ex = self.arith(st, 'Mul', a, I(1 << b.a[0]), bits)
            return ex[0]
        if op.startswith('Shr') and isint(b): return div(a, I(1 << b.a[0]))
        return T('bin', op, a, b)
    def arith(self, st, o, a, b, bits=64):
        """(term, proven not to wrap)"""
        NUMTERMS.update((a, b))
        M = (1 << bits) - 1
        if o == 'Add': e = add(a, b)
        elif o == 'Sub': e = sub(a, b)
        else:
            if isint(a): e = scale(b, a.a[0])
            elif isint(b): e = scale(a, b.a[0])
            else: e = T('mul', *sorted((a, b)))
        if isint(e): return I(e.a[0] & M), 0 <= e.a[0] <= M
        if o == 'Sub': ok = st.ge(e)
        else: ok = st.ge(sub(I(M), e)) if e.op != 'mul' else False
        if not ok and o != 'Sub' and st.facts.get(T('fits', bits, e)): ok = True
        if ok: return e, True
        return T('wrap', o, bits, a, b), False
    def site(self):
        if not self.stack: return '?'
        return self.stack[-1]

    # ---------------------------------------------------------------- execution
    def call_value(self, st, fv, args):
        """call a function value (Fn or closure, or a reference to one); yields (state, value)"""
        while isinstance(fv, Ptr): fv_loc, fv = fv, self.read(st, fv)
        if isinstance(fv, Fn):
            return self.call_fn(st, self.p.fnrefs[fv.key], args)
        if isinstance(fv, Clo):
            t = self.p.types[fv.ty]
            fid = t.get('fnid', -1)
            if fid is None or fid < 0: return [(st, self.fresh('closure'))]
            g = self.p.fns[fid]
            st0 = self.p.types[g['locals'][1]]
            if st0['k'] == 'ref':
                if 'fv_loc' in locals(): selfv = fv_loc
                else:
                    c = (self.newcell(), 0); st.cells[c] = fv; selfv = Ptr(c, ())
            else: selfv = fv
            return self.exec_fn(st, g, [selfv] + list(args))
        return [(st, self.fresh('call'))]
    def call_fn(self, st, ref, args):
        """resolve a function reference: model, crate/inlined body, or opaque"""
        path = ref['path']
        self.stats['calls'] += 1
        r = self.m.call(st, ref, args)
        if r is not None:
            self.stats['models'].add(path)
            return r
        if 'ctor' in ref:
            t = self.p.types[ref['ctor'][0]]
            return [(st, pkof(args[0]) if ispubkey(t) else args[0] if t['path'] in TRANSPARENT else Agg(ref['ctor'][1], tuple(args)))]
        if 'id' in ref:
            g = self.p.fns[ref['id']]
            if '::{closure' in g['path'] and len(args) == 2 and path.startswith('std::ops::Fn') or (path.startswith('std::ops::Fn') and len(args) == 2):
                a = args[1].fs if isinstance(args[1], Agg) else ()
                return self.call_value(st, args[0], a)
            return self.exec_fn(st, g, args)
        if path.startswith('std::ops::Fn') and len(args) == 2:
            return self.call_value(st, args[0], args[1].fs if isinstance(args[1], Agg) else ())
        return self.m.opaque(st, ref, args)

    def exec_fn(self, st, f, args):
        """analyse a function body in the given state; returns [(state, return value)]"""
        if not self.stack:
            for _ in range(20):
                try: return self.exec_body(st.fork(), f, args)
                except Restart: self.stack.clear(); self.fr = None; self.m.loopv = {}; self.panics.clear()
            raise Limit('loop variables do not stabilise')
        return self.exec_body(st, f, args)
    def exec_body(self, st, f, args):
        if len(self.stack) > 60: raise Limit('recursion in %s' % f['path'])
        self.stats['fns'].add(f['id'])
        self.ncell += 1
        fr = self.ncell
        self.frf[fr] = f
        saved = getattr(self, 'fr', None)
        for i, a in enumerate(args): st.cells[(fr, i + 1)] = a
        if f['spread'] > 0 and len(args) == 2 and isinstance(args[1], Agg) and False: pass
        outs = []
        work = [(st, 0, {})]
        self.stack.append(f['path'])
        try:
            while work:
                s, bb, visits = work.pop()
                self.fr = fr
                self.step_block(f, s, bb, visits, work, outs)
        finally:
            self.stack.pop()
            self.fr = saved
        res = []
        nl = len(f['locals'])
        for s, v in outs:
            for i in range(nl): s.cells.pop((fr, i), None)
            res.append((s, v))
        res = self.merge(res)
        self.stats['outcomes'] += len(res)
        return self.m.after_fn(f, res)
    def step_block(self, f, s, bb, visits, work, outs):
        fr = self.fr
        while True:
            self.steps += 1
            if self.steps > 3000000: raise Limit('step limit')
            loops = self.loops(f)
            if loops:
                visits = dict(visits)
                prev = visits.get('p', -1); visits['p'] = bb
                if prev >= 0: self.leave_loops(f, s, prev, bb, visits, loops)
                if bb in loops:
                    r = self.loop_head(f, s, bb, prev in loops[bb], visits, work)
                    if r is None: return
                    s, visits = r
            self.stats['blocks'].add((f['id'], bb))
            stm, t = f['blocks'][bb]
            for x in stm:
                if x[0] == '=':
                    pl = x[1]
                    v = self.rvalue(s, f, x[2], self.ptype(f, pl))
                    if pl[1]:
                        loc, _ = self.resolve(s, (fr, pl[0]), pl[1], f['locals'][pl[0]])
                        self.write(s, loc, v)
                    else: s.cells[(fr, pl[0])] = v
                elif x[0] == 'sd':
                    loc, ty = self.resolve(s, (fr, x[1][0]), x[1][1], f['locals'][x[1][0]])
                    old = self.read(s, loc)
                    self.write(s, loc, Agg(x[2], old.fs if isinstance(old, Agg) else ()))
            k = t[0]
            if k == 'goto': bb = t[1]; continue
            if k == 'drop': bb = t[2]; continue
            if k == 'return':
                outs.append((s, s.cells.get((fr, 0)))); return
            if k == 'unreachable' or k == '?': return
            if k == 'assert':
                c = self.operand(s, f, t[1])
                if isinstance(c, Term):
                    self.panic(s, c, not t[2], (f['id'], bb))
                    if not s.fact(c, bool(t[2])): return
                bb = t[4 - 0] if False else t[4]; continue
            if k == 'switch':
                c = self.operand(s, f, t[1])
                succ = self.switch(s, c, t[2], t[3], self.optype(f, t[1]))
                if loops: succ = self.loop_switch(f, bb, c, succ, t, visits, loops, work)
                if not succ: return
                for s2, b2 in succ[1:]: work.append((s2, b2, visits))
                s, bb = succ[0]
                continue
            if k == 'call':
                fv = self.operand(s, f, t[1])
                args = [self.operand(s, f, a) for a in t[2]]
                self.m.argtys = [self.optype(f, a) for a in t[2]]
                self.site_ = (f['id'], bb)
                try:
                    if isinstance(fv, Fn): rs = self.call_fn(s, self.p.fnrefs[fv.key], args)
                    else: rs = self.call_value(s, fv, args)
                except Diverge:
                    self.panic(s, TRUE, True, self.site_)
                    return
                self.fr = fr
                if t[4] < 0:
                    for s2, _ in rs: self.panic(s2, TRUE, True, (f['id'], bb))
                    return
                first = True
                nxt = None
                if loops and len(rs) > 1: visits['f'] = {h for h, body in loops.items() if bb in body} | visits.get('f', set())
                for s2, v in rs:
                    self.fr = fr
                    loc, _ = self.resolve(s2, (fr, t[3][0]), t[3][1], f['locals'][t[3][0]])
                    self.write(s2, loc, v)
                    if first: nxt = s2; first = False
                    else: work.append((s2, t[4], visits))
                if nxt is None: return
                s, bb = nxt, t[4]
                continue
            raise Limit('terminator %s' % k)
    def panic(self, s, c, v, site):
        """the program aborts where c is v"""
        d = s.decide(c)
        if d is not None and d != v: return
        e = s.fork()
        if d is None and not e.fact(c, v): return
        self.panics.append((e, site))
    # ---------------------------------------------------------------- loops of unknown length
    def loops(self, f):
        """natural loops of a body: {head: blocks}"""
        r = self.nloops.get(f['id'])
        if r is None: r = self.nloops[f['id']] = natural_loops(f)
        return r
    def changed(self, a, b):
        """cells (existing in both states) whose content differs"""
        r = set()
        for c, w in b.items():
            if c[0] == 'idxn': continue
            if c in a: o = a[c]
            elif isinstance(c[0], str): o = self.init_cell(c)
            else: continue
            if o is not w and o != w: r.add(c)
        return r
    def loop_head(self, f, s, bb, back, visits, work):
        """arrival at a loop head. Loops whose exit test is decided in each iteration are unrolled; counted loops of unknown
        length are summarised from one generic iteration; all others are widened (whatever an iteration changes becomes unknown)."""
        if not back:
            visits[('s', bb)] = s.fork(); visits[('x', bb)] = (0, 0); visits[bb] = 1
            for k in 'gwo': visits.pop((k, bb), None)
            return s, visits
        visits[bb] = visits.get(bb, 0) + 1
        visits['f'] = visits.get('f', set()) - {bb}
        fr = self.fr
        g, w, s1 = visits.get(('g', bb)), visits.get(('w', bb)), visits[('s', bb)]
        if g is not None and g[3] is not None:
            snap, ix, cnt, n = g
            outs = self.m.loop_end(s, snap, lambda it: self.m.seqof(s, it, ix, n), ix, n, set(cnt), (f['id'], bb))
            v2 = {k: v for k, v in visits.items() if k not in (('g', bb),)}
            v2['p'] = -1
            res = []
            for o in outs:
                for c, x in cnt.items(): o.cells[c] = add(x, n)
                res.append(o)
            for o in res[1:]: work.append((o, bb, dict(v2)))
            if not res: return None
            v2['p'] = bb; v2[('s', bb)] = res[0].fork(); v2[('x', bb)] = (0, 0); v2[bb] = 1
            return res[0], v2
        if w is not None:
            sw, ws = w
            d = self.changed(sw.cells, s.cells) - ws
            if not d and (s.ev == sw.ev or sw.ev[-1:] == (('loop-effects',),)) and (s.ledger is sw.ledger or sw.ledger is not None and sw.ledger.op == 'loop'): return None
            return self.widen(f, s, sw, ws | d, bb, visits)
        if g is None:
            fx, dx = visits[('x', bb)]
            if not (fx and not dx) and visits[bb] <= self.max_visits:
                visits[('s', bb)] = s.fork(); visits[('x', bb)] = (0, 0)
                return s, visits
            k = (fr, bb, id(s1))
            if k in self.m.tried: return None
            self.m.tried[k] = s1
            cnt = {}
            for c in self.changed(s1.cells, s.cells):
                if c[0] != fr: continue
                a, b = s1.cells[c], s.cells[c]
                if isinstance(a, Term) and isinstance(b, Term) and self.p.types[f['locals'][c[1]]]['k'] in ('uint', 'int') and sub(b, a) is ONE: cnt[c] = a
            if cnt and visits[bb] <= self.max_visits:
                z = s1.fork()
                snap, ix = self.m.loop_begin(z, (f['id'], bb))
                for c, x in cnt.items(): z.cells[c] = add(x, ix)
                visits[('g', bb)] = (snap, ix, cnt, None); visits[('x', bb)] = (0, 0)
                return z, visits
        return self.widen(f, s, s1, self.changed(s1.cells, s.cells), bb, visits)
    def widen(self, f, s, s1, ws, bb, visits):
        done = self.m.tried.setdefault((self.fr, bb, 'w', visits.setdefault(('o', bb), id(visits[('s', bb)]))), [visits[('s', bb)]])
        z = s1.fork()
        for c in ws: z.cells[c] = self.fresh('loop')
        if s.ev != s1.ev and z.ev[-1:] != (('loop-effects',),): z.ev += (('loop-effects',),)
        if s.ledger is not s1.ledger and not (z.ledger is not None and z.ledger.op == 'loop'): z.ledger = T('loop', z.ledger)
        z.fails = s.fails
        if any(ws <= x and (z.ev, z.ledger, z.fails) == e for x, e in done[1:]): return None
        done.append((frozenset(ws), (z.ev, z.ledger, z.fails)))
        visits.pop(('g', bb), None)
        visits[('w', bb)] = (z.fork(), frozenset(ws))
        return z, visits
    def loop_switch(self, f, bb, c, succ, t, visits, loops, work):
        """bookkeeping at a branch inside a loop: was an exit test decided; and the trip count of a counted loop"""
        for h, body in loops.items():
            if bb not in body: continue
            outs = {b for b in [b for _, b in t[2]] + [t[3]] if b not in body and f['blocks'][b][1][0] != 'unreachable'}
            if outs and ('x', h) in visits:
                fx, dx = visits[('x', h)]
                und = len(succ) > 1 or visits[h] > 6 and h in visits.get('f', ())    # decided by splitting, in a long loop
                visits[('x', h)] = (fx + 1, dx) if und else (fx, dx + 1)
            g = visits.get(('g', h))
            if g is None or g[3] is not None or len(succ) != 2 or not isinstance(c, Term): continue
            inn = [x for x in succ if x[1] in body]
            if len(inn) != 1: continue
            snap, ix, cnt, _ = g
            st, b = inn[0]
            # truth of c on the branch that stays in the loop
            vals = [b2 for v, b2 in t[2] if int(v) == 0]
            stay = b not in vals
            n = bound(c, stay, ix)
            if n is None: continue
            z = visits[('s', h)].fork()
            if z.fact(eq(n, ZERO) if all(x is ZERO for x in cnt.values()) else not_(lt(ZERO, n)), True):
                v2 = {k: v for k, v in visits.items() if k != ('g', h)}
                v2['p'] = -1
                work.append((z, h, v2))
            visits[('g', h)] = (snap, ix, cnt, n)
            return [(st, b)] if st.fact(lt(ix, n), True) else []
        return succ
    def leave_loops(self, f, s, prev, bb, visits, loops):
        """an edge out of a loop in the middle of a generic iteration: forget what earlier iterations may have changed"""
        for h, body in loops.items():
            if prev not in body or bb in body: continue
            if visits.pop(('g', h), None) is not None: self.m.loop_break(s, (f['id'], h))
            for c, v in list(s.cells.items()):
                if c[0] == self.fr and isinstance(v, Iter) and v.k == 'gen' and v.a[0][5][0] == f['id'] and v.a[0][5][1] in body: self.m.loop_break(s, v.a[0][5])
    def switch(self, s, c, targets, other, ty):
        vals = [(int(v), b) for v, b in targets]
        if isint(c):
            n = c.a[0]
            if n < 0 and ty is not None: n &= (1 << self.p.types[ty].get('bits', 64)) - 1
            for v, b in vals:
                if v == n: return [(s, b)]
            return [(s, other)]
        if not isinstance(c, Term):
            c = self.fresh('switch')
        out = []
        tk = self.p.types[ty]['k'] if ty is not None and ty >= 0 else '?'
        if c.op == 'discr':
            names = dict(c.a[1]); subj = c.a[0]
            atoms = [(T('is', subj, names.get(v, '#%d' % v)), b) for v, b in vals]
        elif c.op == 'ord':         # three-way comparison of two integers
            a, b_ = c.a
            m = {-1: lt(a, b_), 0: eq(a, b_), 1: lt(b_, a)}
            full = {255: -1, -1: -1, 0: 0, 1: 1, (1 << 64) - 1: -1, (1 << 32) - 1: -1, (1 << 128) - 1: -1}
            atoms = [(m[full[v]], b) for v, b in vals if v in full]
        elif tk == 'bool':
            atoms = [(c if v else not_(c), b) for v, b in vals]
        elif c.op == 'ofbool':
            atoms = [(c.a[0] if v else not_(c.a[0]), b) for v, b in vals]
        else:
            NUMTERMS.add(c)
            atoms = [(eq(c, I(v)), b) for v, b in vals]
        rest = [s]
        for i, (a, b) in enumerate(atoms):
            left = []
            for r in rest:
                d = r.decide(a)
                if d is True: out.append((r, b)); continue
                if d is False: left.append(r); continue
                out += [(y, b) for y in r.fork().split(a, True)]
                left += (r.fork() if i == 0 else r).split(a, False)
            rest = left
        return out + [(r, other) for r in rest]
    # ---------------------------------------------------------------- joins
    def merge(self, outs):
        if len(outs) < 2: return outs
        groups = {}
        for s, v in outs: groups.setdefault((v, s.ev, s.ledger, s.fails), []).append(s)
        res = []
        for (v, ev, led, fl), ss in groups.items():
            changed = True
            while changed and len(ss) > 1:
                changed = False
                for i in range(len(ss)):
                    for j in range(i + 1, len(ss)):
                        a, b = ss[i], ss[j]
                        if len(a.facts) != len(b.facts) : 
                            small, big = (a, b) if len(a.facts) < len(b.facts) else (b, a)
                            if a.cells == b.cells and all(big.facts.get(k) == w for k, w in small.facts.items()):
                                ss.remove(big); small.notes = tuple(sorted(set(small.notes) | set(big.notes))); changed = True; break
                            continue
                        diff = [k for k, w in a.facts.items() if b.facts.get(k) != w]
                        if len(diff) > 1 or (diff and diff[0] not in b.facts): continue
                        if a.cells != b.cells: continue
                        if diff: del a.facts[diff[0]]; a.nfacts = None
                        a.notes = tuple(sorted(set(a.notes) | set(b.notes)))
                        del ss[j]; changed = True; break
                    if changed: break
            res += [(s, v) for s in ss]
        return res
