"""Transfer functions for library calls (std, solana_program, borsh, bytemuck, bincode) and the initial symbolic accounts.

Every fallible library call yields both outcomes; the failing one is logged in State.fails so that a swallowed failure is visible
on a successful exit. Facts that the Solana runtime enforces on a successful cross-program call (signer and writable flags, balances,
ownership of debited accounts) become facts of the successful outcome."""
import re
from terms import *
import terms
from interp import *
import interp

NONE = Agg(0, ())
def SOME(v): return Agg(1, (v,))
def OK(v=UNIT): return Agg(0, (v,))
def ERR(v): return Agg(1, (v,))
LESS, EQUAL, GREATER = Agg(0, ()), Agg(1, ()), Agg(2, ())
SYS = T('pk', bytes(32))
MAXU = (1 << 64) - 1
DONE = object()

def short(s):
    s = re.sub(r"'[a-z_]+ ?,? ?", '', s.replace("'_", ''))
    return re.sub(r'(?:[A-Za-z_][A-Za-z0-9_]*::)+', '', s).replace('<>', '')

def b58(s):
    al = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
    n = 0
    for c in s: n = n * 58 + al.index(c)
    b = n.to_bytes(32, 'big') if n else bytes(32)
    return b

def isbool(v): return isinstance(v, Term) and (v is TRUE or v is FALSE or v.op in ('loop', 'lv') )

def model(*pats):
    def d(f):
        f.pats = pats
        return f
    return d

class Base:
    def __init__(self, prog, dlp=None):
        self.p = prog
        self.tab, self.tab_all, self.rx = {}, {}, []
        self.find_layout()
        self.dlp = dlp
        self.nacc = 16
        self.gen = 0
        self.loopk = {}             # flags set in loops: values
        self.loopv, self.loopmix, self.loopmod, self.loopbrk, self.tried = {}, set(), {}, set(), {}
        self.alias = {}
        self.argtys = None
        for n in dir(self):
            f = getattr(self, n)
            for pat in getattr(f, 'pats', ()):
                if pat.startswith('!'): self.tab_all[pat[1:]] = f
                elif pat.startswith('~'): self.rx.append((re.compile(pat[1:]), f))
                else: self.tab[pat] = f
    def find_layout(self):
        self.structs, self.etas = {}, {}
        for i, t in enumerate(self.p.types):
            if t and t['k'] == 'adt' and t.get('kind') == 'struct':
                fs = t['variants'][0]['fields']
                self.structs.setdefault(short(t['s']), (i, tuple(f[0] for f in fs), tuple(f[1] for f in fs)))
                if fs: self.etas[tuple(f[0] for f in fs)] = i
        self.ai = self.structs['AccountInfo'][1]
        self.ixf = self.structs['Instruction'][1] if 'Instruction' in self.structs else ('program_id', 'accounts', 'data')
        self.amf = self.structs['AccountMeta'][1] if 'AccountMeta' in self.structs else ('pubkey', 'is_signer', 'is_writable')
    # ------------------------------------------------------------ symbolic accounts
    def account(self, i):
        i = self.alias.get(i, i)
        v = {'key': Ptr(('key', i), ()), 'lamports': Ptr(('lamcell', i), ()), 'data': Ptr(('datacell', i), ()), 'owner': Ptr(('owner', i), ()),
             'is_signer': T('is_signer', i), 'is_writable': T('is_writable', i), 'executable': T('executable', i), 'rent_epoch': T('rent_epoch', i)}
        return Agg(0, tuple(v.get(n, T(n, i)) for n in self.ai))
    def init_cell(self, c):
        k = c[0]
        if k == 'key': return T('key', c[1])
        if k == 'lamcell': return Ptr(('lam', c[1]), ())
        if k == 'lam': return T('lam0', c[1])
        if k == 'datacell': return Ptr(('data', c[1]), ())
        if k == 'data': return T('data0', c[1])
        if k == 'owner': return T('owner0', c[1])
        if k == 'accounts': return T('accounts')
        return None
    def acct(self, st, v):
        """index of the account an AccountInfo value (or reference to one) stands for"""
        n = 0
        while isinstance(v, Ptr) and n < 8: v = self.ip.read(st, v); n += 1
        if isinstance(v, Agg) and len(v.fs) == len(self.ai):
            for x in v.fs:
                if isinstance(x, Ptr) and x.cell[0] == 'key': return x.cell[1]
        return None
    def field(self, t, *names):
        if t.op == 'fld2': pass
        return T('fld', t, *names)
    def elem(self, v, i):
        if v.op == 'accounts' and isint(i): return self.account(i.a[0])
        if v.op == 'sub' and isinstance(v.a[0], Term) and v.a[0].op == 'accounts':
            return self.elem(v.a[0], add(v.a[1], i))
        if v.op == 'rep': return v.a[0]
        if v.op == 'seqmap' : return self.subst(v.a[1], v.a[2], at(v.a[0], i)) if False else T('at', v, i)
        return at(v, i)
    def width(self, t, bits): terms.WIDTH[t] = min(bits, terms.WIDTH.get(t, 999))
    # ------------------------------------------------------------ values
    def strip(self, st, v):
        n = 0
        while n < 10:
            if isinstance(v, Ptr): v = self.ip.read(st, v)
            elif isinstance(v, Agg) and len(v.fs) == 1 and isinstance(v.fs[0], Ptr) and v.v == 0 and v.fs[0].cell[0] in ('lamcell', 'datacell', 'lam', 'data'): v = v.fs[0]
            else: return v
            n += 1
        return v
    def freeze(self, st, v, d=0):
        if d > 12: return T('deep')
        if isinstance(v, Ptr): return self.freeze(st, self.ip.read(st, v), d + 1)
        if isinstance(v, Agg):
            fs = tuple(self.freeze(st, x, d + 1) for x in v.fs)
            if v.v == 0 and fs and all(isinstance(x, Term) and x.op == 'fld' and len(x.a) == 2 for x in fs):
                b = fs[0].a[0]
                if all(x.a[0] is b for x in fs) and tuple(x.a[1] for x in fs) in self.etas: return b
            return Agg(v.v, fs)
        if isinstance(v, Arr): return Arr(tuple(self.freeze(st, x, d + 1) for x in v.xs))
        if isinstance(v, Clo): return T('clo')
        if isinstance(v, Iter): return T('iter')
        if v is None: return T('uninit')
        return v
    def bytesval(self, st, v): return tobytes(self.freeze(st, self.strip(st, v)))
    def flat(self, v):
        """concatenation of a (frozen) sequence of byte strings"""
        if isinstance(v, Arr): return cat(*[tobytes(x) for x in v.xs])
        if isinstance(v, Term):
            if v.op == 'catseq': return cat(*[self.flat(x) for x in v.a])
            if v.op == 'lit' and not v.a[0]: return v
            return T('flat', v)
        return T('flat', v)
    def valeq(self, st, a, b):
        if isinstance(a, Ptr): a = self.strip(st, a)
        if isinstance(b, Ptr): b = self.strip(st, b)
        if a is b: return TRUE
        if isinstance(a, Agg) and isinstance(b, Agg):
            if a.v != b.v: return FALSE
            r = TRUE
            for x, y in zip(a.fs, b.fs):
                e = self.valeq(st, x, y)
                if e is FALSE: return FALSE
                if e is not TRUE: r = e if r is TRUE else T('and', r, e)
            return r
        if isinstance(a, Arr) and isinstance(b, Arr):
            if len(a.xs) != len(b.xs): return FALSE
            if all(isinstance(x, Term) and not isint(x) for x in a.xs) or not all(isinstance(x, Term) for x in a.xs + b.xs):
                r = TRUE
                for x, y in zip(a.xs, b.xs):
                    e = self.valeq(st, x, y)
                    if e is FALSE: return FALSE
                    if e is not TRUE: r = e if r is TRUE else T('and', r, e)
                return r
        if isinstance(a, Arr) or isinstance(b, Arr):
            a, b = self.freeze(st, a), self.freeze(st, b)
            la, lb = blen(a), blen(b)
            if isint(la) and isint(lb) and la is not lb: return FALSE
            a, b = tobytes(a), tobytes(b)
            if isint(lb) and lb.a[0] == 0: return eq(la, ZERO)
            if isint(la) and la.a[0] == 0: return eq(lb, ZERO)
            return self.byteseq(a, b)
        if isinstance(a, Agg) and isinstance(b, Term): a, b = b, a
        if isinstance(b, Agg) and isinstance(a, Term):
            names = DISCR.get(a)
            if names is None: names = {0: ('None', 'Some')}.get(0)
            if b.v < len(names):
                r = T('is', a, names[b.v])
                d = DISCR.setdefault(a, names)
                for j, y in enumerate(b.fs):
                    e = self.valeq(st, self.field(a, names[b.v], str(j)), y)
                    r = T('and', r, e) if e is not TRUE else r
                return r
        a, b = self.freeze(st, a), self.freeze(st, b)
        if isinstance(a, Term) and isinstance(b, Term): return self.byteseq(a, b)
        return eq(a, b)
    def byteseq(self, a, b):
        BY = ('lit', 'cat', 'sub', 'pkb', 'le', 'zero', 'resize', 'pod', 'enc', 'byte')
        if a.op in ('lit', 'pkb', 'pk') or b.op in ('lit', 'pkb', 'pk'):
            if (a.op in ('pkb', 'lit') and b.op in ('pkb', 'lit')) and blen(a) is blen(b) and isint(blen(a)) and blen(a).a[0] == 32: return eq(pkof(a), pkof(b))
            if a.op == 'le' and b.op == 'lit' and len(b.a[0]) == a.a[1]: return eq(a.a[0], I(int.from_bytes(b.a[0], 'little')))
            if b.op == 'le' and a.op == 'lit' and len(a.a[0]) == b.a[1]: return eq(b.a[0], I(int.from_bytes(a.a[0], 'little')))
        if a.op in BY and b.op in BY:
            la, lb = blen(a), blen(b)
            if isint(la) and isint(lb) and la is not lb: return FALSE
            if isint(la) and la is lb and la.a[0] == 1: return eq(at(a, ZERO), at(b, ZERO))
        return eq(a, b)
    def copy(self, st, v):
        """value of a Clone"""
        while isinstance(v, Ptr): 
            v = self.ip.read(st, v)
        return v
    def fail(self, st, what):
        st.fails += ((what, self.ip.site()),)
        return st
    def fork2(self, st, cond):
        """(state where cond holds or None, state where it does not or None)"""
        d = st.decide(cond)
        if d is True: return st, None
        if d is False: return None, st
        y, n = st.fork(), st
        return (y if y.fact(cond, True) else None), (n if n.fact(cond, False) else None)
    def need(self, st, cond, what='panic'):
        """continue only where cond holds (otherwise the program panics)"""
        self.ip.panic(st, cond, False, self.ip.site_)
        if not st.fact(cond, True): raise Diverge()
    def fallible(self, st, v, what):
        e = st.fork()
        return [(st, OK(v)), (self.fail(e, what), ERR(T('err', what)))]
    def targ(self, ref, i):
        return self.p.types[ref['targs'][i]] if i < len(ref['targs']) and ref['targs'][i] >= 0 else None
    def targs(self, ref, i):
        return ref['targs'][i] if i < len(ref['targs']) else -1
    def sfull(self, ref): return short(ref['full'])

    # ------------------------------------------------------------ dispatch
    def call(self, st, ref, args):
        p = ref['path']
        h = self.tab_all.get(p)
        if h is not None:
            r = h(st, ref, args)
            if r is not None: return r
        if 'id' in ref: return None
        h = self.tab.get(p)
        if h is not None:
            r = h(st, ref, args)
            if r is not None: return r
        for rx, h in self.rx:
            if rx.match(p):
                r = h(st, ref, args)
                if r is not None: return r
        return None
    def opaque(self, st, ref, args):
        self.ip.stats['opaque'].add(ref['full'])
        st.notes += (('unknown', ref['full'], self.ip.site()),)
        tys = self.argtys
        for i, a in enumerate(args):
            j = self.acct(st, a)
            if j is not None:
                st.ev += (('unknown', ref['full'], j),)
                continue
            if isinstance(a, Ptr) and a.cell[0] != 'const':
                t = self.p.types[tys[i]] if tys and i < len(tys) and tys[i] is not None and tys[i] >= 0 else None
                if t and t['k'] == 'ref' and not t.get('mut'): continue
                if t and t['k'] not in ('ref', 'ptr'): continue
                self.ip.write(st, a, self.ip.fresh('havoc'))
        return [(st, T('app', ref['full'], *[self.freeze(st, a) for a in args]))]
    def after_fn(self, f, outs):
        if f.get('local') and '{closure' not in f['path']:
            t = self.p.types[f['locals'][0]]
            if t and t['k'] == 'adt' and t['path'].endswith('result::Result'):
                for s, v in outs:
                    if isinstance(v, Agg) and v.v == 1:
                        e = ('check', f['path'])
                        if e not in s.fails: s.fails += (e,)
        return outs
