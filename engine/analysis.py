"""Runs the interpreter over the program's entry point and prepares the successful exits for the rules."""
from lib import *

DLP_ID = 'DELeGGvXpWV2fqJUhqcF5ZSYMS4JTLjteaAMARRSaeSh'
LOADER_ID = 'BPFLoaderUpgradeab1e11111111111111111111111'
DLP = T('pk', b58(DLP_ID)); NAMES[DLP.a[0]] = 'dlp'
LOADER = T('pk', b58(LOADER_ID)); NAMES[LOADER.a[0]] = 'loader_upgradeable'
CLOSED = lit(b'')
RENTS = (T('rent', 'default'), T('rent', 'sysvar'))

# the published interface: instruction -> (first tag byte, account roles in order)
IX = {
    'delegate': (0, 'payer delegated owner_program buffer record metadata system'),
    'commit_state': (1, 'validator delegated commit_state commit_record record metadata v_vault config system'),
    'finalize': (2, 'validator delegated commit_state commit_record record metadata v_vault system'),
    'undelegate': (3, 'validator delegated owner_program buffer commit_state commit_record record metadata rent_payer fees_vault v_vault system'),
    'init_protocol_fees_vault': (5, 'payer fees_vault system'),
    'init_validator_fees_vault': (6, 'payer admin program_data identity v_vault system'),
    'validator_claim_fees': (7, 'validator fees_vault v_vault'),
    'whitelist_validator_for_program': (8, 'authority identity program program_data dlp_program_data config system'),
    'top_up_ephemeral_balance': (9, 'payer pubkey balance system'),
    'delegate_ephemeral_balance': (10, 'payer pubkey balance buffer record metadata system dlp'),
    'close_ephemeral_balance': (11, 'payer balance system'),
    'protocol_claim_fees': (12, 'admin fees_vault program_data'),
    'commit_state_from_buffer': (13, 'validator delegated commit_state commit_record record metadata state_buffer v_vault config system'),
    'close_validator_fees_vault': (14, 'payer admin program_data identity v_vault'),
}
TAGS = {'DelegationRecord': 100, 'CommitRecord': 101, 'DelegationMetadata': 102, 'ProgramConfig': 103}

class Missing(Exception):
    """the code no longer has a construct that a rule is anchored to"""

class Canon:
    """rewrites parsed account content to ('st', type, account) and parsed arguments to ('args', type)"""
    def __init__(self, models): self.memo = {}; self.m = models
    def __call__(self, t):
        if isinstance(t, Agg):
            fs = tuple(self(x) for x in t.fs)
            if t.v == 0 and fs and all(isinstance(x, Term) and x.op == 'fld' and len(x.a) == 2 for x in fs):
                b = fs[0].a[0]
                if all(x.a[0] is b for x in fs) and tuple(x.a[1] for x in fs) in self.m.etas: return b
            return Agg(t.v, fs)
        if isinstance(t, Arr): return Arr(tuple(self(x) for x in t.xs))
        if not isinstance(t, Term): return t
        if t in self.memo: return self.memo[t]
        u = t
        if t.op == 'lin':
            u = I(t.a[0])
            for x, c in t.a[1]: u = add(u, scale(self(x), c))
        elif t.op == 'podv' and self.state(t.a[1]) is not None: u = T('st', short(t.a[0]), self.state(t.a[1]))
        elif t.op in ('dec', 'decp') and self.state(t.a[1]) is not None: u = T('st', t.a[0], self.state(t.a[1]))
        elif t.op in ('dec', 'decp') and t.a[1].op == 'rest': u = T('args', t.a[0])
        elif t.a and t.op not in ('int', 'lit', 'pk', 'key', 'lam0', 'data0', 'owner0'):
            na = tuple(self(x) if isinstance(x, (Term, Agg, Arr)) else tuple(self(y) if isinstance(y, Term) else y for y in x) if isinstance(x, tuple) else x for x in t.a)
            if na != t.a: u = self.m.rebuild(t, na)
        if t in WIDTH: WIDTH[u] = WIDTH[t]
        if t in NUMTERMS: NUMTERMS.add(u)
        if t in ENCLEN: ENCLEN[u] = self(ENCLEN[t])
        if t in DISCR: DISCR[u] = DISCR[t]
        self.memo[t] = u
        return u
    def state(self, b):
        """account whose content after the 8-byte tag is b"""
        if b.op == 'sub' and b.a[0].op == 'data0' and b.a[1] is I(8): return b.a[0].a[0]
        return None

class X:
    """one successful exit: entailment queries modulo its facts"""
    def __init__(self, an, ix, st, no, alias=None):
        self.an, self.ix, self.no, self.raw, self.alias = an, ix, no, st, alias
        c = an.canon
        self.st = State()
        self.st.facts = {}
        self.bad = False
        self._lens = None
        for f, v in st.facts.items():
            g = c(f)
            self.addfact(g, v)
        self.st.nfacts = None
        self.normalize()
        self.ev = tuple(self.canon_ev(e) for e in st.ev)
        self.fails, self.notes, self.ledger = st.fails, st.notes, c(st.ledger)
        self.cells = {k: c(an.m.freeze(st, v)) for k, v in st.cells.items() if isinstance(k[0], str) and k[0] in ('lam', 'data', 'owner')}
    def addfact(self, g, v):
        if isint(g):
            if bool(g.a[0]) != v: self.bad = True
            return
        if g.op == 'not': return self.addfact(g.a[0], not v)
        self.st.facts[g] = v
        if g.op == 'eq' and v:
            for e, k in (g.a, g.a[::-1]):
                if isinstance(e, Term) and e.op == 'any': self.addfact(self.an.m.member(self.an.m.unseq(e.a[0]), k), True)
    def normalize(self):
        """add the facts rewritten under the equalities"""
        self.st.nfacts = None
        # comparisons of whole-range slices are comparisons of the wholes
        for f, v in list(self.st.facts.items()):
            if f.op == 'eq' and any(isinstance(q, Term) and q.op == 'sub' for q in f.a):
                a = [self.whole(q) for q in f.a]
                if a[0] is not f.a[0] or a[1] is not f.a[1]: self.addfact(eq(*a), v)
        self.st.nfacts = None
        m = self.an.m
        rw = m.rewrites(self.st); memo = {}
        if any(k.op in ('pk', 'lit') and v.op == k.op for k, v in rw.items()): self.bad = True      # two different constants would be equal
        for f, v in list(self.st.facts.items()):
            if f.op == 'eq' and v and not (isnum(f.a[0]) or isnum(f.a[1])): continue
            g = m.rw(f, rw, memo, self.st)
            if g is not f: self.addfact(g, v)
        self.st.nfacts = None
    def whole(self, q):
        return q.a[0] if isinstance(q, Term) and q.op == 'sub' and self.num_eq(q.a[1], ZERO) and self.num_eq(q.a[2], blen(q.a[0])) else q
    def canon_ev(self, e):
        c = self.an.canon
        def go(x):
            if isinstance(x, (Agg, Arr, Term)): return c(x)
            if isinstance(x, tuple): return tuple(go(y) for y in x)
            return x
        return go(e)
    # ---- queries
    def role(self, r):
        if self.alias and r == self.alias[1]: r = self.alias[0]
        return self.an.roles[self.ix].index(r) if isinstance(r, str) else r
    def key(self, r): return T('key', self.role(r))
    def lam0(self, r): return T('lam0', self.role(r))
    def data0(self, r): return T('data0', self.role(r))
    def owner0(self, r): return T('owner0', self.role(r))
    def lam(self, r): return self.cells.get(('lam', self.role(r)), self.lam0(r))
    def data(self, r): return self.cells.get(('data', self.role(r)), self.data0(r))
    def owner(self, r): return self.cells.get(('owner', self.role(r)), self.owner0(r))
    def state(self, ty, r): return T('st', ty, self.role(r))
    def fld(self, ty, r, f): 
        t = T('fld', self.state(ty, r), f)
        return t
    def n(self, t): return self.an.m.norm(self.st, t)
    @property
    def lens(self):
        if self._lens is None:
            self._lens = set(); [walk(f, lambda t: self._lens.add(t) if t.op == 'len' else None) for f in self.st.facts]
        return self._lens
    def simp(self, t):
        """normal form: rewrite by the equalities, drop provably empty parts"""
        t = self.n(t)
        if isinstance(t, Term) and t.op in ('or', 'and'):
            # operands the path decides
            unit, zero = (FALSE, TRUE) if t.op == 'or' else (TRUE, FALSE)
            xs = [TRUE if self.has(x) is True else FALSE if self.has(x) is False else self.simp(x) for x in t.a]
            if zero in xs: return zero
            xs = [x for x in xs if x is not unit]
            return xs[0] if len(xs) == 1 else unit if not xs else T(t.op, *xs)
        if isinstance(t, Agg): return Agg(t.v, tuple(self.simp(x) for x in t.fs))
        if isinstance(t, Arr): return Arr(tuple(self.simp(x) for x in t.xs))
        if isinstance(t, Term) and t.op == 'cat':
            return cat(*[self.simp(p) for p in t.a if not self.empty(p)])
        if isinstance(t, Term) and t.op in ('enc', 'pod', 'byte', 'le', 'pkb'):
            return self.an.m.rebuild(t, tuple(self.simp(x) if isinstance(x, (Term, Agg, Arr)) else x for x in t.a))
        if self.empty(t): return CLOSED
        if isinstance(t, Term) and t.op == 'sub' and self.num_eq(t.a[1], ZERO) and self.num_eq(t.a[2], blen(t.a[0])): return self.simp(t.a[0])
        if isinstance(t, Term) and t.op == 'pda':
            s = self.simp(t.a[0])
            if s is not t.a[0]: return T('pda', s, t.a[1])
        return t
    def empty(self, t):
        if isinstance(t, Term) and t.op == 'flat' and isinstance(t.a[0], Term) and t.a[0].op == 'rep': return self.num_eq(t.a[0].a[1], ZERO)
        if isinstance(t, Term) and t.op == 'flat': return isinstance(t.a[0], Term) and T('len', t.a[0]) in self.lens and self.num_eq(T('len', t.a[0]), ZERO)
        if isinstance(t, Term) and t.op == 'fld': return T('len', t) in self.lens and self.num_eq(T('len', t), ZERO)
        if not isinstance(t, Term) or t.op not in ('sub', 'zero', 'resize', 'data0', 'lit', 'datax'): return False
        l = blen(t)
        return self.num_eq(l, ZERO)
    def num_eq(self, a, b):
        if a is b: return True
        d = self.n(sub(a, b))
        if isint(d): return d.a[0] == 0
        return self.st.ge(d) and self.st.ge(sub(ZERO, d))
    def ge(self, a, b): return self.st.ge(self.n(sub(a, b)))
    def lt(self, a, b): return self.st.ge(self.n(sub(sub(b, a), ONE)))
    def same(self, a, b):
        if a is b or a == b: return True
        a, b = self.simp(a), self.simp(b)
        if a is b or a == b: return True
        return self.same2(a, b)
    def same2(self, a, b):
        if a is b or a == b: return True
        if isinstance(a, Agg) and isinstance(b, Agg): return a.v == b.v and len(a.fs) == len(b.fs) and all(self.same2(x, y) for x, y in zip(a.fs, b.fs))
        if isinstance(a, Arr) and isinstance(b, Arr): return len(a.xs) == len(b.xs) and all(self.same2(x, y) for x, y in zip(a.xs, b.xs))
        if isinstance(a, Agg) and isinstance(b, Term): a, b = b, a
        if isinstance(a, Term) and isinstance(b, Agg):
            # eta: a is the struct whose fields b lists
            e = self.an.expand(a)
            return e is not None and self.same2(e, b)
        if not isinstance(a, Term) or not isinstance(b, Term): return False
        if self.has(a) is True and b is TRUE or self.has(b) is True and a is TRUE: return True
        if (a is FALSE and self.has(b) is False) or (b is FALSE and self.has(a) is False): return True
        if a.op == 'fld' and b.op == 'fld' and a in self.st.facts and self.st.facts[a] is self.st.facts.get(b): return True
        NUM = NUMOPS | {'fld', 'sysvar'}
        if (a.op in NUM or a in NUMTERMS) and (b.op in NUM or b in NUMTERMS) and self.num_eq(a, b): return True
        if a.op == 'cat' and b.op in ('data0', 'st', 'fld'): return self.covers(a, b)
        if b.op == 'cat' and a.op in ('data0', 'st', 'fld'): return self.covers(b, a)
        if a.op != b.op or len(a.a) != len(b.a): 
            return False
        if a.op in ('enc', 'pod') and a.a[0] == b.a[0] and isinstance(a.a[1], Term) != isinstance(b.a[1], Term):
            ty = short(a.a[0])
            e, o = (a.a[1], b.a[1]) if isinstance(a.a[1], Term) else (b.a[1], a.a[1])
            e = self.an.expand(e, ty)
            return e is not None and self.same2(e, o)
        if not a.a: return False
        if a.op in ('int', 'lit', 'pk', 'lin', 'key', 'lam0', 'data0', 'owner0', 'str', 'err', 'opq'): return False
        return all((self.same2(x, y) if isinstance(x, (Term, Agg, Arr)) and isinstance(y, (Term, Agg, Arr)) else x == y) for x, y in zip(a.a, b.a))
    def covers(self, c, base):
        """the parts of c are, in order, all the parts of base"""
        o = ZERO
        for p in c.a:
            n = add(o, blen(p)); q = bsub(base, o, n)
            if p is not q and self.st.decide(eq(p, q)) is not True and not self.same2(self.n(q), p): return False
            o = n
        return self.num_eq(o, blen(base))
    def has(self, t):
        """True / False when the facts decide t, else None"""
        if isint(t): return bool(t.a[0])
        v = self.st.decide(t)
        if v is not None: return v
        if t.op == 'not':
            v = self.has(t.a[0]); return None if v is None else not v
        if t.op == 'eq':
            a, b = t.a
            if self.same(a, b): return True
        u = self.n(t)
        if u is not t:
            v = self.st.decide(u)
            if v is not None: return v
        if t.op == 'eq':
            for f, v in self.st.facts.items():
                if v is False and f.op == 'eq':
                    if self.same(f.a[0], t.a[0]) and self.same(f.a[1], t.a[1]) or self.same(f.a[0], t.a[1]) and self.same(f.a[1], t.a[0]): return False
            a, b = self.n(t.a[0]), self.n(t.a[1])
            if isinstance(a, Term) and isinstance(b, Term) and a.op == b.op and a.op in ('pk', 'lit', 'int'): return a is b
        else:
            for f, v in self.st.facts.items():
                if f.op == t.op and f is not t and len(f.a) == len(t.a) and f.op in ('in', 'is', 'oncurve', 'fld', 'is_signer', 'is_writable', 'executable', 'any', 'all'):
                    if all((self.same(x, y) if isinstance(x, (Term, Agg, Arr)) else x == y) for x, y in zip(f.a, t.a)): return v
        return None
    def yes(self, t): return self.has(t) is True
    def no_(self, t): return self.has(t) is False
    def assume(self, t, v):
        """this exit restricted to t == v, or None if that is impossible"""
        h = self.has(t)
        if h is not None: return self if h == v else None
        y = X.__new__(X)
        y.__dict__.update(self.__dict__)
        y.st = self.st.fork()
        if not y.st.fact(t, v): return None
        y.normalize()
        return None if y.bad or y.absurd() else y
    def absurd(self):
        return False
    def cases(self, *ts):
        """split on the terms"""
        out = [self]
        for t in ts:
            nx = []
            for x in out:
                for v in (True, False):
                    y = x.assume(t, v)
                    if y is not None: nx.append(y)
            out = nx
        return out
    # ---- composite conditions
    def signed(self, r): return self.yes(T('is_signer', self.role(r)))
    def pda(self, *parts, prog=DLP):
        ps = []
        for p in parts:
            if isinstance(p, str) and p[:1] == '#': ps.append(lit(p[1:].encode()))
            elif isinstance(p, Term) and p.op in ('key', 'fld'): ps.append(pkb(p))
            else: ps.append(p)
        return T('pda', cat(*ps), prog)
    def at(self, r, *parts, prog=DLP): return self.same(self.key(r), self.pda(*parts, prog=prog))
    def owned(self, r):
        if self.same(self.owner0(r), DLP): return True
        # a whitelist exists as soon as its address is not the system program's: only this program can sign for the address (see E07)
        k = self.simp(self.key(r))
        return r == 'config' and isinstance(k, Term) and k.op == 'pda' and k.a[1] is DLP and self.no_(eq(self.owner0(r), SYS))
    def notowned(self, r): return self.no_(eq(self.owner0(r), DLP))
    def absent(self, r): return self.same(self.owner0(r), SYS) and self.num_eq(blen(self.data0(r)), ZERO)
    def closed(self, r, data_known=True):
        return self.num_eq(self.lam(r), ZERO) and self.same(self.data(r), CLOSED) and self.same(self.owner(r), SYS)
    def tagged(self, i, ty):
        return self.ge(blen(T('data0', i)), I(8)) and self.same(T('sub', T('data0', i), ZERO, I(8)), tag(ty))
    def assumes_empty(self):
        """a sequence among the decoded arguments is assumed to have no elements"""
        return any(v and f.op == 'eq' and ZERO in f.a and any(q.op == 'len' and contains(q, lambda t: t.op == 'dec' or t.op == 'args') for q in f.a if isinstance(q, Term)) for f, v in self.raw.facts.items())
    def changed(self):
        """accounts whose lamports, data or owner may differ at the exit: {index: set of aspects}"""
        r = {}
        for (k, i), v in self.cells.items():
            o = {'lam': T('lam0', i), 'data': T('data0', i), 'owner': T('owner0', i)}[k]
            if k == 'lam' and self.num_eq(v, o): continue
            if k != 'lam' and self.same(v, o): continue
            r.setdefault(i, set()).add(k)
        return r
    @property
    def noop(self):
        if not hasattr(self, '_noop') or self._noop[0] is not self.st: self._noop = (self.st, not self.ev and not self.changed())
        return self._noop[1]
    def struct(self, ty, **kw):
        i, names, tys = self.an.m.structs[ty] if ty in self.an.m.structs else (None, None, None)
        if names is None: raise Missing('type %s' % ty)
        if set(names) != set(kw): raise Missing('type %s has fields %s' % (ty, names))
        return Agg(0, tuple(kw[n] for n in names))
    def pod(self, ty, **kw):
        i = self.an.m.structs.get(ty)
        if i is None: raise Missing('type %s' % ty)
        return T('pod', self.an.p.types[i[0]]['s'], self.struct(ty, **kw))
    def enc(self, ty, **kw): return T('enc', ty, self.struct(ty, **kw))
    def cpis(self): return [Cpi(self, e) for e in self.ev if e[0] == 'cpi']
    def desc(self):
        fs = ['%s%s' % ('' if v else 'not ', show(f)) for f, v in self.raw.facts.items() if f.op not in ('lt',)]
        return fs

class Cpi:
    def __init__(self, x, e):
        _, self.prog, self.metas, self.data, self.idx, self.signers, self.snap, self.res = e
        self.x = x
    @property
    def sys(self): return self.data.a[0] if self.prog is SYS and isinstance(self.data, Term) and self.data.op == 'sysix' else None
    def args(self): return self.data.a[1:]

def tag(ty): return lit(bytes([TAGS[ty]] + [0] * 7))

class Analysis:
    def __init__(self, dump):
        self.p = Program(dump)
        self.m = Models(self.p, DLP)
        self.canon = Canon(self.m)
        self.roles = {k: v[1].split() for k, v in IX.items()}
        self._runs, self._exits = {}, {}
        self.stats = {'fns': set(), 'blocks': set(), 'calls': 0, 'outcomes': 0, 'models': set(), 'opaque': set(), 'steps': 0}
        e = [r for r in self.p.roots if r.split('::')[-1] == 'process_instruction']
        if len(e) != 1: raise Missing('process_instruction')
        self.entry = self.p.fns[self.p.roots[e[0]]]
    def root(self, suffix):
        c = [r for r in self.p.roots if r == suffix or r.endswith('::' + suffix)]
        if len(c) != 1: raise Missing('function %s (%d found)' % (suffix, len(c)))
        return self.p.fns[self.p.roots[c[0]]]
    def expand(self, t, ty=None):
        """struct value of a term of known type"""
        if ty is None: ty = t.a[0] if t.op in ('st', 'args', 'dec') else None
        q = self.m.structs.get(ty)
        return Agg(0, tuple(T('fld', t, n) for n in q[1])) if q else None
    def interp(self):
        return Interp(self.p, self.m)
    def note(self, ip):
        for k in ('fns', 'blocks', 'models', 'opaque'): self.stats[k] |= ip.stats[k]
        self.stats['calls'] += ip.stats['calls']; self.stats['outcomes'] += ip.stats['outcomes']; self.stats['steps'] += ip.steps
    def run(self, data, pid=DLP, alias=None):
        """all outcomes of the entry point for the given instruction data"""
        self.m.alias = alias or {}
        ip = self.interp()
        st = State()
        st.cells[('ixdata',)] = data
        st.cells[('pid',)] = pid
        try:
            outs = ip.exec_fn(st, self.entry, [Ptr(('pid',), ()), Ptr(('accounts',), ()), Ptr(('ixdata',), ())])
        finally:
            self.m.alias = {}
        self.note(ip)
        return ip, outs
    def ixrun(self, ix):
        if ix not in self._runs:
            k = IX[ix][0]
            ip, outs = self.run(cat(lit(bytes([k] + [0] * 7)), T('rest')))
            self._runs[ix] = (ip, outs)
        return self._runs[ix]
    def exits(self, ix, alias=None):
        """successful exits of an instruction; alias = (a, b): the same account is passed in both roles"""
        k = (ix, alias)
        if k not in self._exits:
            if alias:
                i, j = [self.roles[ix].index(r) for r in alias]
                ip, outs = self.run(cat(lit(bytes([IX[ix][0]] + [0] * 7)), T('rest')), alias={j: i})
            else: ip, outs = self.ixrun(ix)
            ok = [s for s, v in outs if not (isinstance(v, Agg) and v.v == 1)]
            xs = [X(self, ix, s, n, alias) for n, s in enumerate(ok)]
            xs = [x for x in xs if not x.bad]
            if not xs: raise Missing('no successful path through %s' % ix + (' with one account as %s and %s' % alias if alias else ''))
            self._exits[k] = xs
        return self._exits[k]
    def handler(self, ix):
        c = [f for f in self.p.fns.values() if f['local'] and f['path'].split('::')[-1] == 'process_' + ix]
        return c[0] if len(c) == 1 else self.entry
