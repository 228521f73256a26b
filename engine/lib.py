"""Transfer functions of library calls, see models.py."""
from models import *

LONG = 256          # sequences up to this (constant) length are unrolled
def endless(it): return it.k == 'range' and it.a[1] is None or it.k in ('map', 'enum') and endless(it.a[0])
INTS = re.compile(r'core::num::<impl ([ui])(\d+|size)>::(\w+)$')

class Models(Base):
    # ------------------------------------------------------------ formatting, logging, conversions without effect
    @model('~std::fmt::.*', '~core::fmt::.*', '~solana_program::log::.*', '~alloc::fmt::.*', '!std::fmt::Debug::fmt', '!std::fmt::Display::fmt', '~solana_(program::)?(solana_)?(msg|log).*',
           'std::string::ToString::to_string', '~std::string::String::.*', '~std::string::<impl .*', '~std::io::Error::.*', '~num_enum::.*')
    def fmt(self, st, ref, args):
        if ref['path'].endswith('as_bytes') or ref['path'].endswith('len'): return None
        return [(st, T('fmt'))]
    @model('std::hint::must_use', 'std::boxed::box_assume_init_into_vec_unsafe', '~std::slice::<impl \\[T\\]>::into_vec', 'std::convert::identity', '~std::boxed::Box::<T>::new$', '~std::boxed::Box::<T>::pin', '~std::boxed::Box::<T>::assume_init.*', '~std::vec::Vec::<T, A>::into_boxed_slice', 'std::hint::black_box', 'std::borrow::Borrow::borrow', 'std::borrow::BorrowMut::borrow_mut', '~std::rc::Rc::<T>::new$', '~core::ptr::.*as_ptr')
    def ident(self, st, ref, args): return [(st, args[0])]
    @model('~std::boxed::Box::<T.*>::new_uninit')
    def boxnew(self, st, ref, args):
        return [(st, None)]
    @model('std::mem::drop', 'std::mem::forget', '~std::vec::Vec::<T, A>::(reserve|reserve_exact|shrink_to_fit)', '~core::hint::.*', '~solana_program::compute_units.*')
    def noop(self, st, ref, args): return [(st, UNIT)]
    @model('~.*panic.*', '~.*unwrap_failed.*', '~.*expect_failed.*', '~.*slice_index_fail.*', '~.*len_mismatch_fail.*', '~std::process::(abort|exit)', '~core::slice::.*_fail')
    def diverge(self, st, ref, args): raise Diverge()
    @model('std::mem::size_of', 'std::mem::size_of_val')
    def sizeof(self, st, ref, args):
        t = self.targ(ref, 0)
        if t and t.get('size') is not None: return [(st, I(t['size']))]
        if t and t['k'] == 'int': return [(st, I(t['bits'] // 8))]
        if t and t['k'] == 'bool': return [(st, ONE)]
        if t and t['k'] == 'array':
            e = self.sizeof_ty(ref['targs'][0])
            if e is not None: return [(st, I(e))]
        return [(st, T('app', ref['full']))]
    def sizeof_ty(self, ti):
        t = self.p.types[ti] if ti >= 0 else None
        if not t: return None
        if t.get('size') is not None: return t['size']
        if t['k'] == 'int': return t['bits'] // 8
        if t['k'] == 'bool': return 1
        if t['k'] == 'array':
            e = self.sizeof_ty(t['ty']); return None if e is None else e * t['len']
        return None
    @model('std::mem::replace', '~std::cell::(Ref)?Cell::<T>::replace')
    def mreplace(self, st, ref, args):
        old = self.ip.read(st, self.ip.deref(args[0])); self.ip.write(st, self.ip.deref(args[0]), args[1])
        return [(st, old)]
    @model('std::mem::take')
    def mtake(self, st, ref, args):
        l = self.ip.deref(args[0]); old = self.ip.read(st, l)
        self.ip.write(st, l, self.default_of(ref['targs'][0])); return [(st, old)]
    @model('std::mem::swap')
    def mswap(self, st, ref, args):
        a, b = self.ip.deref(args[0]), self.ip.deref(args[1])
        x, y = self.ip.read(st, a), self.ip.read(st, b)
        self.ip.write(st, a, y); self.ip.write(st, b, x); return [(st, UNIT)]
    def default_of(self, ti):
        t = self.p.types[ti]
        if t['k'] == 'int': return ZERO
        if t['k'] == 'bool': return FALSE
        if t['k'] == 'tuple': return Agg(0, tuple(self.default_of(x) for x in t['tys']))
        if t['k'] == 'array': return Arr((self.default_of(t['ty']),) * t['len'])
        if t['k'] == 'adt':
            if ispubkey(t): return SYS
            n = t['path'].split('::')[-1]
            if n in ('Vec',): return Arr(())
            if n == 'String': return T('fmt')
            if n in ('BTreeSet', 'HashSet'): return T('emptyset')
            if n == 'Option': return NONE
            if n == 'Rent': return T('rent', 'default')
            if t['local'] and t['kind'] == 'struct':
                return Agg(0, tuple(self.default_of(f[1]) for f in t['variants'][0]['fields']))
        if t['k'] == 'ref': return Ptr(('const', Arr(())), ())
        return T('default', short(t['s']))
    @model('std::default::Default::default')
    def default(self, st, ref, args): return [(st, self.default_of(ref['targs'][0]))]
    @model('std::clone::Clone::clone', 'std::borrow::ToOwned::to_owned', '~std::slice::<impl \\[T\\]>::to_vec', '~core::slice::<impl \\[T\\]>::to_vec', '~std::array::<impl .*>::clone', '~std::string::<impl .*to_(owned|string)', 'std::option::Option::<&T>::cloned')
    def clone(self, st, ref, args):
        v = args[0]
        t = self.targ(ref, 0)
        if t and t['k'] == 'ref': return [(st, self.ip.read(st, v))]
        if isinstance(v, Ptr): v = self.ip.read(st, v)
        n = 0
        if t and t['k'] != 'ref' and not (t['k'] == 'adt' and t['path'].split('::')[-1] in ('Rc',)):
            if t['k'] == 'adt' and short(t['s']).startswith('AccountInfo'): return [(st, v)]
        return [(st, v)]
    @model('std::clone::Clone::clone_from')
    def clonefrom(self, st, ref, args):
        self.ip.write(st, self.ip.deref(args[0]), self.copy(st, args[1])); return [(st, UNIT)]

    # ------------------------------------------------------------ references
    @model('std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut')
    def deref(self, st, ref, args):
        t = self.targ(ref, 0)
        a = args[0]
        n = t['path'].split('::')[-1] if t and t['k'] == 'adt' else ''
        if n in ('Rc', 'Arc'):
            v = self.ip.read(st, a)
            return [(st, v if isinstance(v, Ptr) else a)]
        if n in ('Ref', 'RefMut'):
            v = self.ip.read(st, a)
            if isinstance(v, Agg) and len(v.fs) == 1: return [(st, v.fs[0])]
            return [(st, a)]
        if t and t['k'] == 'ref': return [(st, self.ip.read(st, a))]
        return [(st, a)]
    @model('std::convert::AsRef::as_ref', 'std::convert::AsMut::as_mut')
    def asref(self, st, ref, args):
        t = self.targ(ref, 0)
        if ispubkey(t):
            a = self.ip.deref(args[0]); return [(st, Ptr(a.cell, a.path + (('pkb',),)))]
        if t and t['k'] == 'str' or t and t['s'] == 'std::string::String':
            return self.strbytes(st, ref, args)
        if t and t['k'] == 'adt' and t['path'].split('::')[-1] in ('Ref', 'RefMut', 'Rc'): return self.deref(st, ref, args)
        return [(st, args[0])]
    @model('~core::str::<impl str>::(as_bytes|as_ref)', '~std::string::String::(as_bytes|into_bytes)')
    def strbytes(self, st, ref, args):
        v = args[0]
        while isinstance(v, Ptr): v = self.ip.read(st, v)
        if isinstance(v, Term) and v.op == 'str': return [(st, Ptr(('const', lit(v.a[0].encode())), ()))]
        return [(st, Ptr(('const', T('strb', v if isinstance(v, Term) else T('fmt'))), ()))]
    @model('std::cell::RefCell::<T>::borrow', 'std::cell::RefCell::<T>::borrow_mut')
    def borrow(self, st, ref, args): return [(st, Agg(0, (self.ip.deref(args[0]),)))]
    @model('std::cell::RefCell::<T>::try_borrow', 'std::cell::RefCell::<T>::try_borrow_mut')
    def tryborrow(self, st, ref, args): return self.fallible(st, Agg(0, (self.ip.deref(args[0]),)), 'borrow')
    @model("~std::cell::Ref(Mut)?::<.*>::map$")
    def refmap(self, st, ref, args):
        g = args[0]
        p = g.fs[0] if isinstance(g, Agg) else g
        return [(s, Agg(0, (v,))) for s, v in self.ip.call_value(st, args[1], (p,))]

    # ------------------------------------------------------------ accounts
    @model("~.*AccountInfo::<.*>::(\\w+)$")
    def accountinfo(self, st, ref, args):
        m = ref['path'].rsplit('::', 1)[1]
        i = self.acct(st, args[0]) if args else None
        if i is None: return None
        lam, dat = ('lam', i), ('data', i)
        rd = lambda c: self.ip.read(st, Ptr(c, ()))
        if m == 'lamports': return [(st, rd(lam))]
        if m == 'try_lamports': return self.fallible(st, rd(lam), 'borrow')
        if m == 'data_len': return [(st, blen(rd(dat)))]
        if m == 'try_data_len': return self.fallible(st, blen(rd(dat)), 'borrow')
        if m == 'data_is_empty': return [(st, eq(blen(rd(dat)), ZERO))]
        if m == 'try_data_is_empty': return self.fallible(st, eq(blen(rd(dat)), ZERO), 'borrow')
        if m in ('try_borrow_data', 'try_borrow_mut_data'): return self.fallible(st, Agg(0, (Ptr(('datacell', i), ()),)), 'borrow')
        if m in ('try_borrow_lamports', 'try_borrow_mut_lamports'): return self.fallible(st, Agg(0, (Ptr(('lamcell', i), ()),)), 'borrow')
        if m in ('realloc', 'resize'):
            old = rd(dat)
            e = st.fork()
            self.set_data(st, i, self.resized(old, args[1]))
            return [(st, OK()), (self.fail(e, 'realloc'), ERR(T('err', 'realloc')))]
        if m == 'assign':
            st.cells[('owner', i)] = self.strip(st, args[1]); return [(st, UNIT)]
        if m in ('signer_key', 'unsigned_key'):
            p = Ptr(('key', i), ())
            if m == 'unsigned_key': return [(st, p)]
            y, n = self.fork2(st, T('is_signer', i))
            return ([(y, SOME(p))] if y else []) + ([(n, NONE)] if n else [])
        if m == 'is_owned_by': return [(st, eq(rd(('owner', i)), self.strip(st, args[1])))]
        if m == 'original_data_len': return [(st, blen(T('data0', i)))]
        if m == 'deserialize_data':
            return self.fallible(st, T('bincode', short(self.p.tname(self.targs(ref, -1 if len(ref['targs']) else 0))), rd(dat)), 'decode')
        return None
    def resized(self, old, n):
        l = blen(old)
        if n is l: return old
        if n is ZERO: return lit(b'')
        if isint(l) and l.a[0] == 0: return T('zero', n)
        if isinstance(old, Term) and old.op == 'zero': return T('zero', n)
        return T('resize', tobytes(old), n)
    def set_data(self, st, i, v): st.cells[('data', i)] = v
    @model("~.*next_account_info$")
    def next_ai(self, st, ref, args):
        out = []
        for s, item in self.nexts(st, self.ip.deref(args[0])):
            if item is DONE: out.append((self.fail(s, 'accounts'), ERR(T('err', 'NotEnoughAccountKeys'))))
            else: out.append((s, OK(item)))
        return out
    @model("~.*next_account_infos$")
    def next_ais(self, st, ref, args):
        l = self.ip.deref(args[0]); v = self.ip.read(st, l); n = args[1]
        if isinstance(v, Iter) and v.k == 'slice' and isint(n):
            p, lo, hi, mode = v.a
            y, no = self.fork2(st, not_(lt(hi, add(lo, n))))
            out = []
            if y:
                self.ip.write(y, l, Iter('slice', (p, add(lo, n), hi, mode)))
                out.append((y, OK(self.ip.subrange(p, lo, add(lo, n)))))
            if no: out.append((self.fail(no, 'accounts'), ERR(T('err', 'NotEnoughAccountKeys'))))
            return out

    # ------------------------------------------------------------ integers
    @model('~core::num::<impl [ui].*')
    def ints(self, st, ref, args):
        m = INTS.match(ref['path'])
        if not m: return None
        bits = 64 if m.group(2) == 'size' else int(m.group(2)); f = m.group(3); signed = m.group(1) == 'i'
        M = (1 << bits) - 1
        a = [self.strip(st, x) for x in args]
        a = [x if isinstance(x, Term) else self.ip.fresh('int') for x in a]
        if bits < 64:
            for x in a[:1]:
                if not isint(x) and x.op not in ('lin',): self.width(x, bits)
        if f == 'to_le_bytes': return [(st, le(a[0], bits // 8))]
        if f in ('to_be_bytes', 'to_ne_bytes'):
            if f == 'to_ne_bytes': return [(st, le(a[0], bits // 8))]
            return [(st, lit(a[0].a[0].to_bytes(bits // 8, 'big')) if isint(a[0]) else T('be', a[0], bits // 8))]
        if f in ('from_le_bytes', 'from_ne_bytes'):
            b = self.bytesval(st, args[0])
            if b.op == 'lit': return [(st, I(int.from_bytes(b.a[0], 'little')))]
            if b.op == 'le' and b.a[1] == bits // 8: return [(st, b.a[0])]
            t = T('unle', b, bits // 8); NUMTERMS.add(t); self.width(t, bits); return [(st, t)]
        if f == 'abs_diff' and not signed:
            y, n = self.fork2(st, not_(lt(a[0], a[1])))
            return ([(y, sub(a[0], a[1]))] if y else []) + ([(n, sub(a[1], a[0]))] if n else [])
        if signed and bits == 128 and small(a[0]):
            v = a[0]
            if f in ('unsigned_abs', 'abs'):
                y, n = self.fork2(st, not_(lt(v, ZERO)))
                return ([(y, v)] if y else []) + ([(n, sub(ZERO, v))] if n else [])
            if f in ('is_negative', 'is_positive'): return [(st, lt(v, ZERO) if f == 'is_negative' else lt(ZERO, v))]
            if f == 'signum':
                y, n = self.fork2(st, eq(v, ZERO)); out = [(y, ZERO)] if y else []
                if n:
                    y, n = self.fork2(n, lt(ZERO, v))
                    out += ([(y, ONE)] if y else []) + ([(n, I(-1))] if n else [])
                return out
            if f in ('checked_add', 'checked_sub') and small(a[1]): return [(st, SOME((add if f == 'checked_add' else sub)(v, a[1])))]
        if f == 'wrapping_neg' and not signed:
            w = a[0]
            if isint(w): return [(st, I(-w.a[0] & M))]
            if w.op == 'wrap' and w.a[0] == 'Sub' and st.ge(sub(w.a[3], w.a[2])): return [(st, sub(w.a[3], w.a[2]))]
            return None
        op = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul'}
        if not signed and '_' in f and f.split('_')[1] in op and f.split('_')[0] in ('checked', 'saturating', 'wrapping', 'overflowing', 'strict', 'unchecked'):
            kind, o = f.split('_')[0], op[f.split('_')[1]]
            e, ok = self.ip.arith(st, o, a[0], a[1], bits)
            wr = lambda v: {'checked': SOME, 'overflowing': lambda x: Agg(0, (x, FALSE))}.get(kind, lambda x: x)(v)
            if ok: return [(st, wr(e))]
            if kind == 'wrapping' or kind == 'unchecked':
                st.notes += (('wrap', o, self.ip.site()),); return [(st, e)]
            x = self.exact(o, a[0], a[1])
            fits = not_(lt(x, ZERO)) if False else (not_(lt(a[0], a[1])) if o == 'Sub' else self.fits(x, M))
            y, n = self.fork2(st, fits)
            out = []
            if y:
                if o != 'Sub' and x.op == 'mul': self.width(x, bits)
                out.append((y, wr(x)))
            if n:
                if kind == 'checked': out.append((n, NONE))
                elif kind == 'saturating':
                    if o != 'Sub': n.notes += (('wrap', 'saturating ' + o, self.ip.site()),)
                    out.append((n, ZERO if o == 'Sub' else I(M)))
                elif kind == 'overflowing': out.append((n, Agg(0, (e, TRUE))))
            return out
        if f in ('checked_div', 'checked_rem', 'saturating_div', 'wrapping_div', 'div_euclid', 'checked_div_euclid', 'div_ceil') and not signed:
            z = eq(a[1], ZERO)
            y, n = self.fork2(st, not_(z))
            q = None
            if f == 'div_ceil': v = self.ip.binop(st, 'Div', add(a[0], sub(a[1], ONE)), a[1], None)
            else: v = self.ip.binop(y or st, 'Rem' if 'rem' in f else 'Div', a[0], a[1], None)
            out = []
            if y: out.append((y, SOME(v) if f.startswith('checked') else v))
            if n and f.startswith('checked'): out.append((n, NONE))
            return out
        if f == 'is_power_of_two' or f == 'pow':
            if all(isint(x) for x in a): return [(st, I(a[0].a[0] ** a[1].a[0] & M))] if f == 'pow' else None
        return None
    def exact(self, o, a, b):
        if o == 'Add': return add(a, b)
        if o == 'Sub': return sub(a, b)
        if isint(a): return scale(b, a.a[0])
        if isint(b): return scale(a, b.a[0])
        return T('mul', *sorted((a, b)))
    def fits(self, x, M): return not_(lt(I(M), x))
    @model('std::cmp::Ord::cmp', 'std::cmp::PartialOrd::partial_cmp')
    def cmp(self, st, ref, args):
        a, b = self.strip(st, args[0]), self.strip(st, args[1])
        part = ref['path'].endswith('partial_cmp')
        w = (lambda x: SOME(x)) if part else (lambda x: x)
        if isinstance(a, Term) and isinstance(b, Term) and (self.numeric(ref) or self.wide(ref) and small(a) and small(b)):
            out = []
            y, n = self.fork2(st, lt(a, b))
            if y: out.append((y, w(LESS)))
            if n:
                y, n = self.fork2(n, eq(a, b))
                if y: out.append((y, w(EQUAL)))
                if n: out.append((n, w(GREATER)))
            return out
        e = self.valeq(st, a, b)
        y, n = self.fork2(st, e)
        out = [(y, w(EQUAL))] if y else []
        if n:
            c = T('less', self.freeze(st, a), self.freeze(st, b))
            y, n = self.fork2(n, c)
            out += ([(y, w(LESS))] if y else []) + ([(n, w(GREATER))] if n else [])
        return out
    @model('~std::cmp::Ordering::(is_lt|is_gt|is_le|is_ge|is_eq|is_ne|reverse|then)$')
    def ordering(self, st, ref, args):
        v = self.strip(st, args[0])
        if not isinstance(v, Agg): return None
        m = ref['path'].split('::')[-1]; x = (-1, 0, 1)[v.v]
        if m == 'then': return [(st, args[1] if x == 0 else v)]
        if m == 'reverse': return [(st, (LESS, EQUAL, GREATER)[1 - x])]
        return [(st, TRUE if {'is_lt': x < 0, 'is_gt': x > 0, 'is_le': x <= 0, 'is_ge': x >= 0, 'is_eq': x == 0, 'is_ne': x != 0}[m] else FALSE)]
    @model('~(std|core)::num::NonZero::<T>::(new|get|new_unchecked)$')
    def nonzero(self, st, ref, args):
        v = args[0]; m = ref['path'].split('::')[-1]
        if not isinstance(v, Term): return None
        if m != 'new': return [(st, v)]
        y, n = self.fork2(st, eq(v, ZERO))
        return ([(n, SOME(v))] if n else []) + ([(y, NONE)] if y else [])
    @model('std::slice::from_ref', 'std::slice::from_mut', 'std::array::from_ref', 'std::array::from_mut')
    def fromref(self, st, ref, args):
        v = args[0]
        if not isinstance(v, Ptr) or ref['path'].endswith('mut'): return None
        c = (self.ip.newcell(), 0); st.cells[c] = Arr((self.ip.read(st, v),))
        return [(st, Ptr(c, ()))]
    def wide(self, ref):
        t = self.targ(ref, 0)
        while t and t['k'] == 'ref': t = self.p.types[t['ty']]
        return t and t['k'] == 'int' and t['signed'] and t['bits'] == 128
    def numeric(self, ref):
        t = self.targ(ref, 0)
        while t and t['k'] == 'ref': t = self.p.types[t['ty']]
        return t and t['k'] == 'int' and not t['signed']
    @model('std::cmp::PartialOrd::lt', 'std::cmp::PartialOrd::le', 'std::cmp::PartialOrd::gt', 'std::cmp::PartialOrd::ge')
    def ordop(self, st, ref, args):
        a, b = self.strip(st, args[0]), self.strip(st, args[1])
        k = ref['path'][-2:]
        if self.numeric(ref) and isinstance(a, Term) and isinstance(b, Term):
            return [(st, {'lt': lambda: lt(a, b), 'gt': lambda: lt(b, a), 'le': lambda: not_(lt(b, a)), 'ge': lambda: not_(lt(a, b))}[k]())]
        return [(st, T('cmpop', k, self.freeze(st, a), self.freeze(st, b)))]
    @model('std::cmp::Ord::min', 'std::cmp::Ord::max', 'std::cmp::min', 'std::cmp::max', 'std::cmp::Ord::clamp')
    def minmax(self, st, ref, args):
        if not self.numeric(ref): return None
        a, b = args[0], args[1]
        if not isinstance(a, Term) or not isinstance(b, Term): return None
        if ref['path'].endswith('clamp'):
            c = args[2]; out = []
            if not isinstance(c, Term): return None
            lo, st = self.fork2(st, lt(a, b))
            if lo: out.append((lo, b))
            if st:
                hi, st = self.fork2(st, lt(c, a))
                out += ([(hi, c)] if hi else []) + ([(st, a)] if st else [])
            return out
        mn = ref['path'].endswith('min')
        y, n = self.fork2(st, not_(lt(b, a)))     # a <= b
        return ([(y, a if mn else b)] if y else []) + ([(n, b if mn else a)] if n else [])
    @model('~^<&*[ui](8|16|32|64|128|size) as std::ops::(Add|Sub|Mul|Div|Rem)(Assign)?<&*[ui](8|16|32|64|128|size)>>::', '~^std::ops::(arith::)?(Add|Sub|Mul|Div|Rem)(Assign)?::')
    def refarith(self, st, ref, args):
        m = re.search(r'ops::(?:arith::)?(Add|Sub|Mul|Div|Rem)(Assign)?', ref['path'])
        w = re.match(r'<&*([ui](?:8|16|32|64|128|size))', ref['path'])
        t = self.targ(ref, 0)
        if not w and not (t and t['k'] == 'int'): return None
        w = w.group(1) if w else t['s']
        if w not in self.p.bytype: return None
        a, b = self.strip(st, args[0]), self.strip(st, args[1])
        if not isinstance(a, Term) or not isinstance(b, Term): return None
        v = self.ip.binop(st, m.group(1), a, b, self.p.bytype[w])
        if m.group(2):
            self.ip.write(st, self.ip.deref(args[0]), v)
            v = UNIT
        return [(st, v)]
    @model('std::cmp::PartialEq::eq', 'std::cmp::PartialEq::ne')
    def peq(self, st, ref, args):
        t = self.targ(ref, 0)
        while t and t['k'] == 'ref': t = self.p.types[t['ty']]
        if t and t['k'] == 'bool':
            r = self.ip.binop(st, 'Eq', self.strip(st, args[0]), self.strip(st, args[1]), self.p.bytype['bool'])
        else: r = self.valeq(st, args[0], args[1])
        return [(st, r if ref['path'].endswith('eq') else not_(r))]
    @model('std::convert::From::from', 'std::convert::Into::into')
    def frm(self, st, ref, args):
        s, t = self.targ(ref, 0), self.targ(ref, 1)
        v = args[0]
        if s and s['k'] == 'int':
            if isinstance(v, Term):
                if t and t['k'] == 'bool':
                    if isint(v): return [(st, I(int(v.a[0])))]
                    y, n = self.fork2(st, v)
                    return ([(y, ONE)] if y else []) + ([(n, ZERO)] if n else [])
                if t and t['k'] == 'int' and t['bits'] < 64 and not isint(v): self.width(v, t['bits'])
                return [(st, v)]
        if ispubkey(s):
            return [(st, pkof(self.freeze(st, self.strip(st, v))))]
        if s and t and s['k'] == 'array' and ispubkey(t): return [(st, pkb(v))]
        if s and s['k'] == 'adt':
            n = s['path'].split('::')[-1]
            if n == 'Vec': return [(st, self.strip(st, v) if isinstance(v, Ptr) else v)]
            if n in ('Box', 'Rc', 'Cow'): return [(st, v)]
            if n in ('BTreeSet', 'HashSet'):
                v = self.strip(st, v)
                if isinstance(v, Arr):
                    r = T('emptyset')
                    for x in v.xs: r = self.ins(r, self.freeze(st, x))
                    return [(st, r)]
            if n == 'ProgramError' or n.endswith('Error'):
                return [(st, T('err', 'from', short(t['s']) if t else '?'))]
            if n == 'String': return [(st, T('fmt'))]
            if n == 'Option': return [(st, SOME(v))]
        return [(st, T('app', short(ref['full']), self.freeze(st, v)))]
    @model('std::convert::TryFrom::try_from', 'std::convert::TryInto::try_into')
    def tryfrom(self, st, ref, args):
        s, t = self.targ(ref, 0), self.targ(ref, 1)
        if ref['path'].endswith('try_into'): s, t = t, s
        v = args[0]
        if s and s['k'] == 'int' and isinstance(v, Term):
            M = (1 << (s['bits'] - (1 if s['signed'] else 0))) - 1
            if t and t['k'] == 'int' and t['signed'] and not s['signed']:
                if not (t['bits'] == 128 and small(v)): return None
                y, neg = self.fork2(st, not_(lt(v, ZERO)))
                bad = [(self.fail(neg, 'convert'), ERR(T('err', 'convert')))] if neg else []
                if y is None: return bad
                y, n = self.fork2(y, not_(lt(I(M), v)))
                return bad + ([(y, OK(v))] if y else []) + ([(self.fail(n, 'convert'), ERR(T('err', 'convert')))] if n else [])
            y, n = self.fork2(st, not_(lt(I(M), v)))
            return ([(y, OK(v))] if y else []) + ([(self.fail(n, 'convert'), ERR(T('err', 'convert')))] if n else [])
        if s and (s['k'] == 'array' or s['k'] == 'ref' and self.p.types[s['ty']]['k'] == 'array' or ispubkey(s)):
            n = 32 if ispubkey(s) else (s['len'] if s['k'] == 'array' else self.p.types[s['ty']]['len'])
            c = self.strip(st, v)
            y, no = self.fork2(st, eq(blen(c), I(n)))
            out = []
            if y:
                if ispubkey(s): r = pkof(self.freeze(y, c))
                elif s['k'] == 'array': r = c
                else: r = v
                out.append((y, OK(r)))
            if no: out.append((self.fail(no, 'convert'), ERR(T('err', 'convert'))))
            return out
        return None

    # ------------------------------------------------------------ keys and derived addresses
    @model("~solana_program::(solana_)?pubkey::Pubkey::(\\w+)$", "~solana_pubkey::Pubkey::(\\w+)$")
    def pubkey(self, st, ref, args):
        m = ref['path'].rsplit('::', 1)[1]
        if m in ('find_program_address', 'try_find_program_address'):
            sd = self.flat(self.freeze(st, self.strip(st, args[0]))); pg = self.strip(st, args[1])
            r = Agg(0, (T('pda', sd, pg), T('bump', sd, pg)))
            if m[0] == 'f': return [(st, r)]
            e = st.fork(); return [(st, SOME(r)), (self.fail(e, 'pda'), NONE)]
        if m == 'create_program_address':
            sd = self.flat(self.freeze(st, self.strip(st, args[0]))); pg = self.strip(st, args[1])
            return self.fallible(st, self.cpa(sd, pg), 'pda')
        if m in ('to_bytes',): return [(st, pkb(self.strip(st, args[0])))]
        if m in ('as_array',):
            a = self.ip.deref(args[0]); return [(st, Ptr(a.cell, a.path + (('pkb',),)))]
        if m in ('new_from_array', 'new'): return [(st, pkof(self.freeze(st, self.strip(st, args[0]))))]
        if m == 'is_on_curve': return [(st, T('oncurve', self.strip(st, args[0])))]
        if m == 'log': return [(st, UNIT)]
        return None
    def cpa(self, sd, pg):
        """address of create_program_address: the derived address when the last byte is the bump that was found for the rest"""
        if sd.op == 'cat':
            last = sd.a[-1]
            if last.op == 'byte' and isinstance(last.a[0], Term) and last.a[0].op == 'bump':
                b = last.a[0]
                if b.a[0] is cat(*sd.a[:-1]) and b.a[1] is pg: return T('pda', b.a[0], pg)
        return T('cpa', sd, pg)
    @model("~.*curve25519.*::validate_edwards", '~.*bytes_are_curve_point')
    def edwards(self, st, ref, args):
        b = self.bytesval(st, args[0])
        v = self.strip(st, args[0])
        if isinstance(v, Agg): b = tobytes(self.freeze(st, v.fs[0]))
        return [(st, T('oncurve', pkof(b)))]

    # ------------------------------------------------------------ sysvars
    @model('~.*sysvar::Sysvar::get$', '~.*sysvar::Sysvar::from_account_info')
    def sysvar(self, st, ref, args):
        t = self.targ(ref, 0); n = short(t['s'])
        if n == 'Rent': v = T('rent', 'sysvar')
        else:
            fs = []
            for f in t['variants'][0]['fields']:
                x = T('sysvar', n, f[0]); NUMTERMS.add(x); fs.append(x)
            v = Agg(0, tuple(fs))
        if ref['path'].endswith('from_account_info'): v = T('sysvar_acct', n, I(self.acct(st, args[0]) or 0))
        return self.fallible(st, v, 'sysvar')
    @model("~.*[Rr]ent::Rent::(\\w+)$")
    def rent(self, st, ref, args):
        m = ref['path'].rsplit('::', 1)[1]
        r = self.freeze(st, self.strip(st, args[0])) if args else T('rent', 'default')
        if m == 'minimum_balance':
            n = args[1]
            return [(st, T('minbal', r, n))]
        if m == 'is_exempt': return [(st, not_(lt(args[1], T('minbal', r, args[2]))))]
        return None

    # ------------------------------------------------------------ slices, Vec
    def content(self, st, v): return self.strip(st, v)
    @model('~core::slice::<impl \\[T\\]>::(\\w+)$', '~std::slice::<impl \\[T\\]>::(\\w+)$', '~std::vec::Vec::<T, A>::(\\w+)$', '~std::vec::Vec::<T>::(\\w+)$', '~core::array::<impl .*>::(\\w+)$', '~std::array::<impl .*>::(\\w+)$', '~core::slice::<impl \\[u8\\]>::(\\w+)$')
    def slices(self, st, ref, args):
        m = ref['path'].rsplit('::', 1)[1]
        ip = self.ip
        if m in ('new', 'with_capacity') and 'Vec' in ref['path']: return [(st, Arr(()))]
        if not args: return None
        a = args[0]
        if m == 'as_slice' or m in ('as_mut_slice', 'as_ref', 'as_mut', 'as_bytes', 'leak'): return [(st, a)]
        if m == 'into_vec': return [(st, a)]
        loc = ip.deref(a)
        # through a Ptr to a Ptr (Vec by value holds its content in place)
        n = lambda: ip.length(st, loc)
        if m == 'len': return [(st, n())]
        if m == 'is_empty': return [(st, eq(n(), ZERO))]
        if m in ('first', 'last', 'first_mut', 'last_mut'):
            l = n()
            y, no = self.fork2(st, not_(eq(l, ZERO)))
            return ([(y, SOME(ip.index(loc, ZERO if m.startswith('first') else sub(l, ONE))))] if y else []) + ([(no, NONE)] if no else [])
        if m in ('split_first', 'split_last', 'split_first_mut'):
            l = n()
            y, no = self.fork2(st, not_(eq(l, ZERO)))
            out = []
            if y:
                if m.startswith('split_first'): out.append((y, SOME(Agg(0, (ip.index(loc, ZERO), ip.subrange(loc, ONE, l))))))
                else: out.append((y, SOME(Agg(0, (ip.index(loc, sub(l, ONE)), ip.subrange(loc, ZERO, sub(l, ONE)))))))
            return out + ([(no, NONE)] if no else [])
        if m in ('split_at', 'split_at_mut', 'split_at_checked', 'split_at_mut_checked'):
            l = n()
            y, no = self.fork2(st, not_(lt(l, args[1])))
            r = Agg(0, (ip.subrange(loc, ZERO, args[1]), ip.subrange(loc, args[1], l)))
            if m.endswith('checked'): return ([(y, SOME(r))] if y else []) + ([(no, NONE)] if no else [])
            return [(y, r)] if y else []
        if m in ('first_chunk', 'split_first_chunk', 'first_chunk_mut', 'split_first_chunk_mut', 'last_chunk'):
            k = re.search(r'::<(\d+)', ref['full'].rsplit(m, 1)[1])
            if not k: return None
            k = I(int(k.group(1))); l = n()
            y, no = self.fork2(st, not_(lt(l, k)))
            r = ip.subrange(loc, ZERO, k)
            if m == 'last_chunk': r = ip.subrange(loc, sub(l, k), l)
            if m.startswith('split'): r = Agg(0, (r, ip.subrange(loc, k, l)))
            return ([(y, SOME(r))] if y else []) + ([(no, NONE)] if no else [])
        if m in ('get', 'get_mut'): return self.getidx(st, ref, args, True)
        if m in ('get_unchecked', 'get_unchecked_mut'): return self.getidx(st, ref, args, False)
        if m in ('iter', 'iter_mut'): return [(st, Iter('slice', (loc, ZERO, n(), 'ref')))]
        if m in ('copy_from_slice', 'clone_from_slice'):
            src = self.content(st, args[1])
            l1, l2 = n(), (ip.length(st, args[1]) if isinstance(args[1], Ptr) else blen(src))
            self.need(st, eq(l1, l2))
            ip.write(st, loc, src if isinstance(src, Arr) or not loc.path else tobytes(self.freeze(st, src)))
            return [(st, UNIT)]
        if m == 'fill':
            l = n(); v = args[1]
            ip.write(st, loc, Arr((v,) * l.a[0]) if isint(l) and l.a[0] < 64 and v is not ZERO else T('zero', l) if v is ZERO else T('rep', v, l))
            return [(st, UNIT)]
        if m == 'concat':
            v = self.content(st, a)
            if isinstance(v, Arr):
                parts = [self.strip1(st, x) for x in v.xs]
                return [(st, self.joinseq(parts))]
            return [(st, self.flat(self.freeze(st, v)))]
        if m == 'contains':
            v = self.content(st, a)
            if isinstance(v, Arr):
                r = FALSE
                for x in v.xs:
                    e = self.valeq(st, x, args[1])
                    if e is TRUE: return [(st, TRUE)]
                    if e is not FALSE: r = e if r is FALSE else T('or', r, e)
                return [(st, r)]
            return [(st, self.member(self.unseq(self.freeze(st, v)), self.freeze(st, args[1])))]
        if m in ('starts_with', 'ends_with'):
            v = self.freeze(st, self.content(st, args[1])); l, k = n(), blen(v)
            w = ip.subrange(loc, ZERO, k) if m[0] == 's' else ip.subrange(loc, sub(l, k), l)
            y, no = self.fork2(st, not_(lt(l, k)))
            return ([(y, self.valeq(y, w, args[1]))] if y else []) + ([(no, FALSE)] if no else [])
        if m in ('strip_prefix', 'strip_suffix'):
            v = self.freeze(st, self.content(st, args[1])); l, k = n(), blen(v)
            w, o = (ip.subrange(loc, ZERO, k), ip.subrange(loc, k, l)) if m == 'strip_prefix' else (ip.subrange(loc, sub(l, k), l), ip.subrange(loc, ZERO, sub(l, k)))
            y, no = self.fork2(st, not_(lt(l, k))); out = [(no, NONE)] if no else []
            if y:
                y, no = self.fork2(y, self.valeq(y, w, args[1]))
                out += ([(y, SOME(o))] if y else []) + ([(no, NONE)] if no else [])
            return out
        if m in ('swap',):
            x, y = ip.read(st, ip.index(loc, args[1])), ip.read(st, ip.index(loc, args[2]))
            ip.write(st, ip.index(loc, args[1]), y); ip.write(st, ip.index(loc, args[2]), x); return [(st, UNIT)]
        if m == 'reverse':
            v = self.content(st, a)
            if isinstance(v, Arr): ip.write(st, loc, Arr(v.xs[::-1])); return [(st, UNIT)]
        # --- Vec
        if m == 'push':
            v = ip.read(st, loc)
            if isinstance(v, Arr): ip.write(st, loc, Arr(v.xs + (args[1],)))
            elif isinstance(v, Term) and v.op in ('cat', 'lit', 'enc', 'pkb', 'le', 'byte', 'sub', 'zero'): ip.write(st, loc, cat(v, tobytes(Arr((args[1],)))))
            else: ip.write(st, loc, self.joinseq([v, Arr((args[1],))]))
            return [(st, UNIT)]
        if m in ('extend_from_slice', 'append'):
            v = ip.read(st, loc); w = self.content(st, args[1])
            t = self.targ(ref, 0)
            if t and t['s'] == 'u8': nv = cat(tobytes(self.freeze(st, v)), tobytes(self.freeze(st, w)))
            else: nv = self.joinseq([v, w])
            ip.write(st, loc, nv)
            if m == 'append': ip.write(st, ip.deref(args[1]), Arr(()))
            return [(st, UNIT)]
        if m == 'pop':
            v = ip.read(st, loc)
            if isinstance(v, Arr):
                if not v.xs: return [(st, NONE)]
                ip.write(st, loc, Arr(v.xs[:-1])); return [(st, SOME(v.xs[-1]))]
        if m == 'clear': ip.write(st, loc, Arr(())); return [(st, UNIT)]
        if m == 'insert':
            v = ip.read(st, loc)
            if isinstance(v, Arr) and isint(args[1]):
                k = args[1].a[0]; ip.write(st, loc, Arr(v.xs[:k] + (args[2],) + v.xs[k:])); return [(st, UNIT)]
        if m in ('remove', 'swap_remove'):
            v = ip.read(st, loc)
            if isinstance(v, Arr) and isint(args[1]) and args[1].a[0] < len(v.xs):
                k = args[1].a[0]; ip.write(st, loc, Arr(v.xs[:k] + v.xs[k + 1:])); return [(st, v.xs[k])]
        if m in ('resize', 'truncate'):
            v = ip.read(st, loc); k = args[1]; l = blen(v)
            if isinstance(v, Arr) and isint(k):
                xs = v.xs[:k.a[0]]
                if m == 'resize': xs += (args[2],) * (k.a[0] - len(xs))
                ip.write(st, loc, Arr(xs)); return [(st, UNIT)]
            if m == 'resize' and isint(l) and l.a[0] == 0: ip.write(st, loc, T('zero', k) if args[2] is ZERO else T('rep', args[2], k)); return [(st, UNIT)]
            if m == 'resize': ip.write(st, loc, T('resize', tobytes(self.freeze(st, v)), k)); return [(st, UNIT)]
        if m == 'map' and isinstance(a, Arr):
            return self.run_map(st, a.xs, args[1], lambda xs: Arr(tuple(xs)))
        return None
    def strip1(self, st, v):
        while isinstance(v, Ptr): v = self.ip.read(st, v)
        return v
    def joinseq(self, parts):
        parts = [p for p in parts if not (isinstance(p, Arr) and not p.xs)]
        if not parts: return Arr(())
        if all(isinstance(p, Arr) for p in parts): return Arr(sum((p.xs for p in parts), ()))
        if len(parts) == 1: return parts[0]
        BY = ('lit', 'cat', 'sub', 'pkb', 'le', 'zero', 'resize', 'pod', 'enc', 'byte')
        if any(isinstance(p, Term) and p.op in BY for p in parts): return cat(*[tobytes(p) for p in parts])
        out = []
        for p in parts: out += list(p.a) if isinstance(p, Term) and p.op == 'catseq' else [p]
        return T('catseq', *out)
    @model('std::vec::from_elem')
    def fromelem(self, st, ref, args):
        n = args[1]
        if isint(n) and n.a[0] <= 4096: return [(st, Arr((args[0],) * n.a[0]))]
        return [(st, T('zero', n) if args[0] is ZERO else T('rep', args[0], n))]
    def rng(self, st, loc, r, rt, l):
        """(lo, hi, in-bounds conditions) of a range value"""
        n = rt['path'].split('::')[-1]
        if n == 'RangeFull': return ZERO, l, []
        if n == 'Range': return r.fs[0], r.fs[1], [not_(lt(r.fs[1], r.fs[0])), not_(lt(l, r.fs[1]))]
        if n == 'RangeTo': return ZERO, r.fs[0], [not_(lt(l, r.fs[0]))]
        if n == 'RangeFrom': return r.fs[0], l, [not_(lt(l, r.fs[0]))]
        if n == 'RangeInclusive': return r.fs[0], add(r.fs[1], ONE), [not_(lt(l, add(r.fs[1], ONE)))]
        if n == 'RangeToInclusive': return ZERO, add(r.fs[0], ONE), [not_(lt(l, add(r.fs[0], ONE)))]
        return None
    @model("~std::ops::(range::)?(Range\\w*)::<.*>::contains$", '~std::ops::RangeBounds::contains$')
    def range_contains(self, st, ref, args):
        t = self.targ(ref, 0); r = self.strip(st, args[0]); x = self.strip(st, args[1])
        if ref['path'].endswith('RangeBounds::contains'):
            if not (t and t['k'] == 'adt' and 'Range' in t['path']): return None
            n = t['path'].split('::')[-1]; t = self.p.types[t['args'][0]] if t.get('args') else None
        else: n = re.search(r'(Range\w*)::<', ref['path']).group(1)
        if not (t and t['k'] == 'int' and not t['signed']) or not isinstance(r, Agg) or not isinstance(x, Term): return None
        lo = {'Range': 0, 'RangeFrom': 0, 'RangeInclusive': 0}.get(n); hi = {'Range': 1, 'RangeTo': 0, 'RangeInclusive': 1, 'RangeToInclusive': 0}.get(n)
        if lo is None and hi is None: return None
        c = []
        if lo is not None: c.append(not_(lt(x, r.fs[lo])))
        if hi is not None: c.append(not_(lt(r.fs[hi], x)) if 'Inclusive' in n else lt(x, r.fs[hi]))
        return [(st, c[0] if len(c) == 1 else FALSE if FALSE in c else c[1] if c[0] is TRUE else c[0] if c[1] is TRUE else T('and', *c))]
    def getidx(self, st, ref, args, opt):
        ip = self.ip; loc = ip.deref(args[0]); l = ip.length(st, loc); ix = args[1]
        if isinstance(ix, Term):
            conds, r = [lt(ix, l)], ip.index(loc, ix)
        else:
            rt = next((self.p.types[t] for t in ref['targs'] if t >= 0 and self.p.types[t] and self.p.types[t]['k'] == 'adt' and 'Range' in self.p.types[t]['path']), None)
            if rt is None or not isinstance(ix, Agg): return None
            q = self.rng(st, loc, ix, rt, l)
            if q is None: return None
            conds, r = q[2], ip.subrange(loc, q[0], q[1])
        if not opt:
            for c in conds: self.need(st, c)
            return [(st, r)]
        out = []
        for c in conds:
            y, n = self.fork2(st, c)
            if n: out.append((n, NONE))
            if not y: return out
            st = y
        return [(st, SOME(r))] + out
    @model('std::ops::Index::index', 'std::ops::IndexMut::index_mut')
    def index(self, st, ref, args): return self.getidx(st, ref, args, False)
    @model('~.*program_memory::sol_(\\w+)$')
    def solmem(self, st, ref, args):
        m = ref['path'].rsplit('::', 1)[1]; ip = self.ip
        if m in ('sol_memcpy', 'sol_memmove'):
            dst, src = ip.deref(args[0]), ip.deref(args[1])
            self.need(st, not_(lt(ip.length(st, dst), args[2]))); self.need(st, not_(lt(ip.length(st, src), args[2])))
            ip.write(st, ip.subrange(dst, ZERO, args[2]), self.bytesval(st, ip.subrange(src, ZERO, args[2])))
            return [(st, UNIT)]
        if m == 'sol_memcmp':
            a, b = ip.deref(args[0]), ip.deref(args[1])
            self.need(st, not_(lt(ip.length(st, a), args[2]))); self.need(st, not_(lt(ip.length(st, b), args[2])))
            y, n = self.fork2(st, self.valeq(st, self.bytesval(st, ip.subrange(a, ZERO, args[2])), self.bytesval(st, ip.subrange(b, ZERO, args[2]))))
            r = ip.fresh('memcmp')
            return ([(y, ZERO)] if y else []) + ([(n, r)] if n and n.fact(eq(r, ZERO), False) else [])
        if m == 'sol_memset':
            dst = ip.deref(args[0]); self.need(st, not_(lt(ip.length(st, dst), args[2])))
            ip.write(st, ip.subrange(dst, ZERO, args[2]), T('zero', args[2]) if args[1] is ZERO else T('rep', args[1], args[2])); return [(st, UNIT)]

    # ------------------------------------------------------------ sets
    def ins(self, s, k):
        if s.op == 'ins' and s.a[1] is k: return s
        if s.op == 'rem' and s.a[1] is k: return T('ins', s.a[0], k)
        return T('ins', s, k)
    @model('~std::collections::(BTreeSet|HashSet)::<.*>::(\\w+)$', '~std::collections::(btree_set|hash_set)::.*::(\\w+)$')
    def sets(self, st, ref, args):
        m = ref['path'].rsplit('::', 1)[1]; ip = self.ip
        if m in ('new',): return [(st, T('emptyset'))]
        loc = ip.deref(args[0])
        s = ip.read(st, loc)
        while isinstance(s, Ptr): loc = s; s = ip.read(st, s)
        if not isinstance(s, Term): return None
        k = self.freeze(st, self.strip(st, args[1])) if len(args) > 1 else None
        if m == 'contains': return [(st, self.member(s, k))]
        if m == 'insert': ip.write(st, loc, self.ins(s, k)); return [(st, not_(self.member(s, k)))]
        if m == 'remove':
            ip.write(st, loc, T('rem', s.a[0], k) if s.op == 'ins' and s.a[1] is k else T('rem', s, k)); return [(st, self.member(s, k))]
        if m == 'replace':
            ip.write(st, loc, self.ins(s, k)); y, n = self.fork2(st, self.member(s, k))
            return ([(y, SOME(k))] if y else []) + ([(n, NONE)] if n else [])
        if m in ('get', 'take'):
            y, n = self.fork2(st, self.member(s, k))
            if m == 'take' and y: ip.write(y, loc, T('rem', s, k))
            return ([(y, SOME(Ptr(('const', k), ()) if m == 'get' else k))] if y else []) + ([(n, NONE)] if n else [])
        if m == 'retain':
            # an element other than the generic one is kept; the ones for which the closure says no are dropped
            e = T('any', T('members', s)); out = []
            t = st.fork(); r = []
            for y, v in ip.call_value(t, args[1], (Ptr(('const', e), ()),)):
                if not isinstance(v, Term) or y.ev != st.ev or y.ledger is not st.ledger: r = None; break
                r.append(v)
            keep = r[0] if r and len(r) == 1 else None
            q = not_(keep) if keep is not None else None
            if keep is TRUE: return [(st, UNIT)]
            if keep is FALSE: ip.write(st, loc, T('emptyset')); return [(st, UNIT)]
            if q is not None and q.op == 'eq' and e in q.a:
                k = q.a[1] if q.a[0] is e else q.a[0]
                if not contains(k, lambda u: u is e):
                    ip.write(st, loc, T('rem', s.a[0], k) if s.op == 'ins' and s.a[1] is k else T('rem', s, k)); return [(st, UNIT)]
            ip.write(st, loc, T('retained', s, T('opq', 'retain', *(r or ())))); return [(st, UNIT)]
        if m == 'len': return [(st, T('card', s))]
        if m == 'is_empty': return [(st, eq(T('card', s), ZERO))]
        if m == 'clear': ip.write(st, loc, T('emptyset')); return [(st, UNIT)]
        if m == 'iter': return [(st, Iter('opq', (T('members', s), 'ref')))]
        return None
    def member(self, s, k):
        if isinstance(s, Arr):
            r = FALSE
            for x in s.xs:
                if x is k: return TRUE
                r = T('or', r, eq(x, k)) if r is not FALSE else eq(x, k)
            return r
        if s.op == 'emptyset': return FALSE
        if s.op in ('ins', 'rem') and s.a[1] is k: return B(s.op == 'ins')
        return T('in', k, s)

    # ------------------------------------------------------------ borsh, bytemuck, bincode
    def enclen(self, ti, v):
        t = self.p.types[ti] if ti is not None and ti >= 0 else None
        if not t: return T('enclen', '?', v)
        k = t['k']
        if k == 'int': return I(t['bits'] // 8)
        if k == 'bool': return ONE
        if k == 'ref': return self.enclen(t['ty'], v)
        if ispubkey(t): return I(32)
        if k == 'array':
            e = self.fixed(t['ty'])
            if e is not None: return I(e * t['len'])
        if k == 'slice' or k == 'adt' and t['path'].split('::')[-1] == 'Vec':
            et = t['ty'] if k == 'slice' else t['args'][0]
            e = self.fixed(et)
            if e is not None: return add(I(4), scale(blen(v), e))
            if isinstance(v, Arr):
                r = I(4)
                for x in v.xs: r = add(r, self.enclen(et, x))
                return r
            return T('enclen', short(t['s']), v)
        if k == 'adt' and t['path'].split('::')[-1] in ('BTreeSet', 'HashSet'):
            e = self.fixed(t['args'][0])
            if e is not None: return add(I(4), scale(T('card', v), e))
        if k == 'adt' and t['kind'] == 'struct':
            r = ZERO
            for j, (n, ft) in enumerate(t['variants'][0]['fields']):
                x = v.fs[j] if isinstance(v, Agg) and j < len(v.fs) else self.field(v, n) if isinstance(v, Term) else T('opq', n)
                r = add(r, self.enclen(ft, x))
            return r
        if k == 'adt' and t['path'].split('::')[-1] == 'Option':
            if isinstance(v, Agg): return ONE if v.v == 0 else add(ONE, self.enclen(t['args'][0], v.fs[0]))
        if k == 'tuple':
            r = ZERO
            for j, ft in enumerate(t['tys']): r = add(r, self.enclen(ft, v.fs[j] if isinstance(v, Agg) else self.field(v, str(j))))
            return r
        return T('enclen', short(t['s']), v)
    def fixed(self, ti):
        t = self.p.types[ti] if ti is not None and ti >= 0 else None
        if not t: return None
        if t['k'] == 'int': return t['bits'] // 8
        if t['k'] == 'bool': return 1
        if ispubkey(t): return 32
        if t['k'] == 'array':
            e = self.fixed(t['ty']); return None if e is None else e * t['len']
        return None
    def enc(self, ti, v):
        t = self.p.types[ti] if ti is not None and ti >= 0 else None
        if t and t['k'] == 'ref': return self.enc(t['ty'], v)
        if isinstance(v, Term) and v.op == 'dec' and t and v.a[0] == short(t['s']): return v.a[1]
        if t and t['k'] == 'int' and isinstance(v, Term): return le(v, t['bits'] // 8) if t['bits'] > 8 or isint(v) else tobytes(Arr((v,)))
        if ispubkey(t): return pkb(v)
        if t and t['k'] == 'tuple' and isinstance(v, Agg) and len(v.fs) == len(t['tys']):
            return cat(*[self.enc(q, x) for q, x in zip(t['tys'], v.fs)])
        n = short(t['s']) if t else '?'
        if t and t['k'] in ('array', 'slice', 'adt') and n in ('Vec<u8>', '[u8]') : return cat(le(blen(v), 4), tobytes(v))
        if t and t['k'] == 'array' and self.p.types[t['ty']]['s'] == 'u8': return tobytes(v)
        if n.startswith('[') and t['k'] == 'slice': n = 'Vec<%s>' % n[1:-1]
        if n == 'Vec<Vec<u8>>' and False: pass
        if n == 'Vec<&[u8]>': n = 'Vec<Vec<u8>>'
        r = T('enc', n, v)
        ENCLEN[r] = self.enclen(ti, v)
        return r
    def typed(self, v, ti):
        t = self.p.types[ti]
        if t['k'] == 'adt' and t['kind'] == 'enum': DISCR[v] = tuple(x['name'] for x in t['variants'])
        if t['k'] == 'adt' and t['local'] and t['kind'] == 'struct':
            for f, ft in t['variants'][0]['fields']:
                x = self.p.types[ft]
                if x and x['k'] == 'int':
                    NUMTERMS.add(T('fld', v, f))
                    if x['bits'] < 64: self.width(T('fld', v, f), x['bits'])
    @model('!solana_program::borsh1::try_from_slice_unchecked', '~.*borsh\\w*::try_from_slice_unchecked$')
    def tryunchecked(self, st, ref, args):
        ti = ref['targs'][0]; d = T('decp', short(self.p.tname(ti)), self.bytesval(st, args[0]))
        self.typed(d, ti)
        return self.fallible(st, d, 'decode')
    def decode(self, st, ti, b, what='decode'):
        v = None
        n = short(self.p.tname(ti))
        if b.op == 'enc' and b.a[0] == n: v = b.a[1]
        if v is None:
            v = T('dec', n, b)
            self.typed(v, ti)
        e = st.fork()
        if isinstance(v, Term):
            l = self.enclen(ti, v)
            if not st.fact(eq(blen(b), l), True): return [(self.fail(e, what), ERR(T('err', what)))]
        return [(st, OK(v)), (self.fail(e, what), ERR(T('err', what)))]
    @model('!borsh::BorshDeserialize::try_from_slice', '!borsh::from_slice')
    def tryfromslice(self, st, ref, args):
        b = self.bytesval(st, args[0])
        return self.decode(st, ref['targs'][0], b)
    @model('!borsh::BorshDeserialize::deserialize')
    def deserialize(self, st, ref, args):
        l = self.ip.deref(args[0]); v = self.ip.read(st, l)
        b = self.bytesval(st, v); ti = ref['targs'][0]
        n = short(self.p.tname(ti))
        # the value fills the bytes, or bytes are left over
        whole = self.decode(st.fork(), ti, b)
        for s, r in whole:
            if isinstance(r, Agg) and r.v == 0: self.ip.write(s, l, Ptr(('const', lit(b'')), ()))
        d = T('decp', n, b); self.typed(d, ti)
        left = T('rest', d)
        if not st.fact(eq(blen(left), ZERO), False): return whole
        self.ip.write(st, l, Ptr(('const', left), ()))
        return whole + [(st, OK(d))]
    @model('!borsh::BorshDeserialize::deserialize_reader')
    def deserialize_reader(self, st, ref, args):
        if getattr(self, 'serdirect', None) != 'read': return None
        n = short(self.p.tname(ref['targs'][0]))
        k = st.cells.get(('rdn',), 0)
        e = st.fork()
        st.cells[('rdn',)] = k + 1
        return [(st, OK(T('rd', k, n))), (self.fail(e, 'decode'), ERR(T('err', 'decode')))]
    @model('!borsh::object_length')
    def objlen(self, st, ref, args):
        v = self.freeze(st, self.strip(st, args[0]))
        return self.fallible(st, self.enclen(self.targs(ref, 0), v), 'encode')
    @model('!borsh::to_vec')
    def tovec(self, st, ref, args):
        v = self.freeze(st, self.strip(st, args[0]))
        return self.fallible(st, self.enc(self.targs(ref, 0), v), 'encode')
    @model('!borsh::BorshSerialize::serialize')
    def serialize(self, st, ref, args):
        v = self.freeze(st, self.strip(st, args[0]))
        if getattr(self, 'serdirect', None) == 'write' and args[1] != Ptr(('w',), ()) and self.ip.deref(args[1]).cell != ('w',): return None
        if getattr(self, 'serdirect', None) == 'write':
            # field-by-field record of what a serializer writes
            n = short(self.p.tname(self.targs(ref, 0)))
            e = st.fork()
            st.cells[('serlog',)] = st.cells.get(('serlog',), ()) + ((v, n),)
            return [(st, OK()), (self.fail(e, 'write'), ERR(T('err', 'write')))]
        b = self.enc(self.targs(ref, 0), v)
        return self.writeto(st, args[1], self.targs(ref, 1), b)
    @model('!borsh::to_writer')
    def towriter(self, st, ref, args):
        v = self.freeze(st, self.strip(st, args[1]))
        j = [i for i, t in enumerate(ref['targs'])]
        # to_writer<T, W>(writer: W, value: &T)
        b = self.enc(self.targs(ref, 0), v)
        c = (self.ip.newcell(), 0); st.cells[c] = args[0]
        return self.writeto(st, Ptr(c, ()), self.targs(ref, 1), b)
    @model('std::io::Write::write_all')
    def writeall(self, st, ref, args):
        return self.writeto(st, args[0], self.targs(ref, 0), self.bytesval(st, args[1]))
    @model('std::io::Write::flush')
    def flush(self, st, ref, args): return [(st, OK())]
    def writeto(self, st, w, wt, b):
        """write the bytes b through a `&mut W`"""
        ip = self.ip
        loc = ip.deref(w)
        t = self.p.types[wt] if wt is not None and wt >= 0 else None
        while t and t['k'] == 'ref' and self.p.types[t['ty']]['k'] != 'slice':
            loc = ip.deref(ip.read(st, loc)); t = self.p.types[t['ty']]
        if t and t['k'] == 'ref':       # &mut [u8]
            tgt = ip.deref(ip.read(st, loc)); n = blen(b); l = ip.length(st, tgt)
            e = st.fork()
            out = []
            if st.fact(not_(lt(l, n)), True):
                ip.write(st, ip.subrange(tgt, ZERO, n), b)
                ip.write(st, loc, ip.subrange(tgt, n, l))
                out.append((st, OK()))
            return out + [(self.fail(e, 'write'), ERR(T('err', 'write')))]
        if t and t['k'] == 'adt' and t['path'].split('::')[-1] == 'Vec' or t is None:
            v = ip.read(st, loc)
            ip.write(st, loc, cat(tobytes(self.freeze(st, v)), b))
            e = st.fork()
            return [(st, OK()), (self.fail(e, 'write'), ERR(T('err', 'write')))]
        if t and t['k'] == 'adt' and getattr(self, 'serdirect', None) is not None:
            v = ip.read(st, loc); ip.write(st, loc, cat(tobytes(self.freeze(st, v)), b)); return [(st, OK())]
        ip.write(st, loc, ip.fresh('written'))
        return self.fallible(st, UNIT, 'write')
    @model('bytemuck::bytes_of', 'bytemuck::bytes_of_mut')
    def bytesof(self, st, ref, args):
        l = self.ip.deref(args[0]); n = self.p.tname(ref['targs'][0])
        if ispubkey(self.targ(ref, 0)): return [(st, Ptr(l.cell, l.path + (('pkb',),)))]
        return [(st, Ptr(l.cell, l.path + (('bytesof', n),)))]
    @model('bytemuck::try_from_bytes', 'bytemuck::try_from_bytes_mut', 'bytemuck::from_bytes', 'bytemuck::from_bytes_mut', 'bytemuck::try_pod_read_unaligned', 'bytemuck::pod_read_unaligned')
    def frombytes(self, st, ref, args):
        l = self.ip.deref(args[0]); n = self.p.tname(ref['targs'][0]); sz = self.targ(ref, 0).get('size')
        tr = 'try' in ref['path']
        e = st.fork()
        if not st.fact(eq(self.ip.length(st, l), I(sz)), True): 
            if not tr: raise Diverge()
            return [(self.fail(e, 'decode'), ERR(T('err', 'pod')))]
        p = Ptr(l.cell, l.path + (('pod', n),))
        if 'unaligned' in ref['path']: p = self.ip.read(st, p)
        if not tr: return [(st, p)]
        return [(st, OK(p)), (self.fail(e, 'decode'), ERR(T('err', 'pod')))]
    @model('bincode::deserialize', '~.*bincode.*::deserialize.*')
    def bincode(self, st, ref, args):
        t = self.targs(ref, len(ref['targs']) - 1)
        ty = self.p.types[t]
        v = T('bincode', short(ty['s']), self.bytesval(st, args[0]))
        if ty['k'] == 'adt' and ty['kind'] == 'enum': DISCR[v] = tuple(x['name'] for x in ty['variants'])
        return self.fallible(st, v, 'decode')

    # ------------------------------------------------------------ instructions and cross-program calls
    def meta(self, k, s, w):
        v = {'pubkey': k, 'is_signer': s, 'is_writable': w}
        return Agg(0, tuple(v[n] for n in self.amf))
    def instruction(self, prog, metas, data):
        v = {'program_id': prog, 'accounts': Arr(tuple(metas)), 'data': data}
        return Agg(0, tuple(v[n] for n in self.ixf))
    @model('~.*AccountMeta::new$', '~.*AccountMeta::new_readonly$')
    def accountmeta(self, st, ref, args):
        return [(st, self.meta(self.strip(st, args[0]), args[1], B(ref['path'].endswith('::new'))))]
    @model('~.*Instruction::new_with_(bytes|borsh|bincode)$')
    def ixnew(self, st, ref, args):
        m = ref['path'].rsplit('_', 1)[1]
        pg = self.strip(st, args[0])
        if m == 'bytes': d = self.bytesval(st, args[1])
        elif m == 'borsh': d = self.enc(self.targs(ref, 0), self.freeze(st, self.strip(st, args[1])))
        else:
            metas = self.strip(st, args[2]); t = self.targ(ref, 0)
            d = self.sysdata(t, self.strip(st, args[1]), metas, st) if t and t['k'] == 'adt' and t['path'].endswith('SystemInstruction') else None
            if d is None: return None
        metas = args[2]
        v = {'program_id': pg, 'accounts': metas, 'data': d}
        return [(st, Agg(0, tuple(v[n] for n in self.ixf)))]
    def sysdata(self, t, v, metas, st):
        """the system instruction that an encoded SystemInstruction value with these accounts is"""
        if not isinstance(v, Agg) or not isinstance(metas, Arr): return None
        var = t['variants'][v.v]; f = dict(zip([x[0] for x in var['fields']], v.fs))
        keys = []
        for x in metas.xs:
            x = self.strip(st, x)
            if not isinstance(x, Agg): return None
            keys.append(self.strip(st, dict(zip(self.amf, x.fs))['pubkey']))
        n = var['name']
        if n == 'Transfer' and len(keys) == 2: return T('sysix', 'transfer', keys[0], keys[1], f['lamports'])
        if n == 'CreateAccount' and len(keys) == 2: return T('sysix', 'create_account', keys[0], keys[1], f['lamports'], f['space'], self.strip(st, f['owner']))
        if n == 'Allocate' and len(keys) == 1: return T('sysix', 'allocate', keys[0], f['space'])
        if n == 'Assign' and len(keys) == 1: return T('sysix', 'assign', keys[0], self.strip(st, f['owner']))
        return None
    @model('~.*system_instruction::(\\w+)$')
    def sysix(self, st, ref, args):
        m = ref['path'].rsplit('::', 1)[1]
        a = [self.strip(st, x) for x in args]
        if m == 'transfer': metas = [(a[0], 1, 1), (a[1], 0, 1)]
        elif m == 'create_account': metas = [(a[0], 1, 1), (a[1], 1, 1)]
        elif m in ('allocate', 'assign'): metas = [(a[0], 1, 1)]
        else: return None
        return [(st, self.instruction(SYS, [self.meta(k, B(s), B(w)) for k, s, w in metas], T('sysix', m, *a)))]
    @model('~solana_program::program::invoke(_signed)?(_unchecked)?$', '~solana_cpi::invoke(_signed)?(_unchecked)?$')
    def invoke(self, st, ref, args):
        ix = self.strip(st, args[0])
        infos = self.strip(st, args[1])
        if isinstance(infos, Term) and infos.op in ('accounts', 'sub'):
            l = blen(infos)
            k = next((k for k in range(65) if l is I(k) or st.decide(eq(l, I(k))) is True), None)
            if k is not None: infos = Arr(tuple(self.elem(infos, I(i)) for i in range(k)))
        signed = 'signed' in ref['path']
        seeds = self.freeze(st, self.strip(st, args[2])) if signed else Arr(())
        e = st.fork()
        err = (self.fail(e, 'cpi'), ERR(T('err', 'cpi')))
        if not isinstance(ix, Agg) or not isinstance(infos, Arr):
            st.ev += (('cpi?', self.freeze(st, ix)),); self.havoc_all(st)
            return [(st, OK()), err]
        d = dict(zip(self.ixf, ix.fs))
        prog = self.norm(st, self.strip(st, d['program_id'])); data = tobytes(self.freeze(st, d['data']))
        idx = []
        for x in infos.xs:
            j = self.acct(st, x)
            idx.append(j if j is not None else -1)
        metas = self.strip(st, d['accounts'])
        if not isinstance(metas, Arr):
            st.ev += (('cpi?', self.freeze(st, ix)),); self.havoc_all(st)
            return [(st, OK()), err]
        ms = []
        for x in metas.xs:
            x = self.strip(st, x)
            f = dict(zip(self.amf, x.fs)) if isinstance(x, Agg) else {'pubkey': T('?'), 'is_signer': T('?'), 'is_writable': T('?')}
            ms.append((self.strip(st, f['pubkey']), f['is_signer'], f['is_writable']))
        sg = []
        for s in (seeds.xs if isinstance(seeds, Arr) else (seeds,)):
            sg.append(self.cpa(self.flat(s), self.dlp))
        if not isinstance(seeds, Arr): sg = [T('signers?', seeds)]
        res = []
        ok = True
        for k, s, w in ms:
            j = self.resolve_key(st, k, idx)
            res.append(j)
            if j is None: continue
            nk = self.norm(st, T('key', j))
            if s is TRUE and not any(self.norm(st, x) is nk for x in sg) and not (nk.op in ('pda',) and any(x is nk for x in sg)):
                ok = ok and st.fact(T('is_signer', j), True)
            if w is TRUE: ok = ok and st.fact(T('is_writable', j), True)
        if not ok: return [err]
        snap = tuple((j, self.ip.read(st, Ptr(('lam', j), ())), tobytes(self.freeze(st, self.ip.read(st, Ptr(('data', j), ())))), self.ip.read(st, Ptr(('owner', j), ()))) for j in idx if j >= 0)
        st.ev += (('cpi', prog, tuple(ms), data, tuple(idx), tuple(sg), snap, tuple(res)),)
        if prog is SYS and data.op == 'sysix':
            return self.system(st, data, ms, res, sg, err)
        # unknown program: it may change every writable account that it owns and credit every other one
        n = len(st.ev)
        named = {j for j in res if j is not None}
        for (k, s, w), j in zip(ms, res):
            if w is FALSE: continue
            # the runtime takes the account with this key among those passed: any of those not matched otherwise
            for j in [j] if j is not None else [i for i in idx if i >= 0 and i not in named]: self.havoc(st, j, n, prog)
        if any(j < 0 for j in idx) and None in res: st.ev += (('unresolved', T('cpi')),)
        return [(st, OK()), err]
    def havoc(self, st, j, n, prog):
        own = self.norm(st, self.ip.read(st, Ptr(('owner', j), ())))
        st.cells[('lam', j)] = T('lamx', j, n)
        if own is self.dlp and prog is not self.dlp: return
        st.cells[('data', j)] = T('datax', j, n); st.cells[('owner', j)] = T('ownerx', j, n)
    def havoc_all(self, st):
        n = len(st.ev)
        for j in range(self.nacc): self.havoc(st, j, n, self.dlp)
    def resolve_key(self, st, k, idx):
        if isinstance(k, Term) and k.op == 'key' and k.a[0] in idx: return k.a[0]
        nk = self.norm(st, k)
        for j in idx:
            if j >= 0 and self.norm(st, T('key', j)) is nk: return j
        return None
    def system(self, st, data, ms, res, sg, err):
        """effects of the system program, with what it enforces as facts"""
        if any(j is None for j in res):
            st.ev += (('unresolved', data),); self.havoc_all(st); return [(st, OK()), err]
        name, a = data.a[0], data.a[1:]
        L = lambda j: self.ip.read(st, Ptr(('lam', j), ()))
        D = lambda j: self.ip.read(st, Ptr(('data', j), ()))
        O = lambda j: self.ip.read(st, Ptr(('owner', j), ()))
        def setlam(j, v): st.cells[('lam', j)] = v
        def req(c): return st.fact(c, True)
        ok = True
        if name in ('transfer', 'create_account'):
            f, t = res; amt = a[2]
            if name == 'create_account':
                ok = req(eq(L(t), ZERO)) and req(eq(blen(D(t)), ZERO)) and req(eq(O(t), SYS))
            if ok and f != t and amt is not ZERO:
                ok = req(not_(lt(L(f), amt)))
                # the system program debits only system-owned accounts without data
                if amt is not ZERO: ok = ok and req(eq(O(f), SYS)) and req(eq(blen(D(f)), ZERO))
                if ok:
                    setlam(f, sub(L(f), amt)); setlam(t, add(L(t), amt) if not (name == 'create_account') else amt)
            if ok and name == 'create_account':
                st.cells[('data', t)] = T('zero', a[3]) if a[3] is not ZERO else lit(b''); st.cells[('owner', t)] = a[4]
        elif name == 'allocate':
            j, = res
            ok = req(eq(O(j), SYS)) and req(eq(blen(D(j)), ZERO))
            st.cells[('data', j)] = T('zero', a[1]) if a[1] is not ZERO else lit(b'')
        elif name == 'assign':
            j, = res
            if O(j) is not a[1]:
                ok = req(eq(O(j), SYS)) if a[1] is not SYS else True
                st.cells[('owner', j)] = a[1]
        return ([(st, OK())] if ok else []) + [err]

    # ------------------------------------------------------------ equality modulo facts
    def norm(self, st, t):
        """canonical form of a term under the equalities of the state"""
        key = len(st.facts)
        c = getattr(self, '_nc', None)
        sig = (id(st.facts), key)
        if c is None or c[0] != sig: self._nc = c = (sig, self.rewrites(st), {})
        return self.rw(t, c[1], c[2], st)
    def rewrites(self, st):
        rw = {}
        for f, v in st.facts.items():
            if v and f.op == 'eq':
                a, b = f.a
                if not isinstance(a, Term) or not isinstance(b, Term): continue
                if (isnum(a) or isnum(b)) : continue
                a, b = self.chase(rw, a), self.chase(rw, b)
                if a is b: continue
                if self.rank(a) > self.rank(b): a, b = b, a
                if not self.occurs(rw, b, a, set()): rw[b] = a
        return rw
    def occurs(self, rw, b, t, seen):
        """b is (after the rewrites) a proper part of t"""
        if t is b: return True
        if not isinstance(t, (Term, Agg, Arr)) or t in seen: return False
        seen.add(t)
        if isinstance(t, Term):
            if t in rw and self.occurs(rw, b, rw[t], seen): return True
            xs = t.a
            if t.op == 'lin': xs = tuple(x for x, _ in t.a[1])
        else: xs = t.fs if isinstance(t, Agg) else t.xs
        return any(self.occurs(rw, b, x, seen) for x in xs)
    def chase(self, rw, t):
        while t in rw: t = rw[t]
        return t
    def rank(self, t):
        return ({'pk': 0, 'lit': 0, 'int': 0, 'pda': 1, 'key': 2, 'fld': 3, 'owner0': 4}.get(t.op, 3), t.n)
    def rw(self, t, rw, memo, st):
        if isinstance(t, Agg): return Agg(t.v, tuple(self.rw(x, rw, memo, st) for x in t.fs))
        if isinstance(t, Arr): return Arr(tuple(self.rw(x, rw, memo, st) for x in t.xs))
        if not isinstance(t, Term): return t
        if t in memo: return memo[t]
        memo[t] = t
        u = self.chase(rw, t)
        if u.a and u.op not in ('int', 'lit', 'pk', 'key', 'lam0', 'data0', 'owner0'):
            if u.op == 'lin':
                r = I(u.a[0])
                for x, c in u.a[1]: r = add(r, scale(self.rw(x, rw, memo, st), c))
                u = r
            else:
                na = tuple(self.rw(x, rw, memo, st) if isinstance(x, (Term, Agg, Arr)) else x for x in u.a)
                if na != u.a: u = self.chase(rw, self.rebuild(u, na))
        memo[t] = u
        return u
    def rebuild(self, u, a):
        o = u.op
        if o == 'cat': return cat(*a)
        if o == 'sub': return bsub(a[0], a[1], a[2])
        if o == 'pkb': return pkb(a[0])
        if o == 'pkof': return pkof(a[0])
        if o == 'le': return le(*a)
        if o == 'eq': return eq(*a)
        if o == 'lt': return lt(*a)
        if o == 'not': return not_(a[0])
        if o == 'and': return FALSE if FALSE in a else a[0] if a[1] is TRUE else a[1] if a[0] is TRUE else T(o, *a)
        if o == 'or': return TRUE if TRUE in a else a[0] if a[1] is FALSE else a[1] if a[0] is FALSE else T(o, *a)
        if o == 'pda': return T(o, *a)
        if o == 'zero' and a[0] is ZERO: return lit(b'')
        if o == 'at': return at(*a)
        if o == 'flat' : return self.flat(a[0])
        if o == 'in': return self.member(a[1], a[0]) if a[1].op in ('emptyset', 'ins', 'rem') else T(o, *a)
        if o == 'div': return div(*a)
        r = T(o, *a)
        if u in ENCLEN: ENCLEN[r] = ENCLEN[u]
        if u in WIDTH: WIDTH[r] = WIDTH[u]
        if u in NUMTERMS: NUMTERMS.add(r)
        return r

    # ------------------------------------------------------------ iterators
    @model('std::iter::IntoIterator::into_iter')
    def intoiter(self, st, ref, args):
        t = self.targ(ref, 0); v = args[0]
        if isinstance(v, Iter): return [(st, v)]
        if t and t['k'] == 'ref' or isinstance(v, Ptr):
            l = self.ip.deref(v)
            c = self.strip(st, v)
            if isinstance(c, Term) and c.op in ('emptyset', 'ins', 'rem') or (t and 'BTreeSet' in t['s']): return [(st, Iter('opq', (T('members', self.freeze(st, c)), 'ref')))]
            if isinstance(c, Iter): return [(st, Iter('ref', (v,)))]
            if isinstance(c, Agg): return self.optiter(st, c, True, l)
            return [(st, Iter('slice', (l, ZERO, self.ip.length(st, l), 'ref')))]
        if isinstance(v, Agg) and t and t['k'] == 'adt' and 'Range' in t['path']: return [(st, self.range_iter(v, t))]
        if isinstance(v, Agg): return self.optiter(st, v, False, None)
        if isinstance(v, Term) and (v.op in ('emptyset', 'ins', 'rem') or t and 'BTreeSet' in t['s']): return [(st, Iter('opq', (T('members', v), 'val')))]
        if isinstance(v, (Arr, Term)):
            c = (self.ip.newcell(), 0); st.cells[c] = v
            return [(st, Iter('slice', (Ptr(c, ()), ZERO, blen(v), 'val')))]
        return None
    def optiter(self, st, v, byref, l):
        xs = v.fs if v.v == 1 and len(v.fs) == 1 else ()
        if byref and xs: xs = (Ptr(l.cell, l.path + (('v', 0, '0', ('0',), 1, 'Some'),)),)
        return [(st, Iter('list', (xs, 0)))]
    def range_iter(self, v, t):
        n = t['path'].split('::')[-1]
        if n == 'Range': return Iter('range', (v.fs[0], v.fs[1]))
        if n == 'RangeInclusive': return Iter('range', (v.fs[0], add(v.fs[1], ONE)))
        return Iter('range', (v.fs[0], None))
    def as_iter(self, v, t=None):
        if isinstance(v, Iter): return v
        if isinstance(v, Agg) and t and t['k'] == 'adt' and 'Range' in t['path']: return self.range_iter(v, t)
        return None
    def step(self, st, it):
        """[(state, iterator', item or DONE)]"""
        k, a = it.k, it.a
        ip = self.ip
        if k == 'list':
            xs, i = a
            return [(st, Iter('list', (xs, i + 1)), xs[i])] if i < len(xs) else [(st, it, DONE)]
        if k == 'slice':
            p, lo, hi, mode = a
            y, n = self.fork2(st, lt(lo, hi))
            out = []
            if y:
                item = ip.index(p, lo)
                if mode == 'val': item = ip.read(y, item)
                out.append((y, Iter('slice', (p, add(lo, ONE), hi, mode)), item))
            if n: out.append((n, it, DONE))
            return out
        if k == 'range':
            lo, hi = a
            if hi is None: return [(st, Iter('range', (add(lo, ONE), hi)), lo)]
            y, n = self.fork2(st, lt(lo, hi))
            return ([(y, Iter('range', (add(lo, ONE), hi)), lo)] if y else []) + ([(n, it, DONE)] if n else [])
        if k == 'ref':
            out = []
            l = self.ip.deref(a[0])
            return [(s, it, x) for s, x in self.nexts(st, l)]
        if k in ('map', 'enum', 'copied', 'filter', 'filter_map', 'inspect', 'take_while', 'skip_while', 'map_while'):
            out = []
            for s, sub_, x in self.step(st, a[0]):
                if x is DONE: out.append((s, Iter(k, (sub_,) + a[1:]), DONE)); continue
                if k == 'enum':
                    n = a[1] if isinstance(a[1], Term) else I(a[1])
                    out.append((s, Iter(k, (sub_, add(n, ONE))), Agg(0, (n, x))))
                elif k == 'copied': out.append((s, Iter(k, (sub_,)), ip.read(s, ip.deref(x))))
                elif k == 'map':
                    for s2, v in ip.call_value(s, a[1], (x,)): out.append((s2, Iter(k, (sub_, a[1])), v))
                elif k in ('filter', 'take_while', 'skip_while'):
                    c = (ip.newcell(), 0); s.cells[c] = x
                    for s2, v in ip.call_value(s, a[1], (Ptr(c, ()),)):
                        y, n = self.fork2(s2, v if isinstance(v, Term) else ip.fresh('b'))
                        keep, drop = (n, y) if k == 'skip_while' else (y, n)
                        if keep: out.append((keep, Iter('id', (sub_,)) if k == 'skip_while' else Iter(k, (sub_, a[1])), x))
                        if drop:
                            if k == 'take_while': out.append((drop, Iter('list', ((), 0)), DONE))
                            else: out += self.step(drop, Iter(k, (sub_, a[1])))
                elif k in ('filter_map', 'map_while'):
                    for s2, v in ip.call_value(s, a[1], (x,)):
                        if isinstance(v, Agg) and v.v == 1: out.append((s2, Iter(k, (sub_, a[1])), v.fs[0]))
                        elif isinstance(v, Agg): out += self.step(s2, Iter(k, (sub_, a[1]))) if k == 'filter_map' else [(s2, Iter('list', ((), 0)), DONE)]
                        else: raise Limit('filter_map')
                else:
                    c = (ip.newcell(), 0); s.cells[c] = x
                    for s2, v in ip.call_value(s, a[1], (Ptr(c, ()),)): out.append((s2, Iter(k, (sub_, a[1])), x))
            return out
        if k == 'peek':
            if a[1] is not None: return [(st, Iter('peek', (a[0], None)), a[1])]
            return [(s, Iter('peek', (i, None)), x) for s, i, x in self.step(st, a[0])]
        if k == 'id': return [(s, Iter('id', (i,)), x) for s, i, x in self.step(st, a[0])]
        if k == 'skip':
            n = a[1]
            if isint(n) and n.a[0] == 0: return self.step(st, a[0])
            if a[0].k == 'slice' and a[0].a[3] in ('ref', 'val'):
                p, lo, hi, mode = a[0].a
                y, no = self.fork2(st, not_(lt(sub(hi, lo), n)))
                return (self.step(y, Iter('slice', (p, add(lo, n), hi, mode))) if y else []) + ([(no, Iter('list', ((), 0)), DONE)] if no else [])
            if not isint(n): raise Limit('skip')
            out = []
            for s, i, x in self.step(st, a[0]):
                if x is DONE: out.append((s, Iter('skip', (i, ZERO)), DONE))
                else: out += self.step(s, Iter('skip', (i, I(n.a[0] - 1))))
            return out
        if k == 'take':
            n = a[1]
            y, no = self.fork2(st, not_(eq(n, ZERO)))
            out = [(no, it, DONE)] if no else []
            if y: out += [(s, Iter('take', (i, sub(n, ONE))), x) for s, i, x in self.step(y, a[0])]
            return out
        if k == 'rev':
            i = a[0]
            if i.k == 'slice':
                p, lo, hi, mode = i.a
                y, n = self.fork2(st, lt(lo, hi))
                out = []
                if y:
                    item = ip.index(p, sub(hi, ONE))
                    if mode == 'val': item = ip.read(y, item)
                    out.append((y, Iter('rev', (Iter('slice', (p, lo, sub(hi, ONE), mode)),)), item))
                return out + ([(n, it, DONE)] if n else [])
            if i.k == 'range':
                y, n = self.fork2(st, lt(i.a[0], i.a[1]))
                return ([(y, Iter('rev', (Iter('range', (i.a[0], sub(i.a[1], ONE))),)), sub(i.a[1], ONE))] if y else []) + ([(n, it, DONE)] if n else [])
            # materialise
            out = []
            for s, xs in self.drain(st, i): out += self.step(s, Iter('list', (tuple(reversed(xs)), 0)))
            return out
        if k == 'zip':
            out = []
            for s, i, x in self.step(st, a[0]):
                if x is DONE: out.append((s, Iter('zip', (i, a[1])), DONE)); continue
                for s2, j, y in self.step(s, a[1]):
                    out.append((s2, Iter('zip', (i, j)), DONE if y is DONE else Agg(0, (x, y))))
            return out
        if k == 'chain':
            out = []
            for s, i, x in self.step(st, a[0]):
                if x is DONE: out += self.step(s, a[1])
                else: out.append((s, Iter('chain', (i, a[1])), x))
            return out
        if k == 'flat':
            cur, outer, f = a
            out = []
            if cur is not None:
                for s, i, x in self.step(st, cur):
                    if x is DONE: out += self.step(s, Iter('flat', (None, outer, f)))
                    else: out.append((s, Iter('flat', (i, outer, f)), x))
                return out
            for s, o, x in self.step(st, outer):
                if x is DONE: out.append((s, Iter('flat', (None, o, f)), DONE)); continue
                rs = ip.call_value(s, f, (x,)) if f is not None else [(s, x)]
                for s2, v in rs:
                    for s3, inner in self.intoiter(s2, {'targs': [-1], 'path': '', 'full': ''}, [v]) or []:
                        out += self.step(s3, Iter('flat', (inner, o, f)))
            return out
        if k == 'chunks':
            p, lo, hi, n = a
            y, no = self.fork2(st, lt(lo, hi))
            out = []
            if y:
                y2, n2 = self.fork2(y, not_(lt(hi, add(lo, n))))
                if y2: out.append((y2, Iter('chunks', (p, add(lo, n), hi, n)), ip.subrange(p, lo, add(lo, n))))
                if n2: out.append((n2, Iter('chunks', (p, hi, hi, n)), ip.subrange(p, lo, hi)))
            return out + ([(no, it, DONE)] if no else [])
        raise Limit('iterator %s' % k)
    def symbolic(self, st, it):
        """the iterator over a sequence of unknown length at the bottom of a chain, if any"""
        if it.k == 'slice':
            n = sub(it.a[2], it.a[1])
            if isint(n) and n.a[0] <= LONG: return None
            v = self.ip.read(st, it.a[0])
            if isinstance(v, Term) and v.op == 'accounts': return None
            return it
        if it.k == 'opq': return it
        if it.k == 'range': return it if it.a[1] is not None and not (isint(sub(it.a[1], it.a[0])) and sub(it.a[1], it.a[0]).a[0] <= LONG) else None
        if it.k == 'take': return None if isint(it.a[1]) and it.a[1].a[0] <= LONG else self.symbolic(st, it.a[0])
        if it.k == 'zip':
            for x, y in (it.a, it.a[::-1]):
                if endless(x): return self.symbolic(st, y)
            a, b = self.symbolic(st, it.a[0]), self.symbolic(st, it.a[1])
            return a if a is not None and b is not None else None
        if it.k in ('map', 'copied', 'enum', 'filter', 'filter_map', 'inspect', 'id') or it.k == 'peek' and it.a[1] is None: return self.symbolic(st, it.a[0])
        return None
    def count(self, it):
        if it.k == 'slice': return sub(it.a[2], it.a[1])
        if it.k == 'opq': return T('card', self.unseq(it.a[0]))
        if it.k == 'range': return sub(it.a[1], it.a[0])
        if it.k == 'take': return self.least(self.count(it.a[0]), it.a[1])
        if it.k == 'zip':
            for x, y in (it.a, it.a[::-1]):
                if endless(x): return self.count(y)
            a, b = self.count(it.a[0]), self.count(it.a[1])
            return self.least(a, b)
        return self.count(it.a[0])
    def least(self, a, b):
        if isint(a) and isint(b): return min(a, b, key=lambda t: t.a[0])
        return a if a is b else T('min', a, b)
    def unseq(self, t):
        while isinstance(t, Term) and t.op in ('members', 'collected', 'setof'): t = t.a[0]
        return t
    def nexts(self, st, loc):
        """advance the iterator stored at loc; [(state, item or DONE)]"""
        v = self.ip.read(st, loc)
        while isinstance(v, Ptr): loc = v; v = self.ip.read(st, v)
        if isinstance(v, Agg): v = Iter('range', (v.fs[0], v.fs[1]))
        if isinstance(v, Term): v = Iter('opq', (v, 'val'))
        if not isinstance(v, Iter): raise Limit('next on %s' % show(v)[:60])
        if v.k == 'gen':
            if v.a[0][5] == self.ip.site_: return self.gen_next(st, loc, v)
            # advanced from a second place: nothing is known about what is left
            z = st.fork(); self.ip.write(z, loc, Iter('list', ((), 0)))
            return [(z, DONE), (st, self.ip.fresh('item'))]
        if self.symbolic(st, v) is not None: return self.gen_start(st, loc, v)
        out = []
        for s, it, x in self.step(st, v):
            self.ip.write(s, loc, it)
            out.append((s, x))
        return out
    def gen_start(self, st, loc, v, n=None):
        """loop over a sequence of unknown length: analyse one generic iteration, then summarise"""
        out = []
        if n is None: n = self.count(v)
        if n.op == 'min':
            # which of the two sequences is the shorter one
            y, no = self.fork2(st, lt(n.a[0], n.a[1]))
            if y: out += self.gen_start(y, loc, v, n.a[0])
            if no: out += self.gen_start(no, loc, v, n.a[1])
            return out
        z = st.fork()
        b = self.symbolic(st, v)
        if z.fact(eq(n, ZERO), True):
            self.ip.write(z, loc, Iter('list', ((), 0))); out.append((z, DONE))
        if not st.fact(not_(eq(n, ZERO)), True): return out
        snap, ix = self.loop_begin(st, self.ip.site_)
        if not st.fact(lt(ix, n), True): return out
        for s, _, x in self.step(st, self.rebase(v, ix)):
            if x is DONE:
                self.ip.write(s, loc, Iter('gen', (snap, b, ix, n))); out += self.gen_next(s, loc, self.ip.read(s, loc)); continue
            self.ip.write(s, loc, Iter('gen', (snap, b, ix, n)))
            out.append((s, x))
        return out
    def rebase(self, v, ix):
        """the iterator restricted to its generic element, number ix"""
        if v.k == 'slice': return Iter('slice', (v.a[0], add(v.a[1], ix), add(add(v.a[1], ix), ONE), v.a[3]))
        if v.k == 'opq':
            e = T('any', v.a[0])
            return Iter('list', ((Ptr(('const', e), ()) if v.a[1] == 'ref' else e,), 0))
        if v.k == 'range': return Iter('list', ((add(v.a[0], ix),), 0))
        if v.k == 'take': return self.rebase(v.a[0], ix)
        if v.k == 'zip': return Iter('zip', (self.rebase(v.a[0], ix), self.rebase(v.a[1], ix)))
        if v.k == 'enum': return Iter('enum', (self.rebase(v.a[0], ix), add(v.a[1] if isinstance(v.a[1], Term) else I(v.a[1]), ix)))
        return Iter(v.k, (self.rebase(v.a[0], ix),) + v.a[1:])
    def gen_next(self, st, loc, v):
        b, ix, n = v.a[1], v.a[2], v.a[3]
        whole = b.k == 'slice' and b.a[1] is ZERO and self.norm(st, sub(n, b.a[2])) is ZERO
        seq = self.freeze(st, self.ip.read(st, b.a[0])) if whole else None
        out = []
        for s in self.loop_end(st, v.a[0], lambda it: seq if seq is not None else self.seqof(st, it, ix, n), ix, n, {loc.cell}, v.a[0][5]):
            self.ip.write(s, loc, Iter('list', ((), 0)))
            out.append((s, DONE))
        return out
    def loop_begin(self, st, site):
        """enter a generic iteration; (snapshot of the state before it, index of the iteration)"""
        self.gen += 1
        ix = T('idx', st.cells.get(('idxn', 0), ZERO))
        NUMTERMS.add(ix)
        st.cells[('idxn', 0)] = add(st.cells.get(('idxn', 0), ZERO), ONE)
        snap = dict(st.cells)
        lv = {}
        for c in st.cells:
            f = self.ip.frf.get(c[0]) if isinstance(c[0], int) else None
            if f is not None and (f['id'], c[1]) in self.loopk and isbool(st.cells[c]): lv[c] = T('lv', f['id'], c[1], ix)
        for c, x in lv.items(): st.cells[c] = x
        return (tuple(sorted(snap.items(), key=lambda kv: repr(kv[0]))), st.ledger, st.ev, st.fails, tuple(lv.items()), site, self.gen), ix
    def seqof(self, st, item, ix, n):
        """the sequence whose element number ix the item is, if it has n elements"""
        f = self.freeze(st, item)
        if isinstance(f, Term) and f.op == 'at' and f.a[1] is ix and self.norm(st, blen(f.a[0])) is self.norm(st, n): return f.a[0]
        return T('opq', 'seq')
    def cellkey(self, c):
        if isinstance(c[0], str): return c
        f = self.ip.frf.get(c[0])
        return (f['id'], c[1]) if f is not None else ('heap', 0)
    def loop_break(self, st, site):
        """the loop is left in the middle: what its other iterations may have changed is unknown"""
        self.loopbrk.add(site)
        mod = self.loopmod.get(site)
        if not mod: return
        for c in list(st.cells):
            if self.cellkey(c) in mod and c[0] != 'idxn' and not isinstance(st.cells[c], Iter): st.cells[c] = T('loop', self.freeze(st, st.cells[c]))
    def loop_end(self, st, snap, seqf, ix, n, skip, site):
        """end of the generic iteration: what holds after all iterations. A path that changes nothing stands for "every iteration
        took it"; a path that sets a flag stands for "some iteration took it" (no other path may then set the flag differently).
        Anything else a path changes is summarised only if every path through the iteration changes it in the same way."""
        cells, led, ev, fl, lv, _, inst = snap
        old, lv = dict(cells), dict(lv)
        for c in [c for c in st.cells if c[0] in ('data', 'lam', 'owner')]:
            if c not in old: old[c] = self.init_cell(c)
        states = [st]
        for c, x in lv.items():
            nst = []
            for s in states:
                w = s.cells.get(c)
                if isinstance(w, Term) and w.op in ('or', 'and') and x in w.a:
                    o = w.a[0] if w.a[1] is x else w.a[1]
                    y, no = self.fork2(s, o)
                    if y: y.cells[c] = TRUE if w.op == 'or' else x; nst.append(y)
                    if no: no.cells[c] = x if w.op == 'or' else FALSE; nst.append(no)
                else: nst.append(s)
            states = nst
        for st in states:
            for c in list(st.cells):
                if c in skip or c[0] == 'idxn': continue
                w = st.cells[c]
                if isinstance(w, Term) and c in old and w is not old[c] and isinstance(c[0], int) and c[0] in self.ip.frf and len(c) == 2 and c[1] < len(self.ip.frf[c[0]]['locals']) and self.p.types[self.ip.frf[c[0]]['locals'][c[1]]]['k'] == 'bool':
                    d = st.decide(w)
                    if d is not None: w = st.cells[c] = TRUE if d else FALSE
                if c in lv:
                    f = self.ip.frf[c[0]]; key = (f['id'], c[1])
                    if w is lv[c]: st.cells[c] = old[c]; continue
                    if w not in self.loopk[key]: self.loopk[key] |= {w}; raise Restart()
                    st.cells[c] = w if self.loopk[key] == {w} and isint(w) else T('loop', w)
                    continue
                if c not in old: continue
                same = old[c] == w
                o = old[c]
                f = self.ip.frf.get(c[0]) if isinstance(c[0], int) else None
                if not same and f is not None and isbool(o) and self.p.types[f['locals'][c[1]]]['k'] == 'bool' and (f['id'], c[1]) not in self.loopk:
                    self.loopk[(f['id'], c[1])] = frozenset(); raise Restart()
                k = (site, self.cellkey(c))
                if k not in self.loopmix:
                    seen = self.loopv.setdefault((inst, c), [])
                    val = 'same' if same else w
                    if not any(x is val or x == val for x in seen):
                        seen.append(val)
                        if len(seen) > 1: self.loopmix.add(k); raise Restart()
                if same: continue
                if k[1] not in self.loopmod.setdefault(site, set()):
                    self.loopmod[site].add(k[1])
                    if site in self.loopbrk: raise Restart()
                d = sub(w, o) if isinstance(o, Term) and isinstance(w, Term) and (isint(o) or o in NUMTERMS) else None
                if k in self.loopmix: st.cells[c] = T('loop', self.freeze(st, w)) if not isinstance(w, Iter) else w
                elif isinstance(o, Arr) and isinstance(w, Arr) and w.xs[:len(o.xs)] == o.xs and len(w.xs) == len(o.xs) + 1:
                    st.cells[c] = self.joinseq([o, self.mapped(st, seqf(w.xs[-1]) or T('opq', 'seq'), w.xs[-1])])
                elif isinstance(w, Term) and w.op == 'updseq' and w.a[0] is o and w.a[1] is ix and self.norm(st, sub(n, blen(o))) is ZERO:
                    st.cells[c] = self.mapped(st, seqf(w.a[2]) or T('opq', 'seq'), w.a[2])      # every element is replaced
                elif d is not None and isint(d): st.cells[c] = add(o, scale(n, d.a[0]))
                elif isinstance(o, Iter) and isinstance(w, Iter): raise Limit('nested iteration')
                elif isinstance(o, Agg) and isinstance(w, Agg) and o.v != w.v and f is not None and 'Option<' in self.p.types[f['locals'][c[1]]]['s']: pass
                else: st.cells[c] = self.loopwrite(st, o, w, ix, n) or T('loop', self.freeze(st, w))
            still = st.ev == ev and all(c in skip or c[0] == 'idxn' or c not in old or st.cells[c] is old[c] or st.cells[c] == old[c] for c in st.cells)
            if st.ev != ev: st.ev += (('loop-effects',),)
            if st.ledger is not led: st.ledger = T('loop', st.ledger)
            for f, val in list(st.facts.items()):
                if still and val and f.op == 'eq' and all(isinstance(q, Term) and q.op == 'at' and q.a[1] is ix for q in f.a):
                    # every element agrees with its counterpart
                    st.fact(eq(*[self.first(st, q.a[0], n) for q in f.a]), True)
                if f.op == 'eq' and not val:
                    for e, k in (f.a, f.a[::-1]):
                        if isinstance(e, Term) and e.op == 'any': st.fact(self.member(self.unseq(e.a[0]), k), False)
        return states
    def first(self, st, t, n):
        """the first n bytes of t"""
        return t if self.norm(st, sub(n, blen(t))) is ZERO else bsub(t, ZERO, n)
    def loopwrite(self, st, o, w, ix, n):
        """bytes after a loop that stores, for each ix < n, one byte at lo + ix"""
        if not isinstance(w, (Term, Arr)) or not isinstance(o, (Term, Arr)): return None
        try: o, w = tobytes(o), tobytes(w)
        except Exception: return None
        if not isinstance(o, Term) or not isinstance(w, Term): return None
        ps = w.a if w.op == 'cat' else (w,)
        if ps[-1].op == 'byte' and isinstance(ps[-1].a[0], Term) and ps[-1].a[0].op == 'at' and ps[-1].a[0].a[1] is ix and (cat(*ps[:-1]) if len(ps) > 1 else T('lit', b'')) is o:
            return cat(o, self.first(st, ps[-1].a[0].a[0], n))      # one more byte of the same string in every iteration
        for x in (w.a if w.op == 'cat' else (w,)):
            if not (x.op == 'byte' or x.op == 'lit' or x.op == 'sub'): continue
            if w.op == 'cat':
                k = w.a.index(x); lo = ZERO
                for q in w.a[:k]: lo = add(lo, blen(q))
            else: lo = ZERO
            lo0 = sub(lo, ix)
            if contains(lo0, lambda t: t is ix) or bset(o, lo, add(lo, ONE), x) is not w: continue
            if x.op == 'byte':
                v = x.a[0]
                if not isinstance(v, Term) or v.op != 'at': continue
                src, i = v.a
            elif x.op == 'lit' and x.a[0] == b'\0':
                return bset(o, lo0, add(lo0, n), T('zero', n))
            elif x.op == 'sub': src, i = x.a[0], x.a[1]
            else: continue
            i0 = sub(i, ix)
            if contains(src, lambda t: t is ix) or contains(i0, lambda t: t is ix): continue
            l = blen(o)
            full = lo0 is ZERO and self.norm(st, n) is self.norm(st, l)
            y = bsub(src, i0, add(i0, n))
            if i0 is ZERO and self.norm(st, n) is self.norm(st, blen(src)): y = src
            return y if full else bset(o, lo0, add(lo0, n), y)
        return None
    def mapped(self, st, seq, item):
        """the sequence obtained by replacing each element by `item` (a value over the generic element)"""
        f = self.freeze(st, item)
        if isinstance(f, Term) and f.op == 'at' and f.a[0] is seq and f.a[1].op == 'idx': return seq
        return T('seqmap', seq, f)
    def drain(self, st, it):
        """[(state, tuple of all items)]; symbolic sequences yield (state, Term)"""
        b = self.symbolic(st, it)
        if it.k == 'chain':
            out = []
            for s, xs in self.drain(st, it.a[0]):
                for s2, ys in self.drain(s, it.a[1]):
                    if isinstance(xs, tuple) and isinstance(ys, tuple): out.append((s2, xs + ys)); continue
                    out.append((s2, self.joinseq([self.freeze(s2, Arr(z)) if isinstance(z, tuple) else z for z in (xs, ys)])))
            return out
        if it.k == 'opq': return [(st, T('collected', it.a[0]))]
        if b is not None and b.k != 'slice':
            if it.k in ('copied',) and it.a[0].k == 'opq': return [(st, T('collected', it.a[0].a[0]))]
            return [(st, T('opq', 'drained', it))]
        if b is not None:
            if it.k == 'slice': 
                v = self.freeze(st, self.ip.read(st, self.ip.subrange(b.a[0], b.a[1], b.a[2]) if b.a[1] is not ZERO or (b.a[0].path and b.a[0].path[-1][0] == 'rng') else b.a[0]))
                return [(st, v)]
            seq = self.freeze(st, self.ip.read(st, b.a[0]))
            out = []
            ev, led = st.ev, st.ledger
            rs = self.step(st, self.rebase(it, T('idx', len(st.ev))))
            rs = [(s, x) for s, _, x in rs if x is not DONE]
            if len(rs) == 1 and rs[0][0].ev == ev and rs[0][0].ledger is led and it.k != 'filter':
                s, x = rs[0]
                return [(s, self.mapped(s, seq, x))]
            return [(s, T('seqmap?', seq, self.freeze(s, x))) for s, x in rs] or [(st, Arr(()))]
        out, work = [], [(st, it, ())]
        while work:
            s, i, xs = work.pop()
            if len(xs) > 70: raise Limit('iterator length')
            for s2, i2, x in self.step(s, i):
                if x is DONE: out.append((s2, xs))
                else: work.append((s2, i2, xs + (x,)))
        return out
    def run_map(self, st, xs, f, fin):
        work = [(st, ())]
        for x in xs:
            nw = []
            for s, acc in work:
                for s2, v in self.ip.call_value(s, f, (x,)): nw.append((s2, acc + (v,)))
            work = nw
        return [(s, fin(acc)) for s, acc in work]
    @model('~std::iter::Peekable::<.*>::(peek|next_if.*)$')
    def peek(self, st, ref, args):
        if not ref['path'].endswith('peek'): return None
        loc = self.ip.deref(args[0]); v = self.ip.read(st, loc)
        if not isinstance(v, Iter) or v.k != 'peek': return None
        if v.a[1] is None and self.symbolic(st, v.a[0]) is not None: raise Limit('peek into a sequence of unknown length')
        out = []
        for s, i, x in self.step(st, v) :
            i = i.a[0]
            self.ip.write(s, loc, Iter('peek', (i, x)))
            if x is DONE: out.append((s, NONE)); continue
            c = (self.ip.newcell(), 0); s.cells[c] = x
            out.append((s, SOME(Ptr(c, ()))))
        return out
    @model('~std::iter::(Iterator|DoubleEndedIterator|ExactSizeIterator)::(\\w+)$')
    def iterops(self, st, ref, args):
        m = ref['path'].rsplit('::', 1)[1]
        t = self.targ(ref, 0)
        ip = self.ip
        if m in ('next', 'next_back', 'nth'):
            loc = ip.deref(args[0])
            if m == 'next_back':
                v = ip.read(st, loc)
                return [(s, NONE if x is DONE else SOME(x)) for s, x in self.back(st, loc, v)]
            if m == 'nth':
                v = ip.read(st, loc)
                ip.write(st, loc, Iter('skip', (self.as_iter(v, t), args[1])))
            return [(s, NONE if x is DONE else SOME(x)) for s, x in self.nexts(st, loc)]
        v = args[0]
        it = self.as_iter(v, t)
        loc = None
        if it is None and isinstance(v, Ptr):
            loc = ip.deref(v)
            w = ip.read(st, loc)
            while isinstance(w, Ptr): loc = w; w = ip.read(st, w)
            it = self.as_iter(w, t)
            if it is None and isinstance(w, Agg): it = Iter('range', (w.fs[0], w.fs[1]))
        if it is None: return None
        byref = loc is not None and m not in ('any', 'all', 'find', 'position', 'try_for_each', 'try_fold', 'find_map')
        if m in ('map', 'filter', 'filter_map', 'take_while', 'skip_while', 'inspect', 'map_while'): return [(st, Iter(m, (it, args[1])))]
        if m in ('cloned', 'copied'): return [(st, Iter('copied', (it,)))]
        if m == 'enumerate': return [(st, Iter('enum', (it, 0)))]
        if m in ('skip', 'take'): return [(st, Iter(m, (it, args[1])))]
        if m == 'rev': return [(st, Iter('rev', (it,)))]
        if m == 'by_ref': return [(st, v)]
        if m in ('fuse', 'into_iter'): return [(st, it)]
        if m == 'peekable': return [(st, Iter('peek', (it, None)))]
        if m in ('zip', 'chain'):
            return [(s, Iter(m, (it, o))) for s, o in (self.intoiter(st, {'targs': ref['targs'][1:], 'path': '', 'full': ''}, [args[1]]) or [])]
        if m == 'flat_map': return [(st, Iter('flat', (None, it, args[1])))]
        if m == 'flatten': return [(st, Iter('flat', (None, it, None)))]
        if m in ('len', 'count'):
            if it.k == 'slice': return [(st, sub(it.a[2], it.a[1]))]
            return [(s, I(len(xs)) if isinstance(xs, tuple) and not isinstance(xs, (Arr, Term)) else blen(xs)) for s, xs in self.drain(st, it)]
        if m == 'size_hint': return None
        if m == 'collect': return self.collect(st, ref, it)
        if m in ('for_each', 'fold', 'any', 'all', 'find', 'position', 'find_map', 'try_for_each', 'try_fold', 'sum', 'product', 'last', 'max', 'min', 'partition', 'eq'):
            b = self.symbolic(st, it)
            if m == 'eq':
                out = []
                for s, o in (self.intoiter(st, {'targs': ref['targs'][1:], 'path': '', 'full': ''}, [args[1]]) or []):
                    for s2, xs in self.drain(s, it):
                        for s3, ys in self.drain(s2, o):
                            xs, ys = [self.freeze(s3, Arr(z)) if isinstance(z, tuple) else z for z in (xs, ys)]
                            out.append((s3, self.valeq(s3, xs, ys)))
                return out
            if b is not None: return self.consume_gen(st, ref, m, it, args)
            return self.consume(st, ref, m, it, args, t)
        return None
    def consume_gen(self, st, ref, m, it, args):
        """for_each, any, all, find, position, find_map, try_for_each over a sequence of unknown length"""
        ip = self.ip
        if m in ('fold', 'sum'): return self.fold_gen(st, m, it, args)
        if m not in ('for_each', 'any', 'all', 'find', 'position', 'find_map', 'try_for_each'): raise Limit('%s over a sequence of unknown length' % m)
        c = (ip.newcell(), 0); st.cells[c] = it; out = []
        loc = Ptr(c, ())
        end = {'for_each': UNIT, 'any': FALSE, 'all': TRUE}.get(m, NONE)
        if m == 'try_for_each': end = self.tryok(ref, UNIT)
        def go(s): return [(s2, end) for s2, _ in self.gen_next(s, loc, s.cells[c])]
        for s, x in self.gen_start(st, loc, it):
            if x is DONE: out.append((s, end)); continue
            y = x
            if m == 'find':
                d = (ip.newcell(), 0); s.cells[d] = x; y = Ptr(d, ())
            for s2, v in ip.call_value(s, args[1], (y,)):
                if m == 'for_each': out += go(s2)
                elif m in ('find_map', 'try_for_each'):
                    if not isinstance(v, Agg): raise Limit(m)
                    stop = v.v == 1 if m == 'find_map' else not self.is_good(ref, v)
                    out += [(s2, v)] if stop else go(s2)
                else:
                    h, g = self.fork2(s2, v if isinstance(v, Term) else ip.fresh('b'))
                    if m == 'all': h, g = g, h
                    if h: out.append((h, {'any': TRUE, 'all': FALSE, 'find': SOME(x), 'position': SOME(s.cells[c].a[2] if s.cells[c].k == 'gen' else T('idx', '?'))}[m]))
                    if g: out += go(g)
        return out
    def fold_gen(self, st, m, it, args):
        """fold and sum: the accumulator is a variable of a loop"""
        ip = self.ip
        c = (ip.newcell(), 0); st.cells[c] = it; loc = Ptr(c, ())
        d = (ip.newcell(), 0); st.cells[d] = args[1] if m == 'fold' else ZERO
        out = []
        for s, x in self.gen_start(st, loc, it):
            if x is DONE: out.append((s, s.cells[d])); continue
            if m == 'sum': rs = [(s, ip.arith(s, 'Add', s.cells[d], self.strip(s, x), 64)[0])]
            else: rs = ip.call_value(s, args[2], (s.cells[d], x))
            for s2, v in rs:
                s2.cells[d] = v
                out += [(s3, s3.cells[d]) for s3, _ in self.gen_next(s2, loc, s2.cells[c])]
        return out
    def back(self, st, loc, v):
        it = self.as_iter(v) or Iter('range', (v.fs[0], v.fs[1]))
        out = []
        for s, i, x in self.step(st, Iter('rev', (it,))):
            if i.k == 'rev': i = i.a[0]
            self.ip.write(s, loc, i); out.append((s, x))
        return out
    def consume(self, st, ref, m, it, args, t):
        ip = self.ip
        acc0 = args[1] if m in ('fold', 'try_fold') else None
        f = args[2] if m in ('fold', 'try_fold') else (args[1] if len(args) > 1 else None)
        out, work = [], [(st, it, acc0, 0)]
        while work:
            s, i, acc, n = work.pop()
            if n > 70: raise Limit('iterator length')
            for s2, i2, x in self.step(s, i):
                if x is DONE:
                    r = {'for_each': UNIT, 'any': FALSE, 'all': TRUE, 'find': NONE, 'position': NONE, 'find_map': NONE}.get(m, acc)
                    if m in ('last',): r = SOME(acc) if acc is not None else NONE
                    if m == 'sum': r = acc if acc is not None else ZERO
                    if m in ('try_for_each', 'try_fold'):
                        r = self.tryok(ref, UNIT if m == 'try_for_each' else acc)
                    out.append((s2, r)); continue
                if m == 'sum':
                    x = self.strip(s2, x)
                    if acc is None: work.append((s2, i2, x, n + 1))
                    else:
                        e, ok = ip.arith(s2, 'Add', acc, x, 64)
                        if not ok: s2.notes += (('wrap', 'Add', ip.site()),)
                        work.append((s2, i2, e, n + 1))
                    continue
                if m == 'last': work.append((s2, i2, x, n + 1)); continue
                if f is None: raise Limit('iterator %s' % m)
                if m in ('find',):
                    c = (ip.newcell(), 0); s2.cells[c] = x; fa = (Ptr(c, ()),)
                elif m in ('fold', 'try_fold'): fa = (acc, x)
                else: fa = (x,)
                for s3, v in ip.call_value(s2, f, fa):
                    if m == 'for_each': work.append((s3, i2, None, n + 1))
                    elif m == 'fold': work.append((s3, i2, v, n + 1))
                    elif m in ('any', 'all', 'find', 'position'):
                        y, no = self.fork2(s3, v if isinstance(v, Term) else ip.fresh('b'))
                        hit, go = (no, y) if m == 'all' else (y, no)
                        if hit: out.append((hit, {'any': TRUE, 'all': FALSE, 'find': SOME(x), 'position': SOME(I(n))}[m]))
                        if go: work.append((go, i2, None, n + 1))
                    elif m in ('try_for_each', 'try_fold'):
                        if not isinstance(v, Agg): raise Limit('try_for_each')
                        good = self.is_good(ref, v)
                        if good: work.append((s3, i2, v.fs[0] if v.fs else UNIT, n + 1))
                        else: out.append((s3, v))
                    elif m == 'find_map':
                        if isinstance(v, Agg) and v.v == 1: out.append((s3, v))
                        elif isinstance(v, Agg): work.append((s3, i2, None, n + 1))
                        else: raise Limit('find_map')
                    else: raise Limit('iterator %s' % m)
        return out
    def trytype(self, ref):
        t = self.p.types[ref['targs'][-1]] if ref['targs'] and ref['targs'][-1] >= 0 else None
        return 'Option' if t and t['k'] == 'adt' and t['path'].endswith('Option') else 'Result'
    def tryok(self, ref, v): return SOME(v) if self.trytype(ref) == 'Option' else OK(v)
    def is_good(self, ref, v): return v.v == 1 if self.trytype(ref) == 'Option' else v.v == 0
    def collect(self, st, ref, it):
        t = self.p.types[ref['targs'][1]] if len(ref['targs']) > 1 and ref['targs'][1] >= 0 else None
        wrap = None
        if t and t['k'] == 'adt' and t['path'].split('::')[-1] in ('Result', 'Option'):
            wrap = t['path'].split('::')[-1]; t = self.p.types[t['args'][0]]
        n = t['path'].split('::')[-1] if t and t['k'] == 'adt' else 'Vec'
        out = []
        if wrap and self.symbolic(st, it) is None:
            work = [(st, it, ())]
            while work:
                s, i, xs = work.pop()
                for s2, i2, x in self.step(s, i):
                    if x is DONE: out.append((s2, xs, None)); continue
                    if not isinstance(x, Agg): raise Limit('collect')
                    if x.v == (0 if wrap == 'Result' else 1): work.append((s2, i2, xs + (x.fs[0],)))
                    else: out.append((s2, None, x))
        else: out = [(s, xs, None) for s, xs in self.drain(st, it)]
        res = []
        for s, xs, bad in out:
            if bad is not None: res.append((s, bad)); continue
            v = xs if isinstance(xs, (Arr, Term)) else Arr(tuple(xs))
            if n in ('BTreeSet', 'HashSet'):
                if isinstance(v, Arr):
                    r = T('emptyset')
                    for x in v.xs: r = self.ins(r, self.freeze(s, x))
                    v = r
                else: v = T('setof', v)
            if wrap: v = OK(v) if wrap == 'Result' else SOME(v)
            res.append((s, v))
        return res
    @model('std::iter::Extend::extend')
    def extend(self, st, ref, args):
        out = []
        for s, it in (self.intoiter(st, {'targs': ref['targs'][-1:], 'path': '', 'full': ''}, [args[1]]) or []):
            for s2, xs in self.drain(s, it):
                l = self.ip.deref(args[0]); v = self.ip.read(s2, l)
                w = xs if isinstance(xs, (Arr, Term)) else Arr(tuple(self.ip.read(s2, x) if isinstance(x, Ptr) and 'u8' in ref['full'] else x for x in xs))
                tt = self.targ(ref, 0)
                if isinstance(v, Term) and tt and tt['k'] == 'adt' and tt['path'].endswith('Set'):
                    if not isinstance(w, Arr): v = T('union', v, self.freeze(s2, w))
                    for x in (w.xs if isinstance(w, Arr) else ()): v = self.ins(v, self.freeze(s2, x))
                    self.ip.write(s2, l, v)
                else: self.ip.write(s2, l, self.joinseq([v, self.freeze(s2, w)]) if isinstance(w, Term) else self.joinseq([v, w]))
                out.append((s2, UNIT))
        return out or None
    @model('std::iter::FromIterator::from_iter')
    def fromiter(self, st, ref, args):
        out = []
        for s, it in (self.intoiter(st, {'targs': ref['targs'][-1:], 'path': '', 'full': ''}, [args[0]]) or []):
            out += self.collect(s, {'targs': [-1, ref['targs'][0]], 'path': '', 'full': ''}, it)
        return out
    @model('std::iter::once', 'std::iter::empty', 'std::iter::repeat')
    def once(self, st, ref, args):
        if ref['path'].endswith('repeat'): return None
        return [(st, Iter('list', (tuple(args), 0)))]
