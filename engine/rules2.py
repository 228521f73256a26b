"""Rules about the program's interface: dispatch, builders, addresses, layouts, error codes."""
from rules import *

# ------------------------------------------------------------------ dispatch
MAIN = {  # accounts whose derived address identifies the handler
    'delegate': 'record metadata', 'commit_state': 'commit_state commit_record', 'commit_state_from_buffer': 'commit_state commit_record', 'finalize': 'commit_state commit_record',
    'undelegate': 'fees_vault commit_state', 'init_protocol_fees_vault': 'fees_vault', 'init_validator_fees_vault': 'v_vault', 'validator_claim_fees': 'fees_vault v_vault',
    'whitelist_validator_for_program': 'config', 'top_up_ephemeral_balance': 'balance', 'delegate_ephemeral_balance': 'balance', 'close_ephemeral_balance': 'balance',
    'protocol_claim_fees': 'fees_vault', 'close_validator_fees_vault': 'v_vault'}
EFFECT = {  # roles that some successful exit of the instruction changes
    'delegate': 'record metadata', 'commit_state': 'commit_state commit_record', 'commit_state_from_buffer': 'commit_state commit_record', 'finalize': 'delegated commit_state commit_record',
    'undelegate': 'record metadata', 'init_protocol_fees_vault': 'fees_vault', 'init_validator_fees_vault': 'v_vault', 'validator_claim_fees': 'fees_vault v_vault validator',
    'whitelist_validator_for_program': 'config', 'top_up_ephemeral_balance': 'balance payer', 'delegate_ephemeral_balance': 'balance', 'close_ephemeral_balance': 'balance payer',
    'protocol_claim_fees': 'fees_vault admin', 'close_validator_fees_vault': 'v_vault'}
ARGS = {'delegate': 'DelegateArgs', 'commit_state': 'CommitStateArgs', 'commit_state_from_buffer': 'CommitStateFromBufferArgs', 'validator_claim_fees': 'ValidatorClaimFeesArgs',
        'whitelist_validator_for_program': 'WhitelistValidatorForProgramArgs', 'top_up_ephemeral_balance': 'TopUpEphemeralBalanceArgs',
        'delegate_ephemeral_balance': 'DelegateEphemeralBalanceArgs'}
def oks(outs): return [s for s, v in outs if not (isinstance(v, Agg) and v.v == 1)]
@rule('E01', 'interpretation of the dispatch for every first tag byte, for short data and for an arbitrary program id; account count, argument type, main addresses and effects per tag')
def E01(c):
    an = c.an
    tags = {k: ix for ix, (k, _) in IX.items()}
    tail = T('sub', T('hdr'), ZERO, I(7))
    for b in range(256):
        if b in tags: continue
        ip, outs = an.run(cat(lit(bytes([b])), tail, T('rest')))
        c.needc(not oks(outs), 'instruction data starting with the unknown byte %d is rejected' % b, site=an.entry)
    for n in range(8):
        ip, outs = an.run(T('sub', T('hdr'), ZERO, I(n)) if n else lit(b''))
        c.needc(not oks(outs), 'instruction data of %d bytes is rejected' % n, site=an.entry)
    for ix, (k, roles) in IX.items():
        ip, outs = an.run(cat(lit(bytes([k] + [0] * 7)), T('rest')), pid=T('pid'))
        for s in oks(outs):
            c.needc(s.decide(eq(T('pid'), DLP)) is True, '%s: a success requires the delegation program\'s own id as program id' % ix, site=an.handler(ix))
        ip, outs = an.run(cat(lit(bytes([k] + [0] * 7)), T('rest')), pid=T('pk', bytes(31) + b'\1'))
        c.needc(not oks(outs), '%s: another program id is rejected' % ix, site=an.handler(ix))
        some, parsed = set(), False
        for x in c.exits(ix, alias=False):
            n = len(roles.split())
            c.need(x, x.ge(T('len', T('accounts')), I(n)) or x.yes(eq(T('len', T('accounts')), I(n))), 'tag %d (%s): takes %d accounts' % (k, ix, n))
            if not x.noop or ix in ('finalize',):
                for r in MAIN[ix].split():
                    c.need(x, at_role(x, r), 'tag %d (%s): works on the %s of that instruction' % (k, ix, r))
            some |= {nm(x, i) for i in x.changed()}
            if ix in ARGS:
                A = lambda t: t.op == 'args'
                found = {a.a[0] for v in list(x.st.facts) + list(x.cells.values()) + [e[3] for e in x.ev if e[0] == 'cpi'] for a in contains(v, A)}
                c.need(x, found <= {ARGS[ix]}, 'tag %d (%s): its data is parsed as %s (found %s)' % (k, ix, ARGS[ix], found), key='args type')
                parsed = parsed or found == {ARGS[ix]}
        c.needc(set(EFFECT[ix].split()) <= some, 'tag %d (%s): changes %s (found %s)' % (k, ix, EFFECT[ix], sorted(some)), site=an.handler(ix))
        if ix in ARGS: c.needc(parsed, 'tag %d (%s): uses its %s' % (k, ix, ARGS[ix]), site=an.handler(ix))
    ep = [r for r in an.p.roots if r.split('::')[-1] == 'entrypoint']
    c.needc(len(ep) == 1, 'the program has an entry point')
    for r in ep:
        f = an.p.fns[an.p.roots[r]]
        called = set()
        for b in f['blocks']:
            t = b[-1]
            if t[0] == 'call' and 'c' in t[1]: called.add(t[1]['c']['fn']['path'])
        c.needc(any('process_instruction' in s for s in called), 'the entry point runs process_instruction (calls %s)' % sorted(called)[:6], site=f)

# ------------------------------------------------------------------ builders
BUILDERS = {  # meaning of each builder parameter: account role, or argument
    'delegate': 'payer delegated owner_program? @', 'commit_state': 'validator delegated -owner @', 'commit_state_from_buffer': 'validator delegated -owner state_buffer @',
    'finalize': 'validator delegated', 'undelegate': 'validator delegated owner_program rent_payer', 'init_protocol_fees_vault': 'payer',
    'init_validator_fees_vault': 'payer admin identity', 'close_validator_fees_vault': 'payer admin identity', 'validator_claim_fees': 'validator .amount',
    'whitelist_validator_for_program': 'authority identity program .insert', 'top_up_ephemeral_balance': 'payer pubkey .amount? .index?',
    'delegate_ephemeral_balance': 'payer pubkey @', 'close_ephemeral_balance': 'payer #index', 'protocol_claim_fees': 'admin'}
def flexible(t): return contains(t, lambda u: u.op == 'flat')
def var(t): return t.op == 'owner0' or t.op == 'fld' and bool(contains(t, lambda u: u.op in ('st', 'bincode', 'podv', 'dec')))
class Mismatch(Exception): pass
def unify(a, b, env):
    """None if equal for suitable account contents; 'soft' if a builder parameter must have one particular value"""
    if a is b or a == b: return True
    if isinstance(a, Term) and isinstance(b, Term):
        for p, q in ((a, b), (b, a)):
            if var(p):
                if p in env: return unify(env[p], q, env)
                env[p] = q; return True
        if flexible(a) or flexible(b): return True
        pa, pb = a.op == 'param' or a.op == 'fld' and a.a[0].op == 'param', b.op == 'param' or b.op == 'fld' and b.a[0].op == 'param'
        if pa and b.op == 'pk' or pb and a.op == 'pk': raise Soft()
        if a.op == b.op and len(a.a) == len(b.a) and a.op not in ('lin', 'int', 'lit', 'pk', 'param'):
            return all(unify(p, q, env) for p, q in zip(a.a, b.a))
        return False
    if isinstance(a, (Arr, Agg)) and isinstance(b, type(a)):
        xs, ys = (a.xs, b.xs) if isinstance(a, Arr) else (a.fs, b.fs)
        return len(xs) == len(ys) and all(unify(p, q, env) for p, q in zip(xs, ys))
    return False
class Soft(Exception): pass
def builder_runs(c, ix):
    an = c.an
    f = an.root('instruction_builder::%s::%s' % (ix, ix))
    spec = BUILDERS[ix].split()
    c.needc(f['argc'] == len(spec), '%s: the builder takes %d parameters (found %d)' % (ix, len(spec), f['argc']), site=f)
    if f['argc'] != len(spec): return f, spec, []
    ip = an.interp(); st = State()
    for i, s in enumerate(spec):
        ty = an.p.types[f['locals'][i + 1]]
        if ty['k'] == 'adt' and ty['kind'] == 'enum': DISCR[T('param', i)] = tuple(v['name'] for v in ty['variants'])
    outs = ip.exec_fn(st, f, [T('param', i) for i in range(len(spec))])
    an.note(ip)
    return f, spec, [(s, an.m.freeze(s, v)) for s, v in outs]
@rule('E02', 'interpretation of every instruction builder on arbitrary parameters; its accounts, flags and data unified with the must-facts of every successful exit of the handler')
def E02(c):
    an = c.an
    for ix, (k, roles) in IX.items():
        roles = roles.split()
        f, spec, runs = builder_runs(c, ix)
        c.needc(bool(runs), '%s: the builder returns an instruction' % ix, site=f)
        for s, v in runs:
            y = X(an, ix, s, 0)
            fs = dict(zip(an.m.ixf, v.fs)) if isinstance(v, Agg) and len(v.fs) == 3 else None
            if fs is None or not isinstance(fs['accounts'], Arr):
                c.needc(False, '%s: the builder\'s instruction could not be followed' % ix, site=f); continue
            c.needc(y.same(fs['program_id'], DLP), '%s: the built instruction goes to the delegation program' % ix, site=f)
            ms = []
            for m in fs['accounts'].xs:
                d = dict(zip(an.m.amf, m.fs)) if isinstance(m, Agg) else {}
                ms.append((y.simp(d.get('pubkey', T('?'))), d.get('is_signer'), d.get('is_writable')))
            c.needc(len(ms) == len(roles), '%s: the builder lists %d accounts, the handler takes %d' % (ix, len(ms), len(roles)), site=f)
            if len(ms) != len(roles): continue
            # parameters
            fields = {}
            for i, sp in enumerate(spec):
                p = T('param', i)
                if sp[0] in '@-#': continue
                q = sp.endswith('?'); nme = sp.rstrip('?').lstrip('.')
                val = (T('fld', p, 'Some', '0') if y.yes(T('is', p, 'Some')) else None) if q else p
                if sp[0] == '.': fields[nme] = val
                elif val is not None: c.needc(y.same(ms[roles.index(nme)][0], val), '%s: parameter %d is the %s' % (ix, i, nme), site=f)
                elif nme == 'owner_program': c.needc(y.same(ms[roles.index(nme)][0], SYS), '%s: without an owner program the system program is used' % ix, site=f)
            # data
            data = y.simp(tobytes(fs['data']))
            want = lit(bytes([k] + [0] * 7))
            body = None
            parts = data.a if isinstance(data, Term) and data.op == 'cat' else (data,)
            okt = parts and parts[0].op == 'lit' and parts[0].a[0][:8] == want.a[0]
            c.needc(bool(okt), '%s: the built data starts with the 8-byte tag %d (found %s)' % (ix, k, show(data)[:120]), site=f)
            if not okt: continue
            rest = bsub(data, I(8), blen(data))
            ty = ARGS.get(ix)
            val = None
            if ty:
                names = an.m.structs[ty][1]
                if '@' in spec: val = T('param', spec.index('@'))
                elif all(n in fields for n in names):
                    got = y.simp(rest)
                    if isinstance(got, Term) and got.op == 'enc' and isinstance(got.a[1], Agg):
                        # an absent optional parameter leaves the default to the builder
                        val = Agg(0, tuple(fields[n] if fields[n] is not None else got.a[1].fs[j] for j, n in enumerate(names)))
                c.needc(val is not None and y.same(rest, T('enc', ty, val)), '%s: the built data carries the encoded %s given by the caller (found %s)' % (ix, ty, show(y.simp(rest))[:200]), site=f)
            elif '#index' in spec:
                c.needc(y.same(rest, T('byte', T('param', spec.index('#index')))) or y.same(rest, tobytes(Arr((T('param', spec.index('#index')),)))), '%s: the built data carries the index (found %s)' % (ix, show(rest)), site=f)
            # what the handler requires
            sub_ = {T('rest'): rest}
            for i, m in enumerate(ms): sub_[T('key', i)] = m[0]
            if ty:
                for j, n in enumerate(an.m.structs[ty][1]):
                    if val is not None: sub_[T('fld', args(ty), n)] = val.fs[j] if isinstance(val, Agg) else T('fld', val, n)
            if '-owner' in spec:
                sub_['owner'] = T('param', spec.index('-owner'))
            live = 0
            for x in c.exits(ix, alias=False):
                env = {}
                if '-owner' in spec: env[rec(x, 'owner')] = T('param', spec.index('-owner'))
                soft = False
                for fct, tv in x.raw.facts.items():
                    if fct.op == 'is_signer' and tv: c.need(x, ms[fct.a[0]][1] is TRUE, '%s: the handler requires %s to sign, the builder lists it as a signer' % (ix, roles[fct.a[0]]), site=f)
                    elif fct.op == 'is_writable': c.need(x, ms[fct.a[0]][2] is B(tv), '%s: the handler requires %s to be %s, as the builder lists it' % (ix, roles[fct.a[0]], 'writable' if tv else 'read-only'), site=f)
                    elif fct.op == 'eq' and tv and contains(fct, lambda t: t.op == 'key') and not contains(fct, lambda t: t.op in ('any', 'idx')):
                        g = an.canon(fct)
                        if isint(g): continue
                        a, b = subst(an, g.a[0], sub_), subst(an, g.a[1], sub_)
                        if isnum(a) or isnum(b): continue
                        try: ok = unify(a, b, env)
                        except Soft: soft = True; continue
                        # a way through that is only open to empty seeds says nothing about the addresses built for others
                        if not ok and x.assumes_empty(): soft = True; continue
                        c.need(x, ok, '%s: the handler requires %s, the builder gives %s and %s' % (ix, show(g)[:160], show(a)[:100], show(b)[:100]), key='%s: derived addresses' % ix, site=f)
                if not soft: live += 1
                for i in x.changed():
                    if x.ix == 'delegate_ephemeral_balance' and i != x.role('balance'): continue   # effects of the nested call are limited by its own account list
                    c.need(x, i < len(ms) and ms[i][2] is TRUE, '%s: the handler changes %s, the builder lists it as writable' % (ix, nm(x, i)), site=f)
            c.needc(live > 0, '%s: the built instruction can succeed' % ix, site=f)
def subst(an, t, m):
    if isinstance(t, Agg): return Agg(t.v, tuple(subst(an, x, m) for x in t.fs))
    if isinstance(t, Arr): return Arr(tuple(subst(an, x, m) for x in t.xs))
    if not isinstance(t, Term): return t
    if t in m: return m[t]
    if t.op == 'lin':
        u = I(t.a[0])
        for x, k in t.a[1]: u = add(u, scale(subst(an, x, m), k))
        return u
    if not t.a or t.op in ('int', 'lit', 'pk'): return t
    na = tuple(subst(an, x, m) if isinstance(x, (Term, Agg, Arr)) else x for x in t.a)
    if t.op == 'byte' and isint(na[0]) and 0 <= na[0].a[0] < 256: return lit(bytes([na[0].a[0]]))
    return an.m.rebuild(t, na) if na != t.a else t

# ------------------------------------------------------------------ addresses
KINDS = {  # helper -> (seed, arguments, program)
    'delegation_record_pda_from_delegated_account': (b'delegation', (32,), None), 'delegation_metadata_pda_from_delegated_account': (b'delegation-metadata', (32,), None),
    'commit_state_pda_from_delegated_account': (b'state-diff', (32,), None), 'commit_record_pda_from_delegated_account': (b'commit-state-record', (32,), None),
    'delegate_buffer_pda_from_delegated_account_and_owner_program': (b'buffer', (32,), 1), 'undelegate_buffer_pda_from_delegated_account': (b'undelegate-buffer', (32,), None),
    'fees_vault_pda': (b'fees-vault', (), None), 'validator_fees_vault_pda_from_validator': (b'v-fees-vault', (32,), None),
    'program_config_from_program_id': (b'p-conf', (32,), None), 'ephemeral_balance_pda_from_payer': (b'balance', (32, 1), None)}
def pattern(t):
    """bytes of seeds as a list of ('lit', bytes) / ('var', n), or None when the length is not fixed"""
    parts = t.a if t.op == 'cat' else (t,)
    out = []
    for p in parts:
        if p.op == 'lit': out.append(('lit', p.a[0]))
        elif p.op == 'pkb': out.append(('var', 32))
        elif p.op == 'byte': out.append(('var', 1))
        else:
            l = blen(p)
            if not isint(l): return None
            out.append(('var', l.a[0]))
    return tuple(out)
def layout(p):
    s = []
    for k, v in p: s += list(v) if k == 'lit' else [None] * v
    return s
def collide(p, q):
    a, b = layout(p), layout(q)
    return len(a) == len(b) and all(x is None or y is None or x == y for x, y in zip(a, b))
def within(p, q):
    a, b = layout(p), layout(q)
    return len(a) == len(b) and all(y is None or x == y for x, y in zip(a, b))
@rule('E03', 'value of every public address helper; every derived address in handlers and builders is of a known kind; byte layouts of the kinds are pairwise non-overlapping')
def E03(c):
    an = c.an
    pats = {}
    for h, (seed, ps, prog) in KINDS.items():
        f = an.root('pda::' + h)
        n = len(ps) + (1 if prog is not None else 0)
        c.needc(f['argc'] == n, '%s takes %d parameters' % (h, n), site=f)
        if f['argc'] != n: continue
        ip = an.interp(); st = State()
        av = []
        for i in range(n):
            ty = an.p.types[f['locals'][i + 1]]
            if ty['k'] == 'ref': cell = ('prm', i); st.cells[cell] = T('param', i); av.append(Ptr(cell, ()))
            else: av.append(T('param', i))
        outs = ip.exec_fn(st, f, av); an.note(ip)
        want = T('pda', cat(lit(seed), *[pkb(T('param', i)) if w == 32 else T('byte', T('param', i)) for i, w in enumerate(ps)]), T('param', prog) if prog is not None else DLP)
        for s, v in outs:
            v = an.m.freeze(s, v)
            y = X(an, 'delegate', s, 0)
            c.needc(y.same(v, want) or T('byte', T('param', 1)) in (want.a[0].a if want.a[0].op == 'cat' else ()) and v is T('pda', cat(lit(seed), pkb(T('param', 0)), tobytes(Arr((T('param', 1),)))), DLP),
                    '%s is the address derived from the seed %r and its parameters (found %s)' % (h, seed.decode(), show(v)[:160]), site=f)
        c.needc(bool(outs), '%s returns' % h, site=f)
        pats[h] = (('lit', seed),) + tuple(('var', w) for w in ps)
    byname = dict(pats)
    # every address the code derives under the program itself
    seen = {}
    def collect(v, where, site):
        for t in contains(v, lambda t: t.op == 'pda'):
            if t.a[1] is DLP and not flexible(t): seen.setdefault((pattern(t.a[0]), show(t.a[0])[:60] if pattern(t.a[0]) is None else ''), (where, site))
            elif flexible(t) and not (where == 'delegate'): seen.setdefault((None, show(t)[:80]), (where, site))
    for ix in IX:
        for x in c.exits(ix, alias=False):
            h = an.handler(ix)
            for v in list(x.st.facts) + list(x.cells.values()): collect(v, ix, h)
            for e in x.cpis():
                for q in e.signers: collect(q, ix, h)
                for m in e.metas: collect(m[0], ix, h)
        f, spec, runs = builder_runs(Check(an, 'E02'), ix)
        for s, v in runs: collect(v, 'builder of ' + ix, f)
    for (p, txt), (where, site) in seen.items():
        c.needc(p is not None, '%s: derived address with seeds of a fixed shape (found %s)' % (where, txt), site=site)
        if p is None: continue
        known = [h for h, q in byname.items() if within(p, q)]
        if not known: pats['%s in %s' % (p, where)] = p
    names = list(pats)
    for i, a in enumerate(names):
        for b in names[i + 1:]:
            c.needc(not collide(pats[a], pats[b]), 'addresses of %s and %s never coincide' % (a, b), site=an.entry)
        # different keys give different seeds: the variable parts have fixed positions
        c.needc(all(k == 'lit' or v > 0 for k, v in pats[a]), '%s distinguishes its keys' % a)
    for h, (seed, ps, prog) in KINDS.items():
        q = (('lit', seed),) + tuple(('var', w) for w in ps)
        if prog is not None: continue
        c.needc(any(p is not None and within(p, q) for (p, _) in seen), 'handlers or builders derive addresses as %s does' % h)

# ------------------------------------------------------------------ layouts
PK = 'solana_program::solana_pubkey::Pubkey'
LAYOUT = {
    'DelegationRecord': ('pod', [('authority', PK), ('owner', PK), ('delegation_slot', 'u64'), ('lamports', 'u64'), ('commit_frequency_ms', 'u64')]),
    'CommitRecord': ('pod', [('identity', PK), ('account', PK), ('slot', 'u64'), ('lamports', 'u64')]),
    'DelegationMetadata': ('borsh', [('last_update_external_slot', 'u64'), ('is_undelegatable', 'bool'), ('seeds', 'Vec<Vec<u8>>'), ('rent_payer', PK)]),
    'ProgramConfig': ('borsh', [('approved_validators', 'BTreeSet<Pubkey>')]),
    'CommitStateArgs': ('borsh', [('slot', 'u64'), ('lamports', 'u64'), ('allow_undelegation', 'bool'), ('data', 'Vec<u8>')]),
    'CommitStateFromBufferArgs': ('borsh', [('slot', 'u64'), ('lamports', 'u64'), ('allow_undelegation', 'bool')]),
    'DelegateArgs': ('borsh', [('commit_frequency_ms', 'u32'), ('seeds', 'Vec<Vec<u8>>'), ('validator', 'Option<Pubkey>')]),
    'DelegateEphemeralBalanceArgs': ('borsh', [('delegate_args', 'DelegateArgs'), ('index', 'u8')]),
    'TopUpEphemeralBalanceArgs': ('borsh', [('amount', 'u64'), ('index', 'u8')]),
    'ValidatorClaimFeesArgs': ('borsh', [('amount', 'Option<u64>')]),
    'WhitelistValidatorForProgramArgs': ('borsh', [('insert', 'bool')]),
}
SIZES = {'u8': 1, 'bool': 1, 'u32': 4, 'u64': 8, PK: 32}
@rule('E04', 'field tables and memory layout of every type from the type-checked program; interpretation of every serializer and deserializer field by field')
def E04(c):
    an = c.an; m = an.m
    for ty, (kind, fields) in LAYOUT.items():
        if ty not in m.structs: c.needc(False, 'type %s exists' % ty); continue
        i, names, tys = m.structs[ty]
        t = an.p.types[i]
        got = [(n, short(an.p.types[q]['s'])) for n, q in zip(names, tys)]
        want = [(n, short(q)) for n, q in fields]
        if kind == 'pod':
            c.needc(got == want, '%s has the published fields in order (found %s)' % (ty, got))
            c.needc(t['reprc'], '%s has a fixed (C) layout' % ty)
            off = 0
            for (n, q), o in zip(fields, t['offsets']):
                c.needc(o == off, '%s.%s lies at offset %d (found %d)' % (ty, n, off, o)); off += SIZES[q]
            c.needc(t['size'] == off, '%s has no padding (size %s, fields %d)' % (ty, t['size'], off))
            # space reserved on chain
            f = next((g for r, g in ((r, an.p.fns[h]) for r, h in an.p.roots.items()) if r.endswith('%s::size_with_discriminator' % ty)), None)
            if f is not None:
                ip = an.interp(); outs = ip.exec_fn(State(), f, []); an.note(ip)
                c.needc(bool(outs) and all(an.m.freeze(s, v) is I(8 + off) for s, v in outs), '%s: the reserved space is the tag and the fields (found %s)' % (ty, [show(v) for s, v in outs]), site=f)
            continue
        # (the fields of an encoded type may be stored in any order: what counts is what is written and read)
        # (a hash set is written sorted, like an ordered one)
        order = lambda q: q.replace('HashSet<', 'BTreeSet<')
        got = [(n, order(q)) for n, q in got]
        c.needc(sorted(got) == sorted(want), '%s has the published fields (found %s)' % (ty, got))
        if sorted(got) != sorted(want): continue
        for what in ('serialize', 'deserialize'):
            tr = 'borsh::BorshSerialize>::serialize' if what == 'serialize' else 'borsh::BorshDeserialize>::deserialize_reader'
            rs = [r for r in an.p.roots if r.startswith('<') and r.endswith('::%s as %s' % (ty, tr))]
            c.needc(len(rs) == 1, '%s has one %sr' % (ty, what))
            if len(rs) != 1: continue
            f = an.p.fns[an.p.roots[rs[0]]]
            ip = an.interp(); st = State()
            m.serdirect = 'write' if what == 'serialize' else 'read'
            try:
                if what == 'serialize':
                    st.cells[('self',)] = Agg(0, tuple(T('prmf', n) for n in names)); st.cells[('w',)] = lit(b'')
                    m.serlog = True
                    outs = ip.exec_fn(st, f, [Ptr(('self',), ()), Ptr(('w',), ())])
                    seqs = [[(a, order(b)) for a, b in st2.cells.get(('serlog',), ())] for st2, v in outs if not (isinstance(v, Agg) and v.v == 1)]
                    wseq = [(T('prmf', n), short(q)) for n, q in fields]
                    c.needc(len(seqs) > 0, '%s can be written' % ty, site=f)
                    for q in seqs: c.needc(q == wseq, '%s is written field by field in the published order (found %s)' % (ty, [(show(a), b) for a, b in q]), site=f)
                else:
                    st.cells[('r',)] = T('reader')
                    outs = ip.exec_fn(st, f, [Ptr(('r',), ())])
                    good = [(s2, an.m.freeze(s2, v)) for s2, v in outs if not (isinstance(v, Agg) and v.v == 1)]
                    c.needc(len(good) > 0, '%s can be read' % ty, site=f)
                    for s2, v in good:
                        val = v.fs[0] if isinstance(v, Agg) and v.fs else None
                        wv = Agg(0, tuple(T('rd', [q for q, _ in fields].index(n), short(q) if order(short(q)) == short(dict(fields)[n]) else short(dict(fields)[n])) for n, q in ((n, an.p.types[q]['s']) for n, q in zip(names, tys))))
                        c.needc(val == wv and s2.cells.get(('rdn',), 0) == len(fields), '%s is read field by field in the published order (found %s)' % (ty, show(val) if val is not None else None), site=f)
            finally: m.serdirect = None
            an.note(ip)

# ------------------------------------------------------------------ error codes
CODES = dict(InvalidAuthority=0, NotUndelegatable=1, Unauthorized=2, InvalidAuthorityForProgram=3, InvalidDelegatedAccount=4, InvalidDelegatedState=5, InvalidReimbursementAccount=6,
             InvalidAccountDataAfterCPI=7, InvalidValidatorBalanceAfterCPI=8, InvalidReimbursementAddressForDelegationRent=9, InvalidWhitelistProgramConfig=10, AlreadyUndelegated=11, OutdatedSlot=12, Overflow=13)
@rule('E05', 'interpretation of both error conversions for every variant')
def E05(c):
    an = c.an
    ts = [t for t in an.p.types if t['k'] == 'adt' and t.get('local') and t['path'].split('::')[-1] == 'DlpError']
    if not ts: raise Missing('type DlpError')
    names = [v['name'] for v in ts[0]['variants']]
    pe = [t for t in an.p.types if t['k'] == 'adt' and t['path'].split('::')[-1] == 'ProgramError'][0]
    custom = [i for i, v in enumerate(pe['variants']) if v['name'] == 'Custom'][0]
    c.needc(set(CODES) <= set(names), 'all published errors exist (missing %s)' % sorted(set(CODES) - set(names)))
    for r in an.p.roots:
        if not (r.startswith('error::<impl std::convert::From<error::DlpError> for') and r.endswith('::from')): continue
        f = an.p.fns[an.p.roots[r]]
        to = 'u32' if 'for u32' in r else 'ProgramError'
        got = {}
        for i, n in enumerate(names):
            ip = an.interp()
            for s, v in ip.exec_fn(State(), f, [Agg(i, ())]):
                v = an.m.freeze(s, v)
                if to == 'ProgramError':
                    c.needc(isinstance(v, Agg) and v.v == custom, '%s converts to a custom program error (found %s)' % (n, show(v)), site=f)
                    v = v.fs[0] if isinstance(v, Agg) and v.fs else v
                got.setdefault(n, set()).add(v)
            an.note(ip)
        for n in names:
            vs = got.get(n, set())
            c.needc(len(vs) == 1 and isint(next(iter(vs))), '%s has one code (found %s)' % (n, [show(v) for v in vs]), site=f)
            if n in CODES: c.needc(vs == {I(CODES[n])}, '%s keeps its code %d (found %s)' % (n, CODES[n], [show(v) for v in vs]), site=f)
        codes = [v for n in names for v in got.get(n, ())]
        c.needc(len(set(codes)) == len(codes), 'no two errors share a code', site=f)
    c.needc(any('for solana_program::program_error::ProgramError' in r for r in an.p.roots), 'errors convert to program errors')
