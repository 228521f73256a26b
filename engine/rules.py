"""The rule of each property, decided on every successful exit of the instructions it is about."""
from analysis import *
import re as _re

COMMITS = ('commit_state', 'commit_state_from_buffer')
RULES = {}
def rule(pid, text):
    def d(f):
        RULES[pid] = (f, text)
        return f
    return d

SAME = {   # roles that the same account may well play in one instruction
    'undelegate': [('validator', 'rent_payer')],
    'init_validator_fees_vault': [('payer', 'admin'), ('payer', 'identity'), ('admin', 'identity')],
    'close_validator_fees_vault': [('payer', 'admin'), ('payer', 'identity'), ('admin', 'identity')],
    'whitelist_validator_for_program': [('program_data', 'dlp_program_data'), ('authority', 'identity')],
    'top_up_ephemeral_balance': [('payer', 'pubkey')],
    'delegate_ephemeral_balance': [('payer', 'pubkey')],
}
SAME_MORE = {   # unusual, but possible (thorough tier)
    'delegate': [('payer', 'delegated'), ('payer', 'owner_program')],
    'commit_state': [('validator', 'delegated')],
    'commit_state_from_buffer': [('validator', 'delegated'), ('validator', 'state_buffer'), ('delegated', 'state_buffer')],
    'undelegate': [('validator', 'owner_program'), ('owner_program', 'rent_payer')],
    'whitelist_validator_for_program': [('authority', 'program'), ('identity', 'program')],
}
class Check:
    tier = 'quick'
    """collects proof obligations"""
    def __init__(self, an, pid):
        self.an, self.pid = an, pid
        self.total, self.viol, self.kinds, self.nexits = 0, [], {}, {}
        self.samples = []
    def exits(self, ix, alias=True):
        """successful exits, with distinct accounts in all roles and with one account in two roles that one party may play"""
        xs = list(self.an.exits(ix))
        self.nexits[ix] = len(xs)
        if alias:
            for p in SAME.get(ix, []) + (SAME_MORE.get(ix, []) if self.tier == 'thorough' else []):
                ys = self.an.exits(ix, p)
                self.nexits['%s, %s = %s' % ((ix,) + p)] = len(ys)
                xs += ys
        for x in xs:
            # what the analysis could not follow could do anything
            for e in x.ev:
                if e[0] in ('unknown', 'cpi?', 'unresolved', 'loop-effects'):
                    self.need(x, False, 'every account effect is followed (found %s %s)' % (e[0], show(e[1]) if len(e) > 1 and isinstance(e[1], (Term, Agg, Arr)) else e[1:2]), key='effects')
        return xs
    def need(self, x, cond, what, key=None, site=None):
        self.total += 1
        k = key or what
        self.kinds[k] = self.kinds.get(k, 0) + 1
        if len(self.samples) < 5 and k not in [s[1] for s in self.samples]: self.samples.append((x.ix if x is not None else '', k))
        if not cond: self.viol.append((x, what, site))
        return cond
    def needc(self, cond, what, site=None):
        return self.need(None, cond, what, site=site)
    def split(self, x, *ts): return x.cases(*ts)

# ------------------------------------------------------------------ shared vocabulary
def lit_(s): return '#' + s
def recpda(x, d='delegated'): return x.pda('#delegation', x.key(d))
SEEDS = {   # role -> (seed, key role or None, fixed owner program role, must already exist when used)
    'record': ('delegation', 'delegated'), 'metadata': ('delegation-metadata', 'delegated'), 'commit_state': ('state-diff', 'delegated'),
    'commit_record': ('commit-state-record', 'delegated'), 'fees_vault': ('fees-vault', None),
}
def expected_pda(x, role):
    """address that the role's account must have, as a list of alternatives"""
    ix = x.ix
    if role in SEEDS:
        s, k = SEEDS[role]
        if ix == 'delegate_ephemeral_balance': k = 'balance'
        return [x.pda(lit_(s), x.key(k)) if k else x.pda(lit_(s))]
    if role == 'v_vault':
        k = 'identity' if ix in ('init_validator_fees_vault', 'close_validator_fees_vault') else 'validator'
        return [x.pda('#v-fees-vault', x.key(k))]
    if role == 'config':
        if ix == 'whitelist_validator_for_program': return [x.pda('#p-conf', x.key('program'))]
        return [x.pda('#p-conf', x.fld('DelegationRecord', 'record', 'owner'))]
    if role == 'buffer' and ix == 'undelegate': return [x.pda('#undelegate-buffer', x.key('delegated'))]
    if role == 'balance':
        return [x.pda('#balance', x.key(balance_key(x)), balance_index(x))]
    return None
def balance_key(x): return 'payer' if x.ix == 'close_ephemeral_balance' else 'pubkey'
def balance_index(x):
    if x.ix == 'close_ephemeral_balance': return bsub(T('rest'), ZERO, ONE)
    ty = {'top_up_ephemeral_balance': 'TopUpEphemeralBalanceArgs', 'delegate_ephemeral_balance': 'DelegateEphemeralBalanceArgs'}[x.ix]
    return T('byte', arg(x, ty, 'index'))
def args(ty): return T('args', ty)
def arg(x, ty, f): return T('fld', args(ty), f)
def commit_args(x): return 'CommitStateArgs' if x.ix == 'commit_state' else 'CommitStateFromBufferArgs'
def commit_arg(x, f): return arg(x, commit_args(x), f)
def at_role(x, role):
    return any(x.same(x.key(role), p) for p in expected_pda(x, role))
def uses(x, i):
    """does the exit depend on or change account i (beyond its key and flags)?"""
    if i in x.changed(): return True
    def p(t): return t.op in ('lam0', 'data0', 'owner0') and t.a[0] == i or t.op == 'st' and t.a[1] == i
    for f in x.st.facts:
        if contains(f, p): return True
    for k, v in x.cells.items():
        if contains(v, p): return True
    for e in x.ev:
        if e[0] == 'cpi' and i in e[4]: return True
    return False
def own_use(x, i):
    """as uses, but not counting what a called program does"""
    def p(t): return t.op in ('lam0', 'data0', 'owner0') and t.a[0] == i or t.op == 'st' and t.a[1] == i
    foreign = lambda v: isinstance(v, Term) and v.op in ('lamx', 'datax', 'ownerx')
    return any(contains(f, p) for f in x.st.facts) or any(not foreign(v) for (k, j), v in x.cells.items() if j == i and i in x.changed()) \
        or any(e.sys is not None and i in e.res for e in x.cpis())
def upgrade_authority(x, admin, pd, prog):
    """the exit knows key(admin) to be the authority stored in the loader's program data account of prog, presented as pd"""
    if not x.same(x.key(pd), T('pda', pkb(prog), LOADER)): return False
    d = x.data0(pd)
    cands = {}
    for f in x.st.facts:
        for b in contains(f, lambda t: t.op == 'bincode' and t.a[0] == 'UpgradeableLoaderState'): cands[b] = 1
    for b in cands:
        src = b.a[1]
        if not (src is d or src.op == 'sub' and src.a[0] is d and src.a[1] is ZERO): continue
        if not x.yes(T('is', b, 'ProgramData')): continue
        ua = T('fld', b, 'ProgramData', 'upgrade_authority_address')
        if not x.yes(T('is', ua, 'Some')): continue
        for f in (('Some', '0'),):
            if x.same(x.key(admin), T('fld', ua, *f)): return True
    return False
def rec(x, f): return x.fld('DelegationRecord', 'record', f)
def meta(x, f): return x.fld('DelegationMetadata', 'metadata', f)
def crec(x, f): return x.fld('CommitRecord', 'commit_record', f)
def tagged_bytes(ty, body): return cat(tag(ty), body)
def record_bytes(x, **kw):
    v = {f: rec(x, f) for f in ('authority', 'owner', 'delegation_slot', 'lamports', 'commit_frequency_ms')} if 'record' in x.an.roles[x.ix] else {}
    v.update(kw)
    return tagged_bytes('DelegationRecord', x.pod('DelegationRecord', **v))
def meta_bytes(x, **kw):
    v = {f: meta(x, f) for f in ('last_update_external_slot', 'is_undelegatable', 'seeds', 'rent_payer')}
    v.update(kw)
    return tagged_bytes('DelegationMetadata', x.enc('DelegationMetadata', **v))
def decoded(x, role, ty):
    """field values of the final content of an account of a tagged type, or None"""
    d = x.simp(x.data(role))
    if d is x.data0(role) or x.same(d, x.data0(role)):
        return {f: x.fld(ty, role, f) for f in x.an.m.structs[ty][1]}
    if not (isinstance(d, Term) and d.op == 'cat'): return None
    parts = list(d.a)
    t0 = tag(ty)
    if parts and parts[0].op == 'lit' and parts[0].a[0][:8] == t0.a[0] and len(parts) == 2 and len(parts[0].a[0]) == 8:
        b = parts[1]
        if b.op in ('pod', 'enc') and short(b.a[0]) == ty:
            v = b.a[1]
            if isinstance(v, Term): v = x.an.expand(v, ty)
            if isinstance(v, Agg): return dict(zip(x.an.m.structs[ty][1], v.fs))
    if parts and x.same(parts[0], bsub(x.data0(role), ZERO, I(8))) : pass
    return None
def fields_ok(c, x, role, ty, what, **want):
    """final content of the account is the tagged struct with exactly the wanted fields (others unchanged)"""
    v = decoded(x, role, ty)
    if v is None:
        c.need(x, False, '%s: the %s account ends with a well-formed %s (found %s)' % (what, role, ty, show(x.simp(x.data(role)))[:300]), key='%s: %s well-formed' % (what, ty))
        return
    for f in x.an.m.structs[ty][1]:
        w = want.get(f, x.fld(ty, role, f))
        c.need(x, x.same(v[f], w), '%s: %s.%s ends as %s (found %s)' % (what, ty, f, show(w), show(x.simp(v[f]))[:300]), key='%s: %s.%s' % (what, ty, f))
def exists(x, role): return x.owned(role)
def ends_owned(x, role):
    """owned by the program at the end"""
    o = x.owner(role)
    return x.owned(role) if o is x.owner0(role) else x.same(o, DLP)
def not_exists(x, role): return x.notowned(role) or x.num_eq(x.lam0(role), ZERO)
def rents(n): return [T('minbal', r, n) for r in RENTS]
def funded(x, got, before, space, extra):
    """got is before + extra, raised no further than creating an account of that size needs (rent before or after the extra)"""
    for R in [R for n in (space if isinstance(space, tuple) else (space,)) for R in rents(n)]:
        t = add(before, extra)
        if x.num_eq(got, t) and x.ge(t, R): return True
        if x.num_eq(got, R) and x.ge(R, t): return True
        if x.num_eq(got, add(R, extra)) and x.ge(R, before): return True
        if x.num_eq(got, t) and x.ge(before, R): return True
    return False
def not_exists_sys(x, role): return x.same(x.owner0(role), SYS) or x.num_eq(x.lam0(role), ZERO)
def is_len0(x, role): return eq(blen(x.data0(role)), ZERO)
def final_len(x, role): return blen(x.simp(x.data(role)))
def final_lens(x, role):
    a, b = blen(x.data(role)), final_len(x, role)
    return (a, b) if a is not b else (a,)

# ------------------------------------------------------------------ authority
SIGNERS = {'delegate': 'payer delegated', 'commit_state': 'validator', 'commit_state_from_buffer': 'validator', 'finalize': 'validator', 'undelegate': 'validator',
           'init_protocol_fees_vault': 'payer', 'init_validator_fees_vault': 'payer admin', 'validator_claim_fees': 'validator', 'whitelist_validator_for_program': 'authority',
           'top_up_ephemeral_balance': 'payer', 'delegate_ephemeral_balance': 'payer pubkey', 'close_ephemeral_balance': 'payer',
           'protocol_claim_fees': 'admin', 'close_validator_fees_vault': 'admin'}
@rule('A01', 'must-fact: is_signer(role) holds on every successful exit; every debited source of a system transfer or creation is a signer')
def A01(c):
    for ix, rs in SIGNERS.items():
        for x in c.exits(ix):
            for r in rs.split():
                c.need(x, x.signed(r), '%s: the %s has signed' % (ix, r))
            for e in x.cpis():
                if e.sys in ('transfer', 'create_account') and e.res[0] is not None:
                    j = e.res[0]
                    ok = x.yes(T('is_signer', j)) or any(x.same(T('key', j), s) for s in e.signers)
                    c.need(x, ok, '%s: account %s, which pays in a system %s, has signed' % (ix, x.an.roles[ix][j] if j < len(x.an.roles[ix]) else j, e.sys))

@rule('A02', 'must-fact: admin key equals the authority field decoded from the program-data account at pda([program id], loader)')
def A02(c):
    for ix in ('init_validator_fees_vault', 'close_validator_fees_vault', 'protocol_claim_fees'):
        for x in c.exits(ix):
            c.need(x, x.signed('admin'), '%s: the admin has signed' % ix)
            c.need(x, upgrade_authority(x, 'admin', 'program_data', DLP), '%s: the admin is the upgrade authority stored in the delegation program\'s own program-data account' % ix)

@rule('A03', 'must-fact: the authority key equals the stored upgrade authority of the delegation program or of the program whose whitelist address is used')
def A03(c):
    for x in c.exits('whitelist_validator_for_program'):
        ok = upgrade_authority(x, 'authority', 'dlp_program_data', DLP) or upgrade_authority(x, 'authority', 'program_data', x.key('program'))
        c.need(x, ok, 'the authority is the upgrade authority of the delegation program or of the whitelist\'s program')
        c.need(x, x.signed('authority'), 'the authority has signed')
        c.need(x, at_role(x, 'config'), 'the whitelist is the one of the program whose authority was checked')

@rule('A04', 'must-fact on every exit that depends on an upgrade authority: program-data address, ProgramData variant, present authority, equality with the stored key')
def A04(c):
    t = {'init_validator_fees_vault': [('admin', 'program_data', DLP)], 'close_validator_fees_vault': [('admin', 'program_data', DLP)],
         'protocol_claim_fees': [('admin', 'program_data', DLP)], 'whitelist_validator_for_program': [('authority', 'dlp_program_data', DLP), ('authority', 'program_data', None)]}
    for ix, alts in t.items():
        for x in c.exits(ix):
            ok = any(upgrade_authority(x, a, pd, p or x.key('program')) for a, pd, p in alts)
            c.need(x, ok, '%s: the accepted authority was read from the program-data account that the upgradeable loader derives from the program id' % ix)
    feats = c.an.p.d.get('features', [])
    c.needc('unit_test_config' not in ' '.join(map(str, feats)), 'the analysed configuration is the production one (features %s)' % feats)

@rule('A05', 'must-fact: vault key equals pda([v-fees-vault, validator key]) and the vault is program-owned; only the admin instruction signs for such an address')
def A05(c):
    for ix in ('commit_state', 'commit_state_from_buffer', 'finalize', 'undelegate', 'validator_claim_fees'):
        for x in c.exits(ix):
            c.need(x, at_role(x, 'v_vault'), '%s: the fees vault is at the address derived from the validator\'s key' % ix)
            c.need(x, exists(x, 'v_vault'), '%s: the validator\'s fees vault exists and is owned by the delegation program' % ix)
    for ix in IX:
        if ix == 'init_validator_fees_vault': continue
        for x in c.exits(ix):
            for e in x.cpis():
                for s in e.signers:
                    c.need(x, not could_start(x.simp(s), b'v-fees-vault'), '%s: does not sign for a validator fees vault address (signs for %s)' % (ix, show(s)[:120]), key='%s: no vault signature' % ix)
def could_start(p, pre):
    """may the seeds of the address p begin with pre?"""
    if not (isinstance(p, Term) and p.op == 'pda'): return True
    s = p.a[0]
    first = s.a[0] if s.op == 'cat' else s
    if first.op != 'lit': return True
    b = first.a[0]
    n = min(len(b), len(pre))
    return b[:n] == pre[:n]

@rule('A06', 'must-fact on every recording exit: whitelist address from the stored owner program, and whitelist absent or membership of the validator key in the stored set')
def A06(c):
    for ix in COMMITS:
        for x in c.exits(ix):
            if x.noop: continue
            c.need(x, at_role(x, 'config'), '%s: the whitelist account is derived from the owner program stored in the delegation record' % ix)
            mem = x.yes(T('in', x.key('validator'), x.fld('ProgramConfig', 'config', 'approved_validators')))
            absent = x.notowned('config') or x.yes(is_len0(x, 'config')) or x.num_eq(x.lam0('config'), ZERO)
            c.need(x, mem or absent, '%s: the whitelist does not exist or contains the validator' % ix)

@rule('A07', 'must-fact: program-owned account; on-curve or address equal to the pda of the supplied seeds; buffer address equal to pda([buffer, account], owner program)')
def A07(c):
    for x in c.exits('delegate'):
        c.need(x, exists(x, 'delegated'), 'the delegated account is already owned by the delegation program')
        sd = T('flat', arg(x, 'DelegateArgs', 'seeds'))
        k = x.key('delegated')
        ok = x.yes(T('oncurve', k)) or x.same(k, T('pda', sd, x.key('owner_program'))) or (x.same(x.key('owner_program'), SYS) and x.same(k, T('pda', sd, DLP)))
        c.need(x, ok, 'the delegated account is on the curve or at the address derived from the supplied seeds under the owner program')
        c.need(x, x.at('buffer', '#buffer', x.key('delegated'), prog=x.key('owner_program')), 'the buffer is at the address derived from the account under the named owner program')

STATE_ROLES = ('record', 'metadata', 'commit_state', 'commit_record', 'fees_vault', 'v_vault', 'config', 'balance')
@rule('A08', 'for every account a successful exit reads or changes: key equals the pda of its role, and program-owned where content, balance or ownership of an existing account is used')
def A08(c):
    for ix in IX:
        for x in c.exits(ix):
            # (the nested delegate call of delegate_ephemeral_balance checks the accounts it is given itself)
            skip = ('record', 'metadata') if ix == 'delegate_ephemeral_balance' else ()
            roles = [r for r in x.an.roles[ix] if r in STATE_ROLES or r == 'buffer' and ix == 'undelegate']
            for r in roles:
                i = x.role(r)
                if not (own_use(x, i) if r in skip else uses(x, i)): continue
                c.need(x, at_role(x, r), '%s: the %s account used is at the address derived for it' % (ix, r))
                must = reads_existing(x, r)
                if must: c.need(x, exists(x, r), '%s: the existing %s account used is owned by the delegation program' % (ix, r))
def reads_existing(x, r):
    """the role stands for an account that must already exist on this exit"""
    ix, i = x.ix, x.role(r)
    if r in ('record', 'metadata'): return ix not in ('delegate', 'delegate_ephemeral_balance')
    if r in ('commit_state', 'commit_record'): return ix == 'finalize' and not x.noop
    if r == 'fees_vault': return ix != 'init_protocol_fees_vault'
    if r == 'v_vault': return ix != 'init_validator_fees_vault'
    if r == 'config':
        st = lambda t: t.op == 'st' and t.a[1] == i
        return any(contains(f, st) for f in x.st.facts) or any(contains(v, st) for v in x.cells.values())
    return False

@rule('A09', 'must-fact: owner program key equals the stored owner, reimbursed key equals the stored rent payer')
def A09(c):
    for x in c.exits('undelegate'):
        c.need(x, x.same(x.key('owner_program'), rec(x, 'owner')), 'the owner program is the one stored in the delegation record')
        c.need(x, x.same(x.key('rent_payer'), meta(x, 'rent_payer')), 'the reimbursed account is the rent payer stored in the delegation metadata')
        c.need(x, at_role(x, 'record') and exists(x, 'record') and at_role(x, 'metadata') and exists(x, 'metadata'), 'the record and metadata compared with are the genuine ones')
        ch = x.changed()
        own = x.simp(x.owner('delegated'))
        c.need(x, x.same(own, x.key('owner_program')) or (isinstance(own, Term) and own.op == 'ownerx'), 'the delegated account ends with the owner program, or whatever that program made of it (found %s)' % show(own), key='final owner')

@rule('A10', 'must-fact on every effective finalize: signer, stored identity equals validator key, stored account equals delegated key')
def A10(c):
    for x in c.exits('finalize'):
        if x.noop: continue
        c.need(x, x.signed('validator'), 'the validator has signed')
        c.need(x, x.same(x.key('validator'), crec(x, 'identity')), 'the signing validator is the identity stored in the commit record')
        c.need(x, x.same(x.key('delegated'), crec(x, 'account')), 'the delegated account is the one stored in the commit record')

@rule('A11', 'must-fact: balance key equals pda([balance, signing key, index]); transfer of the whole balance to that key')
def A11(c):
    for ix in ('close_ephemeral_balance', 'delegate_ephemeral_balance'):
        for x in c.exits(ix):
            c.need(x, at_role(x, 'balance'), '%s: the balance is derived from the key and the index' % ix)
            c.need(x, x.signed(balance_key(x)), '%s: the key that the balance is derived from has signed' % ix)
    for x in c.exits('close_ephemeral_balance'):
        c.need(x, x.num_eq(x.lam('payer'), add(x.lam0('payer'), x.lam0('balance'))), 'all lamports of the closed balance go to the key (found %s)' % show(x.simp(x.lam('payer'))), key='refund')
        c.need(x, set(x.changed()) <= {x.role('payer'), x.role('balance')}, 'nobody else is credited')

# ------------------------------------------------------------------ lifecycle
@rule('L01', 'final content of both new accounts equals the expected encoding of the arguments, clock and accounts; both were absent')
def L01(c):
    for x0 in c.exits('delegate'):
        for x in c.split(x0, T('is', arg(x0, 'DelegateArgs', 'validator'), 'None')):
            none = x.yes(T('is', arg(x, 'DelegateArgs', 'validator'), 'None'))
            for r in ('record', 'metadata'):
                c.need(x, x.absent(r) or not_exists(x, r), 'the %s account does not exist before' % r)
                c.need(x, x.same(x.owner(r), DLP), 'the %s account ends owned by the delegation program' % r)
                c.need(x, at_role(x, r), 'the %s account is at its derived address' % r)
            auth = SYS if none else T('fld', arg(x, 'DelegateArgs', 'validator'), 'Some', '0')
            fields_ok(c, x, 'record', 'DelegationRecord', 'delegate', authority=auth, owner=x.key('owner_program'), delegation_slot=T('sysvar', 'Clock', 'slot'),
                      lamports=x.lam0('delegated'), commit_frequency_ms=arg(x, 'DelegateArgs', 'commit_frequency_ms'))
            fields_ok(c, x, 'metadata', 'DelegationMetadata', 'delegate', last_update_external_slot=ZERO, is_undelegatable=FALSE, seeds=arg(x, 'DelegateArgs', 'seeds'), rent_payer=x.key('payer'))
            c.need(x, x.num_eq(x.lam('delegated'), x.lam0('delegated')), 'the recorded lamports are the ones the account holds')

@rule('L02', 'must-fact on every recording exit: existing record, metadata and program-owned account, absent pending accounts; both pending accounts end program-owned')
def L02(c):
    for ix in COMMITS:
        for x in c.exits(ix):
            if x.noop: continue
            c.need(x, exists(x, 'delegated'), '%s: the account is owned by the delegation program' % ix)
            for r in ('record', 'metadata'):
                c.need(x, exists(x, r) and at_role(x, r), '%s: the account has a delegation %s' % (ix, r))
            for r in ('commit_state', 'commit_record'):
                c.need(x, not_exists(x, r) and at_role(x, r), '%s: no %s is pending before' % (ix, r))
                c.need(x, x.same(x.owner(r), DLP), '%s: the %s exists afterwards' % (ix, r))

def slot_old(x): return lt(commit_arg(x, 'slot'), meta(x, 'last_update_external_slot'))
@rule('L03', 'exits split on slot < last update slot: the outdated side has no event and no changed account and does not depend on anything else; the other side is where commits are recorded')
def L03(c):
    for ix in COMMITS:
        skip = False
        for x0 in c.exits(ix):
            for x in c.split(x0, slot_old(x0)):
                if x.yes(slot_old(x)):
                    c.need(x, x.noop, '%s: a commit with an outdated slot changes nothing' % ix)
                    if x.noop and not depends(x): skip = True
                else:
                    c.need(x, not x.noop, '%s: a commit with a current slot that succeeds is recorded' % ix)
            if not x0.noop: c.need(x0, x0.no_(slot_old(x0)), '%s: a recorded commit has at least the last update slot' % ix)
        c.needc(skip, '%s: an outdated commit succeeds whatever the pending accounts, balances, whitelist and undelegation flag' % ix, site=c.an.handler(ix))
def depends(x):
    """does a skipped commit depend on things that are irrelevant to it?"""
    irrelevant = {x.role(r) for r in ('commit_state', 'commit_record', 'config')}
    bad = lambda t: t.op in ('lam0', 'data0', 'owner0') and t.a[0] in irrelevant or t.op == 'lam0' or t is meta(x, 'is_undelegatable') or t is rec(x, 'lamports') \
        or t.op == 'fld' and t.a[0] is args(commit_args(x)) and t.a[1] in ('lamports', 'allow_undelegation')
    return any(contains(f, bad) for f in x.st.facts)

@rule('L04', 'final last_update_external_slot of every exit of every instruction with a metadata account: 0, unchanged, or the pending record\'s slot')
def L04(c):
    for x in c.exits('delegate'):
        v = decoded(x, 'metadata', 'DelegationMetadata')
        c.need(x, v is not None and x.same(v['last_update_external_slot'], ZERO), 'delegate: the last update slot starts at 0')
    for ix in COMMITS:
        for x in c.exits(ix):
            v = decoded(x, 'metadata', 'DelegationMetadata')
            c.need(x, v is not None and x.same(v['last_update_external_slot'], meta(x, 'last_update_external_slot')), '%s: the last update slot is unchanged' % ix)
            if not x.noop: c.need(x, x.no_(slot_old(x)), '%s: a recorded commit has at least the last update slot' % ix)
    for x in c.exits('finalize'):
        v = decoded(x, 'metadata', 'DelegationMetadata')
        if x.noop: continue
        c.need(x, v is not None and x.same(v['last_update_external_slot'], crec(x, 'slot')), 'finalize: the last update slot becomes exactly the committed slot (found %s)' % (show(v['last_update_external_slot']) if v else 'malformed metadata'), key='finalize slot')
    for x in c.exits('undelegate'):
        c.need(x, x.closed('metadata'), 'undelegate: the metadata is closed')

@rule('L05', 'must-fact and final is_undelegatable of every exit of every instruction with a metadata account')
def L05(c):
    for x in c.exits('delegate'):
        v = decoded(x, 'metadata', 'DelegationMetadata')
        c.need(x, v is not None and x.same(v['is_undelegatable'], FALSE), 'delegate: undelegation starts as not allowed')
    for ix in COMMITS:
        for x in c.exits(ix):
            if x.noop: continue
            v = decoded(x, 'metadata', 'DelegationMetadata')
            c.need(x, v is not None and x.same(v['is_undelegatable'], commit_arg(x, 'allow_undelegation')), '%s: the flag becomes exactly what the commit requested' % ix)
            c.need(x, x.no_(meta(x, 'is_undelegatable')), '%s: no commit is recorded once undelegation is allowed' % ix)
    for x in c.exits('finalize'):
        v = decoded(x, 'metadata', 'DelegationMetadata')
        c.need(x, v is not None and x.same(v['is_undelegatable'], meta(x, 'is_undelegatable')), 'finalize: the flag is unchanged')

@rule('L06', 'must-facts on every successful exit of undelegate')
def L06(c):
    for x in c.exits('undelegate'):
        c.need(x, x.yes(meta(x, 'is_undelegatable')), 'the metadata allows undelegation')
        c.need(x, exists(x, 'delegated'), 'the account is owned by the delegation program')
        for r in ('record', 'metadata'): c.need(x, exists(x, r) and at_role(x, r), 'the delegation %s exists' % r)
        for r in ('commit_state', 'commit_record'): c.need(x, not_exists(x, r) and at_role(x, r), 'no %s is pending' % r)

def ext_cpis(x): return [e for e in x.cpis() if e.prog is not SYS and not x.same(e.prog, SYS)]
def at_cpi(x, e, j):
    """(lamports, data, owner) of account j when the call e was made"""
    for s in e.snap:
        if s[0] == j: return tuple(x.simp(v) for v in s[1:])
    return None
@rule('L07', 'final cells of record, metadata, buffer and delegated account; snapshot of the delegated account at the call of the owner program')
def L07(c):
    for x0 in c.exits('undelegate'):
        for x in c.split(x0, is_len0(x0, 'delegated')):
            for r in ('record', 'metadata'): c.need(x, x.closed(r), 'the %s is closed' % r)
            ext = ext_cpis(x)
            d = x.role('delegated')
            if x.yes(is_len0(x, 'delegated')):
                c.need(x, x.same(x.owner('delegated'), rec(x, 'owner')), 'an account without data is assigned to the recorded owner program (found %s)' % show(x.simp(x.owner('delegated'))), key='assign')
                b = x.role('buffer')
                c.need(x, b not in x.changed() or x.closed('buffer'), 'no buffer is left behind')
            else:
                c.need(x, x.closed('buffer'), 'the temporary buffer is closed')
                c.need(x, len(ext) == 1 and x.same(ext[0].prog, rec(x, 'owner')), 'an account with data is handed over by one call of the recorded owner program')
                for e in ext[:1]:
                    s = at_cpi(x, e, d)
                    c.need(x, s is not None and x.num_eq(s[0], ZERO) and x.same(s[1], CLOSED) and x.same(s[2], SYS), 'the delegated account is closed before it is handed over (found %s)' % (None if s is None else [show(v) for v in s]), key='closed before handover')

def finalize_settled(x):
    """list of (condition, text) about the settlement of an effective finalize"""
    r, k = rec(x, 'lamports'), crec(x, 'lamports')
    lam, l0 = x.lam, x.lam0
    out = []
    total = sub(add(add(lam('validator'), lam('commit_state')), lam('commit_record')), add(add(l0('validator'), l0('commit_state')), l0('commit_record')))
    if x.yes(lt(k, r)):
        d = sub(r, k)
        out.append((x.num_eq(lam('delegated'), sub(l0('delegated'), d)), 'exactly the decrease leaves the delegated account', lam('delegated')))
        out.append((x.num_eq(lam('v_vault'), add(l0('v_vault'), d)), 'exactly the decrease reaches the validator\'s fees vault', lam('v_vault')))
        out.append((x.num_eq(total, ZERO), 'the pending accounts are not used for a decrease', total))
    elif x.yes(lt(r, k)):
        d = sub(k, r)
        out.append((x.num_eq(lam('delegated'), add(l0('delegated'), d)), 'exactly the increase reaches the delegated account', lam('delegated')))
        out.append((x.num_eq(lam('v_vault'), l0('v_vault')), 'the validator\'s fees vault is not used for an increase', lam('v_vault')))
        out.append((x.num_eq(total, sub(ZERO, d)), 'exactly the increase is taken from the pending state account', total))
        out.append((x.ge(l0('commit_state'), d), 'the pending state account held the increase', l0('commit_state')))
    else:
        out.append((x.num_eq(lam('delegated'), l0('delegated')), 'nothing moves when the balances are equal (delegated)', lam('delegated')))
        out.append((x.num_eq(lam('v_vault'), l0('v_vault')), 'nothing moves when the balances are equal (vault)', lam('v_vault')))
        out.append((x.num_eq(total, ZERO), 'nothing moves when the balances are equal (pending)', total))
    return out
def settle_cases(c, x): return c.split(x, lt(crec(x, 'lamports'), rec(x, 'lamports')), lt(rec(x, 'lamports'), crec(x, 'lamports')))

@rule('L08', 'finalize exits are exactly: no effect with both pending accounts absent, or all effects together with both pending accounts closed')
def L08(c):
    eff = 0
    for x in c.exits('finalize'):
        if x.noop:
            for r in ('commit_state', 'commit_record'):
                c.need(x, (x.absent(r) or x.num_eq(x.lam0(r), ZERO)) and at_role(x, r), 'finalize without effect: no %s is pending' % r)
            continue
        eff += 1
        for r in ('commit_state', 'commit_record'):
            c.need(x, exists(x, r) and at_role(x, r), 'finalize with effect: the %s was pending' % r)
            c.need(x, x.closed(r), 'the %s is closed' % r)
        c.need(x, x.same(x.data('delegated'), x.data0('commit_state')), 'the delegated account\'s data is updated')
        v = decoded(x, 'metadata', 'DelegationMetadata')
        c.need(x, v is not None and x.same(v['last_update_external_slot'], crec(x, 'slot')), 'the metadata is updated')
        v = decoded(x, 'record', 'DelegationRecord')
        c.need(x, v is not None and x.num_eq(v['lamports'], x.lam('delegated')) if v else False, 'the record is updated')
        for y in settle_cases(c, x):
            c.need(y, all(o for o, _, _ in finalize_settled(y)), 'the committed lamports are settled')
    c.needc(eff > 0, 'finalize has an effective exit', site=c.an.handler('finalize'))

@rule('L09', 'vault creation: address, absence before, 8-byte program-owned account after; closing needs an existing vault')
def L09(c):
    for ix, r in (('init_protocol_fees_vault', 'fees_vault'), ('init_validator_fees_vault', 'v_vault')):
        for x in c.exits(ix):
            c.need(x, at_role(x, r), '%s: the account is the vault\'s derived address' % ix)
            c.need(x, not_exists(x, r), '%s: the vault does not exist before' % ix)
            c.need(x, x.same(x.owner(r), DLP), '%s: the vault ends owned by the delegation program' % ix)
            c.need(x, x.num_eq(final_len(x, r), I(8)), '%s: the vault ends with 8 bytes' % ix)
    for x in c.exits('close_validator_fees_vault'):
        c.need(x, at_role(x, 'v_vault') and exists(x, 'v_vault'), 'close: the vault exists at its derived address')
        c.need(x, x.closed('v_vault'), 'close: the vault is closed')

# ------------------------------------------------------------------ state
@rule('S01', 'final data of the delegated account equals the initial data of the pending state account')
def S01(c):
    for x in c.exits('finalize'):
        if x.noop: continue
        c.need(x, x.same(x.data('delegated'), x.data0('commit_state')), 'the delegated account\'s data is the pending state\'s data (found %s)' % show(x.simp(x.data('delegated')))[:300], key='data')
        c.need(x, x.num_eq(final_len(x, 'delegated'), blen(x.data0('commit_state'))), 'the delegated account\'s data has the pending state\'s length')

@rule('S02', 'final data of both pending accounts equals the submitted data and the expected commit record encoding')
def S02(c):
    for ix in COMMITS:
        for x in c.exits(ix):
            if x.noop: continue
            want = commit_arg(x, 'data') if ix == 'commit_state' else x.data0('state_buffer')
            c.need(x, x.same(x.data('commit_state'), want), '%s: the pending state is exactly the submitted data (found %s)' % (ix, show(x.simp(x.data('commit_state')))[:300]), key='%s: pending data' % ix)
            fields_ok(c, x, 'commit_record', 'CommitRecord', ix, identity=x.key('validator'), account=x.key('delegated'), slot=commit_arg(x, 'slot'), lamports=commit_arg(x, 'lamports'))

DISC = lit(bytes([196, 28, 41, 206, 48, 37, 51, 167]))
@rule('S03', 'owner-program call: program, accounts with privileges, discriminator and seeds, buffer content at the call; equality of data after the call')
def S03(c):
    for x0 in c.exits('undelegate'):
        for x in c.split(x0, is_len0(x0, 'delegated')):
            if x.yes(is_len0(x, 'delegated')): continue
            ext = ext_cpis(x)
            c.need(x, len(ext) == 1, 'exactly one call of a program other than the system program')
            for e in ext[:1]:
                c.need(x, x.same(e.prog, rec(x, 'owner')), 'the called program is the recorded owner program')
                # (role, signs, writable); the flag of the account itself stands for writable, as the handler modifies it
                want = [('delegated', False, True), ('buffer', True, True), ('validator', True, True), ('system', False, False)]
                yes = lambda t: t is TRUE or isinstance(t, Term) and x.yes(t)
                okm = len(e.metas) == 4 and all(x.same(m[0], x.key(w[0])) and (not w[1] or yes(m[1])) and (not w[2] or yes(m[2]) or m[2] is T('is_writable', x.role(w[0]))) for m, w in zip(e.metas, want))
                c.need(x, okm, 'the call lists the account, the buffer and the validator as signers, all three writable, and the system program (found %s)' % [tuple(show(v) for v in m) for m in e.metas], key='call accounts')
                b = at_cpi(x, e, x.role('buffer'))
                c.need(x, b is not None and x.same(b[1], x.data0('delegated')), 'the buffer holds exactly the account\'s data at the call (found %s)' % (show(b[1])[:200] if b else None), key='buffer data')
                wd = cat(DISC, T('enc', 'Vec<Vec<u8>>', meta(x, 'seeds')))
                c.need(x, x.same(e.data, wd), 'the call carries the undelegation discriminator and the stored seeds (found %s)' % show(x.simp(e.data))[:300], key='call data')
                n = x.ev.index(next(v for v in x.ev if v[0] == 'cpi' and v[6] is e.snap and v[3] is e.data)) + 1
                after = T('datax', x.role('delegated'), n)
                c.need(x, x.same(after, x.data0('delegated')), 'the data after the call equals the buffer\'s data')

@rule('S04', 'final data of the delegated account on both sides of the empty-buffer split')
def S04(c):
    for x0 in c.exits('delegate'):
        for x in c.split(x0, is_len0(x0, 'buffer')):
            if x.yes(is_len0(x, 'buffer')):
                c.need(x, x.same(x.data('delegated'), x.data0('delegated')), 'with an empty buffer the data is untouched')
            else:
                c.need(x, x.same(x.data('delegated'), x.data0('buffer')), 'the data is the buffer\'s content (found %s)' % show(x.simp(x.data('delegated')))[:300], key='restored data')

@rule('S05', 'final delegation record of an effective finalize, compared with the final balance cell')
def S05(c):
    for x in c.exits('finalize'):
        if x.noop: continue
        fields_ok(c, x, 'record', 'DelegationRecord', 'finalize', lamports=x.lam('delegated'))

WRITES = {  # accounts whose data an instruction may change
    'delegate': 'record metadata delegated', 'commit_state': 'metadata commit_state commit_record', 'commit_state_from_buffer': 'metadata commit_state commit_record',
    'finalize': 'record metadata delegated commit_state commit_record', 'undelegate': 'record metadata delegated buffer validator',
    'init_protocol_fees_vault': 'fees_vault', 'init_validator_fees_vault': 'v_vault', 'validator_claim_fees': '', 'whitelist_validator_for_program': 'config',
    'top_up_ephemeral_balance': '', 'delegate_ephemeral_balance': 'payer pubkey balance record metadata buffer system dlp', 'close_ephemeral_balance': '', 'protocol_claim_fees': '', 'close_validator_fees_vault': 'v_vault'}
@rule('S06', 'per field of record and metadata: final value equals the initial one; per instruction: set of accounts whose data changes')
def S06(c):
    for ix in COMMITS:
        for x in c.exits(ix):
            c.need(x, x.same(x.data('record'), x.data0('record')), '%s: the delegation record is untouched' % ix)
            v = decoded(x, 'metadata', 'DelegationMetadata')
            for f in ('seeds', 'rent_payer'):
                c.need(x, v is not None and x.same(v[f], meta(x, f)), '%s: %s is unchanged' % (ix, f))
    for x in c.exits('finalize'):
        v = decoded(x, 'record', 'DelegationRecord')
        for f in ('authority', 'owner', 'delegation_slot', 'commit_frequency_ms'):
            c.need(x, v is not None and x.same(v[f], rec(x, f)), 'finalize: record.%s is unchanged' % f)
        v = decoded(x, 'metadata', 'DelegationMetadata')
        for f in ('seeds', 'rent_payer'):
            c.need(x, v is not None and x.same(v[f], meta(x, f)), 'finalize: metadata.%s is unchanged' % f)
    for ix, rs in WRITES.items():
        for x in c.exits(ix):
            allowed = {x.role(r) for r in rs.split()}
            w = {i for i, a in x.changed().items() if 'data' in a}
            c.need(x, w <= allowed, '%s: writes data only to %s (writes %s)' % (ix, rs or 'nothing', [nm(x, i) for i in w - allowed]), key='%s: data writes' % ix)
            if ix not in ('delegate', 'commit_state', 'commit_state_from_buffer', 'finalize', 'undelegate'):
                for i in w:
                    if ix == 'delegate_ephemeral_balance' and i != x.role('balance'): continue
                    k = x.simp(T('key', i))
                    ok = not isinstance(k, Term) or k.op != 'pda' or not could_start(k, b'delegation')
                    c.need(x, ok, '%s: does not write to a delegation record or metadata address' % ix)
def nm(x, i):
    r = x.an.roles[x.ix]
    return r[i] if i < len(r) else str(i)

@rule('S07', 'final whitelist content equals the encoding of the previous set with the key inserted or removed; set of changed accounts')
def S07(c):
    for x0 in c.exits('whitelist_validator_for_program'):
        ins = arg(x0, 'WhitelistValidatorForProgramArgs', 'insert')
        for x in c.split(x0, ins):
            old = x.fld('ProgramConfig', 'config', 'approved_validators')
            k = x.key('identity')
            fresh = not_exists(x, 'config') or x.yes(is_len0(x, 'config'))
            base = T('emptyset') if fresh else old
            d = decoded_any(x, 'config', 'ProgramConfig')
            got = d['approved_validators'] if d else None
            want = x.an.m.ins(base, k) if x.yes(ins) else T('rem', base, k)
            ok = d is not None and (setsame(x, got, want))
            c.need(x, ok, 'the whitelist ends as the previous set with the validator %s (found %s)' % ('inserted' if x.yes(ins) else 'removed', show(got)[:200] if d else show(x.simp(x.data('config')))[:300]), key='set')
            c.need(x, ends_owned(x, 'config'), 'the whitelist account is owned by the delegation program')
            c.need(x, at_role(x, 'config'), 'the whitelist is the program\'s own')
            ch = x.changed()
            c.need(x, set(ch) <= {x.role('authority'), x.role('config')} and ch.get(x.role('authority'), {'lam'}) <= {'lam'}, 'nothing else changes (changed %s)' % [nm(x, i) for i in ch], key='changed')
def decoded_any(x, role, ty):
    v = decoded(x, role, ty)
    return v
def setsame(x, a, b):
    """equality of two set terms"""
    if x.same(a, b): return True
    a, b = x.simp(a), x.simp(b)
    # removing from the empty set / a set known not to contain the key
    def red(s):
        if isinstance(s, Term) and s.op in ('rem', 'ins'):
            base = red(s.a[0]); k = s.a[1]
            if s.op == 'rem' and (base.op == 'emptyset' or x.no_(T('in', k, base))): return base
            if s.op == 'ins' and x.yes(T('in', k, base)): return base
            if base.op in ('rem', 'ins') and x.same(base.a[1], k): return red(T(s.op, base.a[0], k))
            return T(s.op, base, k)
        return s
    a, b = red(a), red(b)
    return a is b or x.same(a, b)

@rule('S08', 'every typed view of account data is at offset 8 behind a checked length and tag; every typed content written starts with its tag')
def S08(c):
    seen = set()
    for ix in IX:
        for x in c.exits(ix):
            vals = list(x.st.facts) + list(x.cells.values()) + [e[3] for e in x.ev if e[0] == 'cpi']
            sts, raw = {}, {}
            for v in vals:
                for t in contains(v, lambda t: t.op == 'st'): sts[t] = 1
                for t in contains(v, lambda t: t.op in ('podv', 'dec', 'decp') and contains(t.a[1], lambda u: u.op == 'data0')): raw[t] = 1
            for t in sts:
                ty, i = t.a
                if ty in TAGS:
                    seen.add((ix, ty, 'read'))
                    c.need(x, x.tagged(i, ty), '%s: reading %s as %s checks length and tag %d' % (ix, nm(x, i), ty, TAGS[ty]))
                else:
                    c.need(x, False, '%s: account %s is read as the untagged type %s' % (ix, nm(x, i), ty))
            for t in raw:
                c.need(x, False, '%s: typed read of account data that is not behind an 8-byte tag: %s' % (ix, show(t)[:200]), key='untagged read')
            for (k, i), v in x.cells.items():
                if k != 'data': continue
                v = x.simp(v)
                for b in contains(v, lambda t: t.op in ('pod', 'enc') and short(t.a[0]) in TAGS):
                    ty = short(b.a[0])
                    parts = v.a if v.op == 'cat' else (v,)
                    ok = len(parts) >= 2 and parts[1] is b and (parts[0] is tag(ty) or x.same(parts[0], tag(ty)))
                    seen.add((ix, ty, 'write'))
                    c.need(x, ok, '%s: the %s written to %s is preceded by its tag %d (found %s)' % (ix, ty, nm(x, i), TAGS[ty], show(v)[:200]), key='%s: tag written before %s' % (ix, ty))
    for ty in TAGS:
        for m in ('read', 'write'):
            c.needc(any(s[1] == ty and s[2] == m for s in seen), '%s is %s by some instruction' % (ty, m))
    c.needc(len(set(TAGS.values())) == len(TAGS), 'tags are pairwise different')

# ------------------------------------------------------------------ money
@rule('M01', 'final balance cells of delegated account, fees vault and pending state on the three sides of the recorded/committed comparison')
def M01(c):
    for x in c.exits('finalize'):
        if x.noop: continue
        for y in settle_cases(c, x):
            for ok, what, found in finalize_settled(y):
                c.need(y, ok, '%s (found %s)' % (what, show(y.simp(found))), key=what)

@rule('M02', 'balance cells of validator and pending accounts of every recorded commit, against creation rent plus the excess')
def M02(c):
    for ix in COMMITS:
        for x0 in c.exits(ix):
            if x0.noop: continue
            r, k = rec(x0, 'lamports'), commit_arg(x0, 'lamports')
            for x in c.split(x0, lt(r, k)):
                ex = sub(k, r) if x.yes(lt(r, k)) else ZERO
                what = 'exactly the excess' if ex is not ZERO else 'no collateral'
                n2, n3 = final_lens(x, 'commit_state'), final_lens(x, 'commit_record')
                ok2 = funded(x, x.lam('commit_state'), x.lam0('commit_state'), n2, ex)
                c.need(x, ok2, '%s: the pending state account receives %s besides missing creation rent (found %s)' % (ix, what, show(x.simp(x.lam('commit_state')))), key='%s: pending state balance' % ix)
                c.need(x, x.ge(x.lam('commit_state'), ex), '%s: the pending state account holds the whole excess' % ix)
                tot = sub(add(add(x.lam('validator'), x.lam('commit_state')), x.lam('commit_record')), add(add(x.lam0('validator'), x.lam0('commit_state')), x.lam0('commit_record')))
                c.need(x, x.num_eq(tot, ZERO), '%s: the validator pays exactly what the pending accounts gain' % ix)
                ok3 = funded(x, x.lam('commit_record'), x.lam0('commit_record'), n3, ZERO)
                c.need(x, ok3, '%s: the commit record receives nothing but missing creation rent (found %s)' % (ix, show(x.simp(x.lam('commit_record')))), key='%s: commit record balance' % ix)
            c.need(x0, x0.ge(x0.lam0('delegated'), r), '%s: the delegated account holds at least its recorded balance' % ix)
            c.need(x0, x0.num_eq(x0.lam('delegated'), x0.lam0('delegated')), '%s: the delegated account\'s balance is untouched' % ix)

@rule('M03', 'sum of all direct balance edits along every successful exit is identically zero')
def M03(c):
    for ix in IX:
        for x in c.exits(ix):
            c.need(x, x.num_eq(x.ledger, ZERO), '%s: lamports added equal lamports removed (difference %s)' % (ix, show(x.simp(x.ledger))), key='%s: ledger' % ix)
            if not ext_cpis(x):
                t = ZERO
                for (k, i), v in x.cells.items():
                    if k == 'lam': t = add(t, sub(v, T('lam0', i)))
                c.need(x, x.num_eq(t, ZERO), '%s: the balances at the end add up to those at the start' % ix)

@rule('M04', 'final balance cells of both vaults and the rent payer against the fee schedule')
def M04(c):
    for x in c.exits('undelegate'):
        a, b = x.lam0('record'), x.lam0('metadata')
        fee = lambda t: div(scale(t, 10), I(100))
        prot = lambda t: div(scale(fee(t), 10), I(100))
        ep = add(prot(a), prot(b)); ef = add(fee(a), fee(b))
        for r, w in (('fees_vault', add(x.lam0('fees_vault'), ep)), ('v_vault', add(x.lam0('v_vault'), sub(ef, ep))), ('rent_payer', add(x.lam0('rent_payer'), sub(add(a, b), ef)))):
            if r == 'rent_payer' and x.alias:       # also the validator: what the vaults do not get stays with the party, as the edits balance
                c.need(x, x.num_eq(x.ledger, ZERO), 'undelegate: the rent payer, who is also the validator, receives the rest')
                continue
            c.need(x, x.num_eq(x.lam(r), w), 'undelegate: the %s receives its share (found %s)' % (r, show(x.simp(x.lam(r)))), key='share of ' + r)
        for r in ('record', 'metadata'): c.need(x, x.num_eq(x.lam(r), ZERO), 'undelegate: the %s is left with nothing' % r)

@rule('M05', 'final balance cells of vaults and validator of every successful claim; rent minimum preserved')
def M05(c):
    for x0 in c.exits('validator_claim_fees'):
        am = arg(x0, 'ValidatorClaimFeesArgs', 'amount')
        for x in c.split(x0, T('is', am, 'None')):
            none = x.yes(T('is', am, 'None'))
            ok = False
            for R in rents(I(8)):
                a = sub(x.lam0('v_vault'), R) if none else T('fld', am, 'Some', '0')
                p = div(scale(a, 10), I(100))
                ok = ok or (x.num_eq(x.lam('v_vault'), sub(x.lam0('v_vault'), a)) and x.ge(x.lam('v_vault'), R)
                            and x.num_eq(x.lam('fees_vault'), add(x.lam0('fees_vault'), p)) and x.num_eq(x.lam('validator'), add(x.lam0('validator'), sub(a, p))))
            c.need(x, ok, 'the claim of %s removes exactly that from the vault, leaves the rent minimum, and splits it 10%%/90%% (vault %s, protocol %s, validator %s)' % (
                'everything' if none else 'an amount', show(x.simp(x.lam('v_vault'))), show(x.simp(x.lam('fees_vault'))), show(x.simp(x.lam('validator')))), key='claim of ' + ('everything' if none else 'an amount'))
            c.need(x, any(x.ge(x.lam0('v_vault'), R) for R in rents(I(8))), 'the vault held at least its rent minimum')

@rule('M06', 'final balance cells of protocol vault and admin')
def M06(c):
    for x in c.exits('protocol_claim_fees'):
        ok = any(x.num_eq(x.lam('fees_vault'), R) and x.num_eq(x.lam('admin'), sub(add(x.lam0('admin'), x.lam0('fees_vault')), R)) and x.ge(x.lam0('fees_vault'), R) for R in rents(I(8)))
        c.need(x, ok, 'the claim moves exactly what exceeds the rent minimum (vault %s, admin %s)' % (show(x.simp(x.lam('fees_vault'))), show(x.simp(x.lam('admin')))), key='claim')

@rule('M07', 'interval and difference reasoning: no balance, stored number, transferred amount or path condition of a successful exit contains the result of an operation that may have wrapped, truncated or been clamped')
def M07(c):
    W = lambda t: t.op == 'wrap'
    for ix in IX:
        for x in c.exits(ix):
            for (k, i), v in x.cells.items():
                c.need(x, not contains(v, W), '%s: the final %s of %s is free of unchecked arithmetic (%s)' % (ix, k, nm(x, i), show(v)[:200]), key='%s: cells' % ix, site=wsite(x))
            for e in x.cpis():
                c.need(x, not contains((e.data,), W), '%s: the amount of a cross-program call is free of unchecked arithmetic' % ix, site=wsite(x))
            for f in x.st.facts:
                c.need(x, not contains(f, W), '%s: the check %s is free of unchecked arithmetic' % (ix, show(f)[:200]), key='%s: checks' % ix, site=wsite(x))
            sat = [n for n in x.notes if n[0] == 'wrap' and n[1].startswith('saturating')]
            c.need(x, not sat, '%s: no addition or multiplication was clamped on the way to success' % ix, site=wsite(x))
def wsite(x):
    for n in x.notes:
        if n[0] == 'wrap': return '%s in %s' % (n[1], n[2])
    return None

@rule('M08', 'balances at the call of the owner program, the equation checked after it, and the final transfer')
def M08(c):
    for x0 in c.exits('undelegate'):
        for x in c.split(x0, is_len0(x0, 'delegated')):
            if x.yes(is_len0(x, 'delegated')):
                c.need(x, x.num_eq(x.lam('delegated'), x.lam0('delegated')), 'an account without data keeps its lamports')
                continue
            d, v = x.role('delegated'), x.role('validator')
            ext = ext_cpis(x)
            c.need(x, len(ext) == 1, 'one call of the owner program')
            for e in ext[:1]:
                pos = next(i for i, ev in enumerate(x.ev) if ev[0] == 'cpi' and ev[6] is e.snap and ev[3] is e.data)
                n = pos + 1
                s, sd = at_cpi(x, e, v), at_cpi(x, e, d)
                c.need(x, sd is not None and x.num_eq(sd[0], ZERO), 'the account\'s lamports were taken before the call')
                # validator at the call = initial - what it paid for the buffer + everything the account held
                buf = at_cpi(x, e, x.role('buffer'))
                paid = sub(buf[0], x.lam0('buffer')) if buf else ZERO
                c.need(x, s is not None and x.num_eq(s[0], sub(add(x.lam0('validator'), x.lam0('delegated')), paid)), 'all of the account\'s lamports went to the validator (found %s)' % (show(s[0]) if s else None), key='to validator')
                after = T('lamx', v, n); da = T('datax', d, n)
                ok = [R for R in rents(blen(da)) + rents(blen(x.data0('delegated'))) if s is not None and x.num_eq(s[0], add(after, R))]
                c.need(x, bool(ok), 'success requires that the owner program took exactly the minimum rent of the returned data from the validator')
                fin = [R for R in rents(blen(da)) + rents(blen(x.data0('delegated'))) if x.num_eq(x.lam('delegated'), sub(add(T('lamx', d, n), x.lam0('delegated')), R))]
                c.need(x, bool(fin), 'the rest of the balance is then transferred to the account (found %s)' % show(x.simp(x.lam('delegated'))), key='rest')

@rule('M09', 'final cells of every closed account and of its beneficiary')
def M09(c):
    for x in c.exits('finalize'):
        if x.noop: continue
        for r in ('commit_state', 'commit_record'): c.need(x, x.closed(r), 'finalize: the %s is left empty' % r)
        for y in settle_cases(c, x):
            d = sub(crec(y, 'lamports'), rec(y, 'lamports')) if y.yes(lt(rec(y, 'lamports'), crec(y, 'lamports'))) else ZERO
            w = sub(add(add(y.lam0('validator'), y.lam0('commit_state')), y.lam0('commit_record')), d)
            c.need(y, y.num_eq(y.lam('validator'), w), 'finalize: the validator receives everything left in the pending accounts (found %s)' % show(y.simp(y.lam('validator'))), key='finalize: beneficiary')
    for x in c.exits('close_validator_fees_vault'):
        c.need(x, x.closed('v_vault'), 'close: the vault is left empty')
        c.need(x, x.num_eq(x.lam('identity'), add(x.lam0('identity'), x.lam0('v_vault'))), 'close: the validator receives the vault\'s balance (found %s)' % show(x.simp(x.lam('identity'))), key='close: beneficiary')
    for x0 in c.exits('undelegate'):
        for x in c.split(x0, is_len0(x0, 'delegated')):
            if x.yes(is_len0(x, 'delegated')) and x.role('buffer') not in x.changed(): continue
            c.need(x, x.closed('buffer'), 'undelegate: the buffer is left empty')
            for e in ext_cpis(x)[:1]:
                n = next(i for i, ev in enumerate(x.ev) if ev[0] == 'cpi' and ev[6] is e.snap and ev[3] is e.data) + 1
                v, b, d = x.role('validator'), x.role('buffer'), x.role('delegated')
                sent = sub(x.lam('delegated'), T('lamx', d, n))
                if x.alias:
                    c.need(x, x.num_eq(x.ledger, ZERO), 'undelegate: the validator, who is also the rent payer, receives the buffer\'s balance')
                    continue
                c.need(x, x.num_eq(x.lam('validator'), sub(add(T('lamx', v, n), T('lamx', b, n)), sent)), 'undelegate: the validator receives the buffer\'s balance (found %s)' % show(x.simp(x.lam('validator'))), key='undelegate: beneficiary')

@rule('M10', 'final balance cells of payer and balance of every top-up')
def M10(c):
    for x in c.exits('top_up_ephemeral_balance'):
        am = arg(x, 'TopUpEphemeralBalanceArgs', 'amount')
        c.need(x, at_role(x, 'balance'), 'the balance is derived from the key and index')
        ok = x.num_eq(x.lam('balance'), add(x.lam0('balance'), am)) or not_exists_sys(x, 'balance') and funded(x, x.lam('balance'), x.lam0('balance'), ZERO, am)
        ok = ok and x.num_eq(add(x.lam('balance'), x.lam('payer')), add(x.lam0('balance'), x.lam0('payer')))
        c.need(x, ok, 'exactly the amount moves from the payer to the balance, besides creation rent (balance %s, payer %s)' % (show(x.simp(x.lam('balance'))), show(x.simp(x.lam('payer')))), key='amounts')
        c.need(x, set(x.changed()) <= {x.role('payer'), x.role('balance')}, 'nobody else is affected')

@rule('M11', 'final balance cells of a closed balance; ownership required')
def M11(c):
    for x in c.exits('close_ephemeral_balance'):
        c.need(x, x.same(x.owner0('balance'), SYS) or x.notowned('balance'), 'a delegated balance is not closed')
        c.need(x, x.num_eq(x.lam('balance'), ZERO), 'the balance is left with nothing (found %s)' % show(x.simp(x.lam('balance'))), key='left')
        c.need(x, x.num_eq(x.lam('payer'), add(x.lam0('payer'), x.lam0('balance'))), 'the owner receives the entire balance (found %s)' % show(x.simp(x.lam('payer'))), key='received')

# ------------------------------------------------------------------ failures, signatures
@rule('F01', 'no successful exit carries the log entry of a failed step, except documented no-ops without effects')
def F01(c):
    for ix in IX:
        for x in c.exits(ix):
            fs = [f for f in x.fails if f[0] != 'sysvar']      # (the runtime never fails these; their values are judged by the other rules)
            if x.noop and ix == 'finalize': fs = [f for f in fs if f[0] == 'check']
            if x.noop and ix == 'finalize' and not_exists(x, 'commit_state') and not_exists(x, 'commit_record'): fs = []
            if x.noop and ix in COMMITS and x.yes(slot_old(x)): fs = []
            for f in fs or [None]:
                c.need(x, f is None, '%s: succeeds although a step failed: %s' % (ix, f), key='%s: no swallowed failure' % ix, site=f[1] if f else None)

@rule('E07', 'signing seeds of every cross-program call denote the checked key of one of its accounts; owner argument of every creation')
def E07(c):
    n = 0
    for ix in IX:
        for x in c.exits(ix):
            for e in x.cpis():
                for s in e.signers:
                    n += 1
                    hit = [j for j in e.res if j is not None and x.same(T('key', j), s)]
                    c.need(x, bool(hit), '%s: the signature for %s is that of a checked account of the call' % (ix, show(x.simp(s))[:160]), key='%s: signer' % ix)
                    c.need(x, isinstance(x.simp(s), Term) and x.simp(s).op == 'pda', '%s: signs with the seeds and bump found for the address' % ix)
                if e.sys in ('create_account', 'assign') and e.res[-1 if e.sys == 'create_account' else 0] is not None:
                    j = e.res[1] if e.sys == 'create_account' else e.res[0]
                    o = e.args()[4] if e.sys == 'create_account' else e.args()[1]
                    k = x.simp(T('key', j))
                    bal = isinstance(k, Term) and k.op == 'pda' and k.a[0].op == 'cat' and k.a[0].a[0] is lit(b'balance')
                    want = SYS if bal and ix != 'delegate_ephemeral_balance' else DLP
                    c.need(x, x.same(o, want), '%s: %s is created with owner %s (found %s)' % (ix, nm(x, j), show(want), show(x.simp(o))), key='%s: created owner' % ix)
    c.needc(n > 0, 'the program signs for derived accounts')

@rule('E06', 'events of delegate_ephemeral_balance: assignment of the balance, one call of the delegation program with exactly these accounts, data and signer')
def E06(c):
    for x in c.exits('delegate_ephemeral_balance'):
        A = args('DelegateEphemeralBalanceArgs')
        da = T('fld', A, 'delegate_args')
        ev = x.cpis()
        asg = [e for e in ev if e.sys == 'assign']
        oth = [e for e in ev if e.sys is None]
        c.need(x, len(ev) == 2 and len(asg) == 1 and len(oth) == 1, 'one assignment and one call (found %d calls)' % len(ev))
        for e in asg: c.need(x, x.same(e.args()[0], x.key('balance')) and x.same(e.args()[1], DLP), 'the balance account is assigned to the delegation program')
        c.need(x, at_role(x, 'balance') and x.signed('pubkey'), 'the balance is derived from the signing key and the index')
        for e in oth:
            c.need(x, x.same(e.prog, DLP), 'the call goes to the delegation program')
            b = x.key('balance')
            want = [(x.key('payer'), TRUE), (b, TRUE), (SYS, FALSE), (T('pda', cat(lit(b'buffer'), pkb(b)), SYS), FALSE), (x.pda('#delegation', b), FALSE), (x.pda('#delegation-metadata', b), FALSE), (SYS, FALSE)]
            flag = lambda t, v: t is v or isinstance(t, Term) and (x.has(t) is (v is TRUE))
            isw = lambda t: flag(t, TRUE) or isinstance(t, Term) and t.op == 'is_writable'
            ok = len(e.metas) == len(want) and all(x.same(m[0], w[0]) and flag(m[1], w[1]) for m, w in zip(e.metas, want)) and all(isw(e.metas[i][2]) for i in (0, 1, 3, 4, 5))
            c.need(x, ok, 'the call lists payer, balance, system program as owner, buffer, record, metadata, system program (found %s)' % [(show(x.simp(m[0]))[:60], show(m[1])) for m in e.metas], key='call accounts')
            seeds = Arr((lit(b'balance'), pkb(x.key('pubkey')), Arr((T('fld', A, 'index'),))))
            wd = cat(lit(bytes(8)), x.enc('DelegateArgs', commit_frequency_ms=T('fld', da, 'commit_frequency_ms'), seeds=seeds, validator=T('fld', da, 'validator')))
            c.need(x, x.same(norm_enc(x, e.data), norm_enc(x, wd)), 'the call carries the delegate tag, the caller\'s frequency and validator, and the balance\'s own seeds (found %s)' % show(x.simp(e.data))[:400], key='call data')
            c.need(x, len(e.signers) == 1 and x.same(e.signers[0], b), 'the call is signed with the balance\'s seeds only')
def norm_enc(x, t):
    """byte-vector literals inside encoded values as byte strings"""
    def go(v):
        if isinstance(v, Agg): return Agg(v.v, tuple(go(y) for y in v.fs))
        if isinstance(v, Arr):
            if v.xs and all(isinstance(y, Term) and (isint(y) or y.op in ('fld', 'at')) for y in v.xs): return tobytes(v)
            return Arr(tuple(go(y) for y in v.xs))
        if isinstance(v, Term) and v.op in ('cat', 'enc'):
            na = tuple(go(y) if isinstance(y, (Term, Agg, Arr)) else y for y in v.a)
            return cat(*na) if v.op == 'cat' else T(v.op, *na)
        return v
    return go(x.simp(t))
