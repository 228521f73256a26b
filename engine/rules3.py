"""Rules: frame, creation, and call-target properties"""
from rules2 import *
from rules2 import RULES, Check, Analysis, Missing
import rules, rules2
from rules import *

ALL = 'lam data owner'
PENDING = {'commit_state': ALL, 'commit_record': ALL}
# what each instruction may change: lamports, data, owner
FRAME = {
    'delegate': {'payer': 'lam', 'record': ALL, 'metadata': ALL, 'delegated': 'data'},
    'commit_state': {'validator': 'lam', 'metadata': 'data', **PENDING},
    'commit_state_from_buffer': {'validator': 'lam', 'metadata': 'data', **PENDING},
    'finalize': {'validator': 'lam', 'delegated': 'lam data', 'record': 'data', 'metadata': 'data', 'v_vault': 'lam', **PENDING},
    # the owner program is handed the account, the buffer and the validator
    'undelegate': {'validator': ALL, 'delegated': ALL, 'buffer': ALL, 'record': ALL, 'metadata': ALL, 'rent_payer': 'lam', 'fees_vault': 'lam', 'v_vault': 'lam'},
    'init_protocol_fees_vault': {'payer': 'lam', 'fees_vault': ALL},
    'init_validator_fees_vault': {'payer': 'lam', 'v_vault': ALL},
    'validator_claim_fees': {'validator': 'lam', 'fees_vault': 'lam', 'v_vault': 'lam'},
    'whitelist_validator_for_program': {'authority': 'lam', 'config': ALL},
    'top_up_ephemeral_balance': {'payer': 'lam', 'balance': 'lam'},
    'delegate_ephemeral_balance': {'payer': 'lam', 'balance': ALL},
    'close_ephemeral_balance': {'payer': 'lam', 'balance': 'lam'},
    'protocol_claim_fees': {'admin': 'lam', 'fees_vault': 'lam'},
    'close_validator_fees_vault': {'identity': 'lam', 'v_vault': ALL},
}
@rule('F02', 'set of accounts whose balance, data or owner may differ at each successful exit, against the instruction\'s frame')
def F02(c):
    for ix in IX:
        fr = FRAME[ix]
        for x in c.exits(ix):
            for i, ks in x.changed().items():
                if ix == 'delegate_ephemeral_balance': ks = [k for k in ks if x.simp(x.cells[(k, i)]).op not in ('lamx', 'datax', 'ownerx')]    # done by the delegate instruction it invokes (E06)
                rs = [r for j, r in enumerate(x.an.roles[ix]) if x.role(r) == i]
                for k in sorted(ks):
                    word = {'lam': 'balance', 'data': 'data', 'owner': 'owner'}[k]
                    c.need(x, any(k in fr.get(r, '').split() for r in rs), '%s: the %s of %s is left as it was (found %s)' % (ix, word, nm(x, i), show(x.simp(x.cells[(k, i)]))[:200]), key='%s: %s of %s' % (ix, word, nm(x, i)))
            c.need(x, True, '%s: only the accounts of its frame change' % ix)

CREATES = {'delegate': 'record metadata', 'commit_state': 'commit_state commit_record', 'commit_state_from_buffer': 'commit_state commit_record', 'undelegate': 'buffer',
           'init_protocol_fees_vault': 'fees_vault', 'init_validator_fees_vault': 'v_vault', 'whitelist_validator_for_program': 'config', 'top_up_ephemeral_balance': 'balance'}
@rule('L10', 'for each account an instruction creates and each of three balances it may already hold: some successful exit that creates it is consistent with them')
def L10(c):
    for ix, rs in CREATES.items():
        for r in rs.split():
            for n, what in ((0, 'nothing'), (1, 'less than its rent'), (1 << 40, 'more than its rent')):
                ok = False
                xs = c.exits(ix)
                for x in xs:
                    if x.noop: continue
                    y = x
                    for t, v in ((eq(x.owner0(r), SYS), True), (eq(blen(x.data0(r)), ZERO), True), (eq(x.lam0(r), I(n)), True)):
                        y = y and y.assume(t, v)
                    if y is not None and (i_changed(y, x.role(r)) or any(e.sys and x.role(r) in e.res for e in y.cpis())): ok = True; break
                c.need(xs[0], ok, '%s: can succeed when the %s account it creates already holds %s' % (ix, r, what))
def i_changed(x, i): return i in x.changed()

@rule('M12', 'final balance of every created or enlarged account against its prior balance and the rent minimum of its final size; the payer\'s debit equals what the created accounts gain')
def M12(c):
    for ix, payer, rs in (('delegate', 'payer', 'record metadata'), ('init_protocol_fees_vault', 'payer', 'fees_vault'), ('init_validator_fees_vault', 'payer', 'v_vault'), ('whitelist_validator_for_program', 'authority', 'config')):
        for x in c.exits(ix):
            gain = ZERO
            for r in rs.split():
                a, b = x.lam0(r), x.lam(r)
                gain = add(gain, sub(b, a))
                ok = funded(x, b, a, final_lens(x, r), ZERO)
                if not ok and r == 'config':
                    ns = final_lens(x, r)
                    keeps = x.num_eq(a, b) and any(x.ge(blen(x.data0(r)), n) for n in ns)           # an existing whitelist that does not grow keeps its balance
                    mins = [t for t in contains(b, lambda t: t.op == 'minbal') if any(x.ge(n, t.a[1]) for n in ns)]     # created smaller, then enlarged
                    ok = keeps or any(x.num_eq(b, t) for t in mins) and any(x.ge(b, R) for n in ns for R in rents(n))
                c.need(x, ok, '%s: the %s ends with the larger of its prior balance and the rent minimum of its size (found %s)' % (ix, r, show(x.simp(b))[:300]), key='%s: balance of %s' % (ix, r))
            c.need(x, x.num_eq(sub(x.lam0(payer), x.lam(payer)), gain), '%s: the %s pays exactly what the created accounts gain' % (ix, payer))

@rule('A12', 'program operand of every cross-program call on every successful exit')
def A12(c):
    for ix in IX:
        for x in c.exits(ix):
            for e in x.cpis():
                ok = e.prog is SYS or ix == 'undelegate' and x.same(e.prog, rec(x, 'owner')) or ix == 'delegate_ephemeral_balance' and x.same(e.prog, DLP)
                c.need(x, ok, '%s: calls only the system program%s (found %s)' % (ix, {'undelegate': ' and the recorded owner program', 'delegate_ephemeral_balance': ' and itself'}.get(ix, ''), show(e.prog)), key='%s: call target' % ix)
            c.need(x, True, '%s: call targets' % ix)

# ------------------------------------------------------------------ nothing legitimate is refused
def situations(ix, x):
    """{situation: [facts]} that the instruction must be able to succeed in"""
    L = lambda r: blen(x.data0(r))
    s = {}
    if ix == 'delegate':
        v, oc, b = arg(x, 'DelegateArgs', 'validator'), T('oncurve', x.key('delegated')), L('buffer')
        s = {'a chosen validator': [T('is', v, 'Some')], 'no chosen validator': [T('is', v, 'None')], 'an account on the curve': [(T('is', v, 'None')), oc],
             'a derived account': [not_(oc), not_(eq(x.key('owner_program'), SYS))], 'a derived account of the system program': [not_(oc), eq(x.key('owner_program'), SYS)],
             'an empty buffer': [eq(b, ZERO)], 'a filled buffer': [not_(eq(b, ZERO))],
             'an account without lamports above its rent or with many': [eq(x.lam0('delegated'), I(1 << 60))]}
    elif ix in COMMITS:
        r, k, sl, last = rec(x, 'lamports'), commit_arg(x, 'lamports'), commit_arg(x, 'slot'), meta(x, 'last_update_external_slot')
        for n, f in (('less lamports', lt(k, r)), ('the same lamports', eq(k, r)), ('more lamports', lt(r, k))):
            for m, g in (('the last update slot', eq(sl, last)), ('a later slot', lt(last, sl))): s['%s at %s' % (n, m)] = [f, g]
        s['slot 0 right after delegation'] = [eq(sl, ZERO), eq(last, ZERO)]
        s['no whitelist'] = [eq(x.owner0('config'), SYS), eq(L('config'), ZERO), eq(x.lam0('config'), ZERO)]
        s['no whitelist, but lamports at its address'] = [eq(x.owner0('config'), SYS), eq(L('config'), ZERO), eq(x.lam0('config'), I(1))]
        s['a whitelist'] = [eq(x.owner0('config'), DLP)]
        u = commit_arg(x, 'allow_undelegation')
        s['undelegation allowed'] = [u]; s['undelegation not allowed'] = [not_(u)]
        s['an account that received lamports meanwhile'] = [lt(r, x.lam0('delegated'))]
        s['an account with exactly its recorded lamports'] = [eq(r, x.lam0('delegated'))]
        if ix == 'commit_state_from_buffer': s['an empty state'] = [eq(L('state_buffer'), ZERO)]; s['a state of 5000 bytes'] = [eq(L('state_buffer'), I(5000))]
        else:
            n = blen(commit_arg(x, 'data'))
            s['an empty state'] = [eq(n, ZERO)]; s['a state of 500 bytes'] = [eq(n, I(500))]
    elif ix == 'finalize':
        r, k, a, b = rec(x, 'lamports'), crec(x, 'lamports'), L('delegated'), L('commit_state')
        for n, f in (('less lamports', lt(k, r)), ('the same lamports', eq(k, r)), ('more lamports', lt(r, k))):
            for m, g in (('longer data', lt(a, b)), ('data of the same length', eq(a, b)), ('shorter data', lt(b, a))): s['%s and %s' % (n, m)] = [f, g]
        s['an emptied account'] = [eq(b, ZERO), lt(ZERO, a)]
        u = meta(x, 'is_undelegatable')
        s['undelegation allowed'] = [u]; s['undelegation not allowed'] = [not_(u)]
        s['slot 0'] = [eq(crec(x, 'slot'), ZERO)]
        s['more lamports arrived at the pending accounts'] = [eq(x.lam0('commit_state'), I(1 << 60)), eq(x.lam0('commit_record'), I(1 << 60))]
    elif ix == 'undelegate':
        a = L('delegated')
        s = {'an account without data': [eq(a, ZERO)], 'an account with data': [lt(ZERO, a)], 'an account of the system program without data': [eq(a, ZERO), eq(x.key('owner_program'), SYS)],
             'never finalized': [eq(meta(x, 'last_update_external_slot'), ZERO)], 'a record with much rent': [eq(x.lam0('record'), I(1 << 40))], 'a record with little rent': [eq(x.lam0('record'), I(1))]}
    elif ix == 'validator_claim_fees':
        am = arg(x, 'ValidatorClaimFeesArgs', 'amount'); v = T('fld', am, 'Some', '0')
        s = {'everything': [T('is', am, 'None')], 'an amount': [T('is', am, 'Some'), lt(ZERO, v)], 'one lamport': [T('is', am, 'Some'), eq(v, ONE)]}
        s['everything from a vault with lamports above its minimum'] = [T('is', am, 'None')] + [lt(R, x.lam0('v_vault')) for R in rents(I(8))]
        s['the part above the minimum'] = [T('is', am, 'Some')] + [eq(add(v, R), x.lam0('v_vault')) for R in rents(I(8))[:1]]
    elif ix == 'protocol_claim_fees': s = {'lamports above the minimum': [lt(R, x.lam0('fees_vault')) for R in rents(I(8))]}
    elif ix == 'whitelist_validator_for_program':
        i = arg(x, 'WhitelistValidatorForProgramArgs', 'insert')
        new, old = [eq(x.owner0('config'), SYS), eq(L('config'), ZERO)], [eq(x.owner0('config'), DLP)]
        s = {'the first insertion': [i] + new, 'a further insertion': [i] + old, 'a removal': [not_(i)] + old}
    elif ix == 'top_up_ephemeral_balance':
        am = arg(x, 'TopUpEphemeralBalanceArgs', 'amount')
        new = [eq(x.owner0('balance'), SYS), eq(L('balance'), ZERO)]
        s = {'a new balance': new + [eq(x.lam0('balance'), ZERO), lt(ZERO, am)], 'an existing balance': new + [eq(x.lam0('balance'), I(1 << 40)), lt(ZERO, am)]}
        for n in (0, 1, 255): s['index %d' % n] = [eq(arg(x, 'TopUpEphemeralBalanceArgs', 'index'), I(n))]
    elif ix == 'delegate_ephemeral_balance':
        s = {'a balance': [eq(x.owner0('balance'), SYS)]}
        for n in (0, 1, 255): s['index %d' % n] = [eq(arg(x, 'DelegateEphemeralBalanceArgs', 'index'), I(n))]
    elif ix == 'close_ephemeral_balance': s = {'a balance with lamports': [eq(x.lam0('balance'), I(1 << 40))], 'a small balance': [eq(x.lam0('balance'), ONE)]}
    elif ix == 'init_validator_fees_vault': s = {'a new vault': [eq(x.owner0('v_vault'), SYS)]}
    elif ix == 'init_protocol_fees_vault': s = {'a new vault': [eq(x.owner0('fees_vault'), SYS)]}
    elif ix == 'close_validator_fees_vault': s = {'a full vault': [eq(x.lam0('v_vault'), I(1 << 40))]}
    return s
@rule('L11', 'for each listed situation: some effective successful exit is consistent with its facts, also with one account in two roles')
def L11(c):
    for ix in IX:
        for al in [None] + list(SAME.get(ix, [])):
            xs = c.an.exits(ix, al)
            c.nexits['%s, %s = %s' % ((ix,) + al) if al else ix] = len(xs)
            left = None
            for x in xs:
                if x.noop: continue
                s = situations(ix, x)
                if left is None: left = dict(s)
                for n in list(left):
                    y = x
                    for t in s[n]:
                        y = y and y.assume(t, True)
                    if y is not None: del left[n]
                if not left: break
            for n in situations(ix, xs[0]):
                c.need(xs[0], left is not None and n not in left, '%s: can succeed with %s%s' % (ix, n, ', one account being %s and %s' % al if al else ''))

@rule('L12', 'final state of both accounts of each pair on every successful exit that changes either')
def L12(c):
    for ix in IX:
        for a, b in (('record', 'metadata'), ('commit_state', 'commit_record')):
            R = c.an.roles[ix]
            if a not in R and b not in R: continue
            if ix == 'delegate_ephemeral_balance': continue     # its own delegate instruction does it
            for x in c.exits(ix):
                ch = x.changed()
                life = [r for r in (a, b) if x.role(r) in ch and ('owner' in ch[x.role(r)] or x.closed(r))]
                if not life:
                    c.need(x, True, '%s: %s and %s: neither is created or closed' % (ix, a, b)); continue
                born = all(ends_owned(x, r) and not x.owned(r) for r in (a, b))
                gone = all(x.closed(r) and x.owned(r) for r in (a, b))
                c.need(x, born or gone, '%s: %s and %s are created together or closed together' % (ix, a, b))

@rule('M13', 'solvency invariant, per exit: final recorded lamports against the final balance of the delegated account; pending balance against the excess it must cover')
def M13(c):
    for ix in IX:
        R = c.an.roles[ix]
        if 'delegated' not in R or 'record' not in R: continue
        for x in c.exits(ix):
            if x.noop: continue
            if ix == 'undelegate':
                c.need(x, x.closed('record'), 'undelegate: the recorded balance ends with the record')
                continue
            v = decoded(x, 'record', 'DelegationRecord')
            if v is None:
                c.need(x, False, '%s: the record ends well-formed' % ix); continue
            if ix == 'delegate': ok = x.ge(x.lam('delegated'), v['lamports'])
            else:
                # holds before: balance >= recorded balance
                ok = x.ge(x.lam('delegated'), v['lamports']) or x.num_eq(v['lamports'], rec(x, 'lamports')) and x.ge(x.lam('delegated'), x.lam0('delegated'))
            c.need(x, ok, '%s: the delegated account ends with at least its recorded balance (balance %s, recorded %s)' % (ix, show(x.simp(x.lam('delegated')))[:150], show(x.simp(v['lamports']))[:150]), key='%s: recorded balance covered' % ix)
            if ix in COMMITS:
                p = decoded(x, 'commit_record', 'CommitRecord')
                if p is None:
                    c.need(x, False, '%s: the commit record ends well-formed' % ix); continue
                c.need(x, x.ge(add(x.lam('commit_state'), v['lamports']), p['lamports']), '%s: the recorded balance and the pending balance together cover the committed lamports' % ix)

PAYS = {'delegate': 'payer', 'commit_state': 'validator', 'commit_state_from_buffer': 'validator', 'finalize': 'delegated commit_state commit_record',
        'undelegate': 'validator delegated buffer record metadata', 'init_protocol_fees_vault': 'payer', 'init_validator_fees_vault': 'payer', 'validator_claim_fees': 'v_vault',
        'whitelist_validator_for_program': 'authority', 'top_up_ephemeral_balance': 'payer', 'delegate_ephemeral_balance': 'payer balance buffer record metadata',
        'close_ephemeral_balance': 'balance', 'protocol_claim_fees': 'fees_vault', 'close_validator_fees_vault': 'v_vault'}
@rule('M14', 'final balance of every account that must not pay is at least its initial balance')
def M14(c):
    for ix in IX:
        for x in c.exits(ix):
            for i, ks in x.changed().items():
                if 'lam' not in ks: continue
                rs = [r for j, r in enumerate(x.an.roles[ix]) if x.role(r) == i]
                v = x.simp(x.cells[('lam', i)])
                if any(r in PAYS[ix].split() for r in rs) or ix == 'delegate_ephemeral_balance' and v.op == 'lamx': continue
                c.need(x, x.ge(v, T('lam0', i)), '%s: %s does not pay (ends with %s)' % (ix, nm(x, i), show(v)[:250]), key='%s: %s does not pay' % (ix, nm(x, i)))
            c.need(x, True, '%s: only the accounts that must pay lose lamports' % ix)

# ------------------------------------------------------------------ refusals
WRITABLE = {'delegate': 'payer delegated buffer record metadata', 'commit_state': 'validator commit_state commit_record metadata', 'commit_state_from_buffer': 'validator commit_state commit_record metadata',
            'finalize': 'validator delegated commit_state commit_record record metadata v_vault', 'undelegate': 'validator delegated buffer record metadata rent_payer fees_vault v_vault',
            'init_protocol_fees_vault': 'payer fees_vault', 'init_validator_fees_vault': 'payer admin identity v_vault', 'validator_claim_fees': 'validator fees_vault v_vault',
            'whitelist_validator_for_program': 'authority config', 'top_up_ephemeral_balance': 'payer balance', 'delegate_ephemeral_balance': 'payer balance buffer record metadata',
            'close_ephemeral_balance': 'payer balance', 'protocol_claim_fees': 'admin fees_vault', 'close_validator_fees_vault': 'payer admin identity v_vault'}
TYPED = {'record': 'DelegationRecord', 'metadata': 'DelegationMetadata', 'commit_record': 'CommitRecord', 'config': 'ProgramConfig'}
def authority_facts(x, admin, pd, prog):
    fs = [(eq(x.key(pd), T('pda', pkb(prog), LOADER)), True)]
    seen = {}
    for f in x.st.facts:
        for b in contains(f, lambda t: t.op == 'bincode'): seen[b] = 1
    d = x.data0(pd)
    for b in seen:
        if not contains(b, lambda t: t is d): continue
        ua = T('fld', b, 'ProgramData', 'upgrade_authority_address')
        fs += [(T('is', b, 'ProgramData'), True), (T('is', ua, 'Some'), True)]
        if admin: fs.append((eq(x.key(admin), T('fld', ua, 'Some', '0')), True))
    return fs
def requirements(ix, x):
    """{case: facts} under which the instruction must not be refused"""
    R = x.an.roles[ix]
    i = x.role
    base = [(eq(T('len', T('accounts')), I(len(R))), True)]
    signers, writable = SIGNERS[ix].split(), WRITABLE[ix].split()
    if ix in ('init_validator_fees_vault', 'close_validator_fees_vault'): signers = ['payer', 'admin']
    for r in R:
        if r in signers: base.append((T('is_signer', i(r)), True))
        base.append((T('is_writable', i(r)), r in writable))
    if 'system' in R: base += [(eq(x.key('system'), SYS), True), (T('executable', i('system')), True)]
    if 'dlp' in R: base += [(eq(x.key('dlp'), DLP), True), (T('executable', i('dlp')), True)]
    def there(r): return [(eq(x.owner0(r), DLP), True)]
    def absent(r): return [(eq(x.owner0(r), SYS), True), (eq(blen(x.data0(r)), ZERO), True)]
    def content(r):
        d = x.data0(r)
        fs = [(lt(blen(d), I(8)), False), (eq(T('sub', d, ZERO, I(8)), tag(TYPED[r])), True)]
        n = FIXED.get(next((t['s'] for t in x.an.p.types if t and t['k'] == 'adt' and short(t['s']) == TYPED[r]), None))
        if n and r != 'metadata' and r != 'config': fs.append((eq(blen(d), I(8 + n)), True))
        return fs
    def at_(r): return [(eq(x.key(r), expected_pda(x, r)[0]), True)]
    for r in R:
        if r in STATE_ROLES or r == 'buffer' and ix == 'undelegate': base += at_(r) if not (ix == 'delegate_ephemeral_balance' and r in ('record', 'metadata')) else []
        if r in ('record', 'metadata') and ix not in ('delegate', 'delegate_ephemeral_balance'): base += there(r) + content(r)
        if r == 'v_vault' and ix != 'init_validator_fees_vault' or r == 'fees_vault' and ix != 'init_protocol_fees_vault': base += there(r)
    if 'delegated' in R: base += there('delegated')
    cases = {'': []}
    def by(**kw):
        nonlocal cases
        cases = {', '.join(q for q in (a, b.replace('_', ' ')) if q): fs + gs for a, fs in cases.items() for b, gs in kw.items()}
    if ix == 'delegate':
        base += absent('record') + absent('metadata')
        sd, k = T('flat', arg(x, 'DelegateArgs', 'seeds')), x.key('delegated')
        base += [(eq(x.key('buffer'), x.pda('#buffer', k, prog=x.key('owner_program'))), True), (eq(blen(x.data0('buffer')), blen(x.data0('delegated'))), True)]
        by(on_the_curve=[(T('oncurve', k), True)], derived_under_the_owner=[(eq(x.key('owner_program'), SYS), False), (eq(k, T('pda', sd, x.key('owner_program'))), True)],
           derived_under_this_program=[(eq(x.key('owner_program'), SYS), True), (eq(k, T('pda', sd, DLP)), True)])
    elif ix in COMMITS:
        base += absent('commit_state') + absent('commit_record')
        base += [(lt(commit_arg(x, 'slot'), meta(x, 'last_update_external_slot')), False), (meta(x, 'is_undelegatable'), False), (lt(x.lam0('delegated'), rec(x, 'lamports')), False)]
        approved = x.fld('ProgramConfig', 'config', 'approved_validators')
        by(no_whitelist=absent('config'), listed=there('config') + content('config') + [(T('in', x.key('validator'), approved), True), (eq(T('card', approved), ZERO), False)])
    elif ix == 'finalize':
        # what an accepted commit guarantees
        base += [(lt(x.lam0('delegated'), rec(x, 'lamports')), False), (lt(add(x.lam0('commit_state'), rec(x, 'lamports')), crec(x, 'lamports')), False)]
        by(pending=there('commit_state') + there('commit_record') + content('commit_record') + [(eq(crec(x, 'account'), x.key('delegated')), True), (eq(crec(x, 'identity'), x.key('validator')), True)],
           nothing_pending=absent('commit_state') + absent('commit_record'))
    elif ix == 'undelegate':
        base += absent('commit_state') + absent('commit_record') + absent('buffer')
        base += [(eq(x.key('owner_program'), rec(x, 'owner')), True), (meta(x, 'is_undelegatable'), True), (eq(meta(x, 'rent_payer'), x.key('rent_payer')), True)]
        d, v = x.role('delegated'), x.role('validator')
        back = [(eq(blen(x.data0('delegated')), ZERO), False), (lt(x.lam0('delegated'), T('minbal', RENTS[0], blen(x.data0('delegated')))), False)]
        for e in ext_cpis(x):
            n = 1 + next(j for j, ev in enumerate(x.ev) if ev[0] == 'cpi' and ev[6] is e.snap and ev[3] is e.data)
            s = at_cpi(x, e, v)
            da = T('datax', d, n)
            back += [(eq(da, x.data0('delegated')), True)]
            if s is not None: back.append((eq(s[0], add(T('lamx', v, n), T('minbal', RENTS[0], blen(da)))), True))
        by(without_data=[(eq(blen(x.data0('delegated')), ZERO), True)], with_data=back)
    elif ix in ('init_protocol_fees_vault', 'init_validator_fees_vault'): base += absent('fees_vault' if ix == 'init_protocol_fees_vault' else 'v_vault')
    elif ix == 'validator_claim_fees':
        am = arg(x, 'ValidatorClaimFeesArgs', 'amount'); m = T('minbal', RENTS[0], I(8))
        by(everything=[(T('is', am, 'None'), True), (lt(x.lam0('v_vault'), m), False)], an_amount=[(T('is', am, 'Some'), True), (lt(x.lam0('v_vault'), add(m, T('fld', am, 'Some', '0'))), False)])
    elif ix == 'protocol_claim_fees': base += [(lt(x.lam0('fees_vault'), T('minbal', RENTS[0], I(8))), False)]
    elif ix == 'whitelist_validator_for_program':
        adm = authority_facts(x, 'authority', 'dlp_program_data', DLP)
        by(by_the_admin=adm, by_the_program_authority=authority_facts(x, None, 'dlp_program_data', DLP) + authority_facts(x, 'authority', 'program_data', x.key('program')))
        by(new=absent('config'), existing=there('config') + content('config'))
    elif ix in ('top_up_ephemeral_balance', 'delegate_ephemeral_balance', 'close_ephemeral_balance'):
        by(plain=[(eq(x.owner0('balance'), SYS), True), (eq(blen(x.data0('balance')), ZERO), True)], **({'delegated': there('balance')} if ix == 'top_up_ephemeral_balance' else {}))
        if ix == 'close_ephemeral_balance': base.append((lt(blen(T('rest')), ONE), False))
    if ix in ('init_validator_fees_vault', 'close_validator_fees_vault', 'protocol_claim_fees'): base += authority_facts(x, 'admin', 'program_data', DLP)
    return {k: base + v for k, v in cases.items()}
BOUND = I(1 << 56)
def bounds(x):
    """no balance or amount exceeds 2^56 lamports, no length 2^24 bytes"""
    out = {}
    def at_(t):
        if t.op in ('lam0', 'lamx', 'minbal') or t.op == 'fld' and t.a[-1] in ('lamports', 'amount') or t.op == 'fld' and t.a[-1] == '0' and t in NUMTERMS: out[t] = BOUND
        if t.op == 'len': out[t] = I(1 << 24)
    for f in x.st.facts: walk(f, at_)
    return [(lt(n, t), False) for t, n in out.items()]
ENV = ('borrow', 'realloc', 'cpi', 'sysvar', 'write', 'encode', 'decode', 'pda')
def env_failure(s, v):
    """the error is one of a library or runtime call (malformed data, a failed call), not one the program decided on"""
    if isinstance(v, Agg) and contains(v, lambda t: t.op == 'err'): return True
    fs = list(s.fails)
    while fs and fs[-1][0] == 'check': fs.pop()
    return bool(fs) and fs[-1][0] in ENV
def refuted(x, facts):
    for t, v in facts:
        if x.st.facts.get(t, v) is not v: return True
        if t.op in ('eq', 'in', 'is', 'fld', 'is_signer', 'oncurve') and x.has(t) is (not v): return True
    y = X.__new__(X)
    y.__dict__.update(x.__dict__)
    y.st = x.st.fork()
    old = [f for f in y.st.facts if f.op in ('lt', 'eq') and isnum(f.a[0])]
    for t, v in facts:
        if isint(t):
            if bool(t.a[0]) != v: return True
        elif not y.st.fact(t, v): return True
        elif t.op == 'lt' and isint(t.a[0]) and t not in y.st.facts: y.st.facts[t] = v; y.st.nfacts = None      # (also if it follows: it shortens proofs)
    y.normalize()
    if y.bad: return True
    for f, v in list(y.st.facts.items()):
        if f.op in ('in', 'is', 'fld', 'eq', 'oncurve', 'and', 'or'):
            if f.op == 'eq' and v: continue
            w = y.st.facts.pop(f); y.st.nfacts = None
            h = y.has(f)
            y.st.facts[f] = w; y.st.nfacts = None
            if h is (not v): return True
    for f in old:
        v = y.st.facts.pop(f); y.st.nfacts = None
        for g in (f, y.n(f)):
            h = y.has(g) if isinstance(g, Term) else None
            if h is (not v): return True
        y.st.facts[f] = v; y.st.nfacts = None
    return False
@rule('L13', 'every refusing exit (error or abort) of every instruction contradicts the instruction\'s listed requirements')
def L13(c):
    for ix in IX:
        ip, outs = c.an.ixrun(ix)
        n = 0
        for s, v in [(s, v) for s, v in outs if isinstance(v, Agg) and v.v == 1] + [(s, None) for s, _ in ip.panics]:
            if env_failure(s, v): continue
            x = X(c.an, ix, s, n); n += 1
            if x.bad: continue
            bs = None
            # (no bytes follow a well-formed value)
            left = {t: 1 for f in x.st.facts for t in contains(f, lambda t: t.op == 'rest' and t.a)}
            for case, fs in requirements(ix, x).items():
                fs = fs + [(eq(blen(t), ZERO), True) for t in left]
                ok = refuted(x, fs)
                if not ok:
                    if bs is None: bs = bounds(x)
                    ok = refuted(x, fs + bs)
                last = [('' if b else 'not ') + show(f)[:160] for f, b in list(x.st.facts.items())[-1:]]
                c.need(x, ok, '%s%s: refused although every requirement is met (%s%s)' % (ix, case and ' (%s)' % case, 'aborts' if v is None else 'error', ' where %s' % last[0] if last else ''), key='%s: refusals' % ix)
        c.nexits['%s (refusing)' % ix] = n
