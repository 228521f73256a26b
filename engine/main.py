"""Decides one property on a dump of /repo's current source. Usage: main.py DUMP PROPERTY TIER SEED OUT_DIR"""
import sys, os, json, time, hashlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUSTED = ['rustc nightly front end and MIR construction (type checking, trait resolution, constant evaluation)',
           'driver/main.rs (serialisation of MIR)', 'engine/interp.py and engine/terms.py (transfer functions, linear-arithmetic entailment)',
           'engine/lib.py, engine/models.py (models of std, solana-program, borsh, bytemuck, bincode and of the runtime\'s system program)']
ASSUMED = ['accounts passed in different positions of one instruction are different accounts, except the pairs of roles listed under successful_exits_by_instruction as "a = b", which are analysed both ways',
           'Solana runtime: a failed instruction is rolled back; only the owner of an account changes its data or debits it; balances sum up; an address derived for a program can only be signed for by it',
           'distinct seeds do not collide under the hash of find_program_address', 'production build configuration (default features), on a 64-bit target']

def known(pid):
    out = []
    try:
        for l in open(os.path.join(ROOT, 'known_findings.txt')):
            if l.startswith('known: property=%s ' % pid) and ' match=' in l: out.append(l.split(' match=', 1)[1].strip())
    except FileNotFoundError: pass
    return out

def main():
    dump, pid, tier, seed, outdir = sys.argv[1:6]
    t0 = time.time()
    import rules3
    from rules3 import RULES, Check, Analysis, Missing
    from interp import Limit
    if pid not in RULES: print('unknown property %s' % pid); return 3
    fn, text = RULES[pid]
    viol, notes = [], []
    an = c = None
    try:
        an = Analysis(dump)
        c = Check(an, pid)
        c.tier = tier
        fn(c)
        viol = [(x, w, s) for x, w, s in c.viol]
    except Missing as e:
        viol.append((None, 'the analysed construct no longer exists: %s' % e, None))
    except Limit as e:
        print('INCONCLUSIVE property=%s the analysis exceeded its bounds: %s' % (pid, e)); return 2
    except Exception:
        traceback.print_exc(); print('INCONCLUSIVE property=%s internal error' % pid); return 2
    kf = known(pid)
    fresh, listed = [], {}
    for v in viol:
        k = next((m for m in kf if m in v[1]), None)
        if k is None: fresh.append(v)
        else: listed.setdefault(k, []).append(v)
    st = an.stats if an else {}
    fns = []
    for i in sorted(st.get('fns', ()), key=str):
        f = an.p.fns.get(i) if an and i in an.p.fns else None
        if f and f['local']: fns.append('%s (%s:%s)' % (f['path'], f['file'], f['line']))
    total = c.total if c else 0
    ev = dict(property=pid, tier=tier, seed=int(seed), level='other', wall_s=round(time.time() - t0, 3), violations=len(fresh),
              assumptions=ASSUMED,
              coverage=dict(
                  explanation='Static analysis: interprocedural abstract interpretation of the type-checked MIR of /repo\'s current source, from process_instruction (and, for interface properties, '
                              'from the public builders, address helpers, serializers and error conversions), path-sensitive over symbolic accounts and arguments; the rule is decided on every successful exit.',
                  rule=text, obligations=total, discharged=total - len(c.viol) if c else 0,
                  obligations_by_kind=len(c.kinds) if c else 0,
                  successful_exits_by_instruction=c.nexits if c else {},
                  functions_analysed=len(fns), functions=fns, basic_blocks_analysed=len(st.get('blocks', ())), call_sites_followed=st.get('calls', 0),
                  path_outcomes=st.get('outcomes', 0), interpreter_steps=st.get('steps', 0),
                  library_functions_modelled=sorted(map(str, st.get('models', ()))), calls_not_followed=sorted(map(str, st.get('opaque', ()))),
                  samples=[dict(instruction=i, obligation=k) for i, k in (c.samples if c else [])] or [dict(obligation=k) for k in list((c.kinds if c else {}))[:5]],
                  known_findings=sorted(listed), trusted_base=TRUSTED, checker_cmd='./check.sh %s' % pid))
    os.makedirs(os.path.join(outdir), exist_ok=True)
    rep = os.path.join(outdir, '%s.violation.txt' % pid)
    if os.path.exists(rep): os.remove(rep)
    json.dump(ev, open(os.path.join(outdir, '%s.json' % pid), 'w'), indent=1)
    for k, vs in listed.items(): print('KNOWN-FINDING: property=%s %s' % (pid, vs[0][1]))
    print('%s: %d obligations of %d kinds on %s successful exits, %d violated (%.1fs)' % (pid, total, len(c.kinds) if c else 0, sum(c.nexits.values()) if c else 0, len(fresh), time.time() - t0))
    if not fresh: return 0
    with open(rep, 'w') as o:
        o.write('property %s violated\nrule: %s\n' % (pid, text))
        seen = {}
        for x, w, s in fresh:
            k = (x.ix if x is not None else '', w)
            seen.setdefault(k, []).append((x, s))
        for (ix, w), xs in list(seen.items())[:40]:
            x, s = xs[0]
            h = an.handler(ix) if ix and an else None
            o.write('\n* %s\n' % w)
            if h: o.write('  in handler %s (%s:%s), on %d of its analysed exits/cases\n' % (h['path'], h['file'], h['line'], len(xs)))
            if isinstance(s, dict): o.write('  at %s (%s:%s)\n' % (s['path'], s['file'], s['line']))
            elif s: o.write('  at %s\n' % s)
            if x is not None:
                o.write('  path: exit %d, on which\n' % x.no)
                for d in x.desc()[:60]: o.write('    %s\n' % d[:240])
    for (ix, w), xs in list(seen.items())[:8]: print('  %s%s' % ('[%s] ' % ix if ix and not w.startswith(ix) else '', w[:400]))
    print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(rep, ROOT)))
    return 1
if __name__ == '__main__': sys.exit(main())
