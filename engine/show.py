#!/usr/bin/env python3
"""Pretty-print functions of a MIR dump: show.py DUMP SUBSTRING"""
import json, sys
d = json.load(open(sys.argv[1]))
T = d['types']
def pl(p):
    s = '_%d' % p[0]
    for e in p[1]:
        s += '.' + (e if isinstance(e, str) else '/'.join(str(x) for x in e))
    return s
def op(o):
    if 'cp' in o: return pl(o['cp'])
    if 'mv' in o: return 'mv ' + pl(o['mv'])
    if 'c' in o:
        c = o['c']
        if 'fn' in c: return 'fn ' + c['fn']['full'] + ('#%d' % c['fn']['id'] if 'id' in c['fn'] else '')
        return 'const ' + json.dumps(c)[:120] + ('=' + o['name'] if 'name' in o else '')
    return json.dumps(o)
def rv(r):
    out = []
    for x in r:
        if isinstance(x, dict): out.append(op(x))
        elif isinstance(x, list) and len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list): out.append(pl(x))
        elif isinstance(x, list) and x and isinstance(x[0], dict): out.append('(' + ', '.join(op(y) for y in x) + ')')
        else: out.append(str(x))
    return ' '.join(out)
for f in d['fns']:
    if len(sys.argv) > 2 and sys.argv[2] not in f['full']: continue
    print('fn', f['id'], f['full'], 'argc', f['argc'], 'spread', f['spread'], f['file'], f['line'])
    for i, t in enumerate(f['locals']): print('   _%d: %s' % (i, T[t]['s'][:140]), [n for k, n in f['names'] if k == i] or '')
    for i, (st, t) in enumerate(f['blocks']):
        if t == ['unreachable'] and not st: continue
        print(' bb%d:' % i)
        for s in st: print('    ', pl(s[1]) + ' = ' + rv(s[2]) if s[0] == '=' else s)
        print('     ->', rv(t))
