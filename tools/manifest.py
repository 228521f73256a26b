"""writes MANIFEST.json from the properties and the rules"""
import sys, os, json
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [R + '/tools', R + '/engine']
from props import P
from rules3 import RULES
TECH = {'E03': 'abstract interpretation of address derivations, plus unification of byte layouts', 'E04': 'type-table query plus abstract interpretation of serializers',
        'E05': 'abstract interpretation of the error conversions', 'E02': 'abstract interpretation of builders, unified with must-facts of handlers',
        'E01': 'abstract interpretation of the dispatch', 'M07': 'value-range and difference reasoning over MIR arithmetic', 'F01': 'error-flow (path-sensitive effect) analysis over MIR',
        'S08': 'provenance dataflow over MIR (typed views and writes)'}
D = 'path-sensitive interprocedural dataflow (abstract interpretation) over type-checked MIR'
NOTE = ('Covers every path of the production configuration from process_instruction to every successful exit, for all inputs, without executing anything: {text}. '
        'Also covers one account in two roles where one party may play both; otherwise assumes distinct positions hold distinct accounts. Assumes the runtime\'s documented rules (rollback on failure, ownership, system program), and trusts rustc\'s MIR, the interpreter and its models of '
        'library functions; what cannot be followed is treated as doing anything, so it can only cause an alarm, not hide one.')
def main():
    checks, na = [], []
    for p in P:
        if p['id'] in RULES:
            checks.append(dict(property=p['id'], quick_cmd='./check.sh ' + p['id'], thorough_cmd='VERIF_TIER=thorough ./check.sh ' + p['id'],
                               technique=TECH.get(p['id'], D), level='other', level_note=NOTE.format(text=RULES[p['id']][1]), evidence_file='evidence/%s.json' % p['id']))
        else: na.append(dict(property=p['id'], reason=p['na']))
    m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
             notes='No hooks in /repo: the analysis reads the unmodified source through a rustc driver. Two genuine defects were repaired by "fix:" commits (known_findings.txt).')
    json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1); open(R + '/MANIFEST.json', 'a').write('\n')
    print(len(checks), 'checks', len(na), 'not applicable')
main()
