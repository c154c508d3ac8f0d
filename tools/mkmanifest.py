"""writes MANIFEST.json"""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
DESIGNS = {
 'C01': 'GraphADT, GraphImpl (refinement), GraphRun', 'C02': 'GraphADT, GraphImpl (refinement), GraphRun',
 'C03': 'GraphADT, GraphImpl (refinement), GraphRun', 'C04': 'Search, Certificates', 'C05': 'Search, Certificates',
 'C06': 'Search, Certificates', 'C07': 'Search (Prim), Kruskal, Certificates', 'C08': 'Components',
 'C09': 'Tarjan, DepthFirst', 'C10': 'DepthFirst, Certificates', 'C11': 'Augment, Certificates', 'C12': 'Preflow, Certificates',
 'C13': 'CycleCancel, Certificates', 'C14': 'Simplex, Certificates', 'C15': 'FloydWarshall, Certificates',
 'C16': 'LabelCorrecting, Certificates', 'C17': 'AcyclicSP, Certificates', 'C18': 'DisjointSet, DSetRun', 'C19': 'TreeADT',
 'C20': 'Traversal', 'C21': 'ExprTree', 'C22': 'DotADT, DotQuote', 'C23': 'DotADT', 'C24': 'GraphADT', 'C25': 'PageRank', 'C26': 'Hamilton, Certificates',
 'C27': 'RandomGraph', 'C28': 'CycleCancel', 'C29': 'CycleCancel, Certificates', 'C30': 'Isolation', 'C31': 'Display'}
TRACE = {'C18': 'TraceDSet', 'C19': 'TraceTree', 'C20': 'TraceTree', 'C21': 'TraceTree', 'C22': 'TraceDot', 'C23': 'TraceDot', 'C27': 'TraceRandom', 'C30': 'TraceTwice', 'C31': 'TraceShow'}
DONE = os.environ.get('DONE', ' '.join(DESIGNS)).split()
checks = []
for c in DESIGNS:
    if c not in DONE:
        continue
    checks.append({
        'property': c, 'quick_cmd': 'python3 check.py ' + c, 'thorough_cmd': 'python3 check.py %s --tier thorough' % c,
        'evidence_file': 'evidence/%s.json' % c, 'level': 'model_checking',
        'technique': 'TLA+ model checked with TLC (%s); its behaviours and instances replayed on the code; recorded traces of the code validated by TLC (%s)'
                     % (DESIGNS[c], TRACE.get(c, 'TraceGraph')),
        'level_note': 'The design model is checked exhaustively in a small scope. The code is bound to it by trace validation: every replayed '
                      'specification behaviour and every random history that was run on the real code is accepted or rejected by TLC against the specification; '
                      'inputs that were not run are not covered. Trusted: TLC, the driver (reads public methods and translates names and numbers), CPython, blimpy.'})
na = [{'property': c, 'reason': 'not built yet'} for c in DESIGNS if c not in DONE]
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'TLA+ with TLC, see DESIGN.md. No hooks in /repo: everything is observed through public methods.'}
with open(os.path.join(here, '..', 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
