#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json.  A property is registered when its check exists."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': ('exploration', 'generated programs are executed with call-stack recording; every observed chain from a function of an analysed package to a sink is an assertion on the report of the same sources'),
 'C02': ('exploration', 'reports observed from runs on generated programs and real packages compared with an abstract call model (generated programs) and an independent reference analysis (all subjects)'),
 'C03': ('exploration', 'every step of every reported path checked by a monitor against an independently built call graph and source positions'),
 'C04': ('exploration', 'type and attribution of every reported entry recomputed by a monitor from its path; statistics totals cross-checked'),
 'C05': ('exploration', 'reports at all granularities observed for the same run configuration and compared with exact projections'),
 'C06': ('exploration', 'all output formats and library entry points observed for the same configuration and compared with one another'),
 'C07': ('exploration', 'graph output parsed by a strict DOT reader and compared as an edge set with the reference subgraph'),
 'C08': ('exploration', 'grammar-based expressions decided by an independent reading of the rule and compared with the observed set or error'),
 'C09': ('exploration', 'outputs of repeated runs under perturbed scheduling, hash seeds, orders, locations and call histories compared'),
 'C10': ('exploration', 'comparison runs against edited baselines; announcements and exit status compared with the set difference'),
 'C11': ('fault_enumeration', 'generated maps looked up through the library and compared with a model of the precedence rule; malformed lines and read failures injected at every position'),
 'C12': ('exploration', 'concurrent analyses under the Go race detector; results compared with isolated runs, classifiers fingerprinted before and after'),
 'C13': ('exploration', 'one-operation functions analysed; expectation is a documentation-derived table plus system calls observed when executing the operation'),
 'C14': ('exploration', 'generated spellings of unsafe, reflect, assembly, linkname and cgo uses with and without the feature; findings compared with the construction'),
 'C15': ('exploration', 'generated sort and Once call forms executed and analysed; observed callbacks must be reported, callbacks of other sites must not; rewritten program passes the SSA sanity checker'),
 'C16': ('exploration', 'reports for tag and platform combinations compared with the file sets the go command selects'),
 'C17': ('fault_enumeration', 'faults injected in sources, flags, maps and at write positions of standard output; exit status and streams observed'),
 'C18': ('exploration', 'capslock-git-diff run on generated repositories with a recording analyser and with the real one; output compared with the revision model'),
 'C19': ('fault_enumeration', 'file-system snapshots and system-call traces around runs, with failures injected into the helper commands'),
 'C20': ('exploration', 'unusual valid programs, verified with the go command, run in every mode with crash monitoring'),
 'C22': ('exploration', 'runs in generated modules, workspaces and vendored trees with a local module proxy; reports compared with the versions the go command selects, refusals and fetches observed'),
 'C23': ('exploration', 'library analyses with instrumented pseudo-random classifiers, queried packages and callbacks; every result and callback compared with an independent reference analysis'),
 'C21': ('exploration', 'module and package lists compared with the go command\'s own listing'),
}
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
built = set()
for f in os.listdir(os.path.join(root, 'harness', 'vmon')):
    built |= set(re.findall(r'checks\["(C\d+)"\] = ', open(os.path.join(root, 'harness', 'vmon', f)).read()))
notes = {}
nf = os.path.join(root, 'tools', 'level_notes.json')
if os.path.exists(nf):
    notes = json.load(open(nf))
m = {'version': 1, 'setup_cmd': 'bash /verif/setup.sh', 'checks': [], 'not_applicable': [],
     'notes': 'No hooks in /repo: the commands are observed from outside and the library through an external driver. See DESIGN.md.'}
for p in props:
    i = p['id']
    if i not in built:
        m['not_applicable'].append({'property': i, 'reason': 'check not built yet'})
        continue
    level, tech = T[i]
    m['checks'].append({'property': i, 'quick_cmd': f'bash /verif/check.sh {i}', 'thorough_cmd': f'bash /verif/check.sh {i}',
        'evidence_file': f'/verif/evidence/{i}.json', 'technique': 'runtime monitoring: ' + tech, 'level': level,
        'level_note': notes.get(i, 'Bounded by the generated and fixed subjects of the tier; see DESIGN.md.')})
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks', len(m['not_applicable']), 'not built')
