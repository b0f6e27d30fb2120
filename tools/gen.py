#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py"""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import props

RULES = {
    'verbose': 'self-composition of every function under both values of the flag',
    'released': 'typestate analysis of released objects over path-sensitive summaries',
    'ends': "control-flow analysis of returns and of the calls that end the program (must-reach dataflow, clang's return analysis)",
    'files': 'effect analysis of every call that touches a file (who may open what, and how) over the call graph of each command',
    'defined': 'definite-assignment dataflow of constructors and fresh objects over the IR; use of unset locals in path-sensitive summaries',
    'determinism': 'effect and taint analysis of sources of nondeterminism',
}


def where(u, fn):
    f = fn.split('::')[0]
    return '%s/%s.cc' % (u, {'main': 'Main', 'GetTime': 'Global', 'PrintHelp': 'Global', 'ParseCommandLine': 'Global',
                             'GenBenFin': 'GenBenFunc', 'GenBenBool': 'GenBenFunc', 'Literal': 'Clause'}.get(f, f))


def mech(p):
    r = []
    for u, w in sorted(p['fns'].items()):
        if w is None:
            r.append({'name': 'every function', 'where': u})
            continue
        by = {}
        for f in w:
            by.setdefault(where(u, f), []).append(f)
        for k, v in sorted(by.items()):
            seen = []
            for x in v:
                if x not in seen:
                    seen.append(x)
            r.append({'name': ', '.join(seen), 'where': k})
    return r or [{'name': 'every function that reads the flag or the clock', 'where': 'src, bitvec'}]


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in props.P + props.NA:
            d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                 'anchors': {'files': p['files'], 'mechanism': mech(p) if 'fns' in p else [{'name': 'search', 'where': p['files'][0]}],
                             'observe_at': ['source (static analysis)'], 'hook_needed': None}}
            f.write(json.dumps(d) + '\n')
    checks = []
    for p in props.P:
        t = []
        if any(w is None or w for w in p['fns'].values()):
            t.append('path-sensitive effect summaries (abstract interpretation of LLVM IR) matched against contracts')
        t += [RULES.get(x, x) for x in p['rules']]
        checks.append({
            'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'], 'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
            'technique': 'static analysis: ' + '; '.join(t), 'level': 'other',
            'level_note': props.NOTE if not p['note'] else p['note'] + ' ' + props.NOTE})
    m = {'version': 1, 'setup_cmd': 'bash engine/setup.sh', 'checks': checks,
         'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in props.NA],
         'notes': 'Static analysis of /repo only; nothing of /repo is executed by a check. No hooks are needed. See DESIGN.md.'}
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)


main()
