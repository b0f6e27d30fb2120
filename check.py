#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's current source.

Exit 0: held on everything that could be decided; 1: VIOLATION; 2: no answer."""
import json
import os
import sys
import time
import traceback

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'engine'))
sys.path.insert(0, V)
import props
import driver
import rules


def known():
    r = []
    try:
        for l in open(os.path.join(V, 'known_findings.txt')):
            l = l.strip()
            if l.startswith('finding: '):
                a = dict(x.split('=', 1) for x in l[9:].split(' ', 2)[:2])
                r.append((a['property'], a['at'], l[9:].split(' ', 2)[2]))
    except OSError:
        pass
    return r


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    t0 = time.time()
    p = next(x for x in props.P if x['id'] == pid)
    try:
        s = driver.Session(tier == 'quick')
    except driver.BuildError as e:
        print('ERROR: ' + str(e))
        return 2
    try:
        return run(p, pid, tier, s, t0)
    finally:
        s.close()


def released(lab):
    """an object released or kept: what C23 is about, and no other property"""
    return lab == 'delete' or '::~' in lab


def run(p, pid, tier, s, t0):
    own = pid == 'C23'
    wanted = {}
    for u in driver.UNITS:
        w = p['fns'].get(u, [])
        wanted[u] = None if w is None else set(w)
        # functions that lost their anchor are judged in their callers
        if w and s.dropped[u] & set(w):
            for sn in s.dropped[u] & set(w):
                wanted[u] |= s.callers_of_dropped(u, sn)
    res = s.decide(wanted)
    viol, undecided, quiet = [], [], []
    flt = p['flt']
    nob = 0
    for r in res:
        nob += r.st.get('pairs', 0) + r.st.get('events', 0)
        if r.verdict == 'DIFFERENT':
            ds = [d for d in r.diffs if d[3] and (flt is None or flt(r.sn, d[1])) and (own or not released(d[1]))]
            if ds:
                viol.append((r, ds))
            else:
                quiet.append(r)
        elif r.verdict == 'UNKNOWN':
            undecided.append((r.unit, r.sn, r.st.get('why') or '; '.join(d[2] for d in r.diffs[:2])))
    rr = []
    rule_und = []
    for name in p['rules']:
        try:
            x = getattr(rules, 'rule_' + name)(s, p)
        except Exception:
            rule_und.append((name, traceback.format_exc()[-600:]))
            continue
        rr.append((name, x))
        nob += x.obligations
        rule_und += [(name, u) for u in x.undecided]
    out = []
    for r, ds in viol:
        f = s.units[r.unit].S.fns[r.name]
        d = ds[0]
        out.append({'at': '%s:%s' % (r.unit, r.sn), 'function': r.sn, 'program': r.unit,
                    'file': os.path.join('/repo', r.unit, os.path.basename(f['file'])), 'line': d[4],
                    'rule': 'meets its contract (spec/%s)' % r.unit,
                    'differences': [{'kind': d[0], 'of': d[1], 'what': d[2], 'line': d[4], 'contract_line': d[5]} for d in ds[:20]]})
    for name, x in rr:
        for v in x.violations:
            out.append(dict(v, rule=name + ': ' + x.text))
    kn = known()
    new = []
    for v in out:
        k = next((k for k in kn if k[0] == pid and k[1] == v['at']), None)
        if k:
            print('KNOWN-FINDING: property=%s %s' % (pid, k[2]))
        else:
            new.append(v)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    compared = [r for r in res if r.how != 'identical IR']
    ev = {'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': int(os.environ.get('VERIF_SEED') or 1), 'level': 'other',
          'coverage': {
              'explanation': 'Static: each listed function of /repo was compiled to LLVM IR and decided against its contract in /verif/spec '
                             '(equal normalised IR, or path-sensitive effect summaries matched path by path), then the property\'s own rules were run on the IR; nothing of /repo was executed.',
              'functions': ['%s:%s' % (r.unit, r.sn) for r in res],
              'functions_analysed': len(res), 'functions_with_identical_ir': len(res) - len(compared),
              'functions_compared_path_by_path': ['%s:%s %s (%s)' % (r.unit, r.sn, r.verdict, r.how) for r in compared],
              'path_pairs': sum(r.st.get('pairs', 0) for r in compared), 'loops_related': sum(r.st.get('loops', 0) for r in compared),
              'events_matched': sum(r.st.get('events', 0) for r in compared),
              'instructions_of_functions': sum(sum(len(b) for b in s.units[r.unit].I.fns[r.name]['blocks']) for r in res),
              'rules': [{'rule': n, 'text': x.text, 'obligations': x.obligations, 'sites': x.sites[:40]} for n, x in rr],
              'obligations': nob + len(res),
              'undecided': ['%s:%s: %s' % u for u in undecided] + ['rule %s: %s' % u for u in rule_und],
              'differences_not_concerning_this_property': ['%s:%s' % (r.unit, r.sn) for r in quiet],
          },
          'assumptions': ['the contracts in /verif/spec (reviewed, with the reasons in DESIGN.md) carry the property',
                          'standard library functions behave as modelled in engine/interp.py', 'clang 18 -O0 IR represents the source',
                          'distinct labels (class members) do not alias'],
          'violations': len(new), 'wall_s': round(time.time() - t0, 2)}
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    for u in undecided:
        print('UNDECIDED %s:%s: %s' % u)
    for u in rule_und:
        print('UNDECIDED rule %s: %s' % u)
    if new:
        path = os.path.join(V, 'evidence', pid + '.violation.json')
        json.dump(new, open(path, 'w'), indent=1)
        for v in new:
            print('%s:%s: %s [%s]' % (v.get('file', ''), v.get('line', ''), v['at'], v['rule']))
            for d in v.get('differences', [])[:4]:
                print('    %s: %s' % (d['kind'], str(d['what'])[:300]))
            if v.get('what'):
                print('    ' + v['what'])
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    print('OK %s: %d functions, %d obligations, %.1f s' % (pid, len(res), nob + len(res), time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
