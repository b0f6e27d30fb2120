"""Builds the IR of /repo and of the contracts, decides function by function
whether the code meets its contract.  Static: compiles to LLVM IR (clang -O0),
never links or runs anything of /repo."""
import hashlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
CLANG = '/usr/bin/clang++'
FLAGS = ['-std=gnu++17', '-O0', '-g', '-Xclang', '-disable-O0-optnone', '-fno-exceptions',
         '-fno-strict-return', '-fstandalone-debug', '-w', '-emit-llvm', '-c']
UNITS = ('src', 'bitvec')
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)


class BuildError(Exception):
    pass


def ensure_tools():
    if not os.path.exists(os.path.join(BUILD, 'irdump')):
        subprocess.check_call(['bash', os.path.join(HERE, 'build.sh')], stdout=subprocess.DEVNULL)


def compile_dir(root, out):
    """every .cc of a directory to bitcode"""
    os.makedirs(out, exist_ok=True)
    ps = []
    for f in sorted(os.listdir(root)):
        if f.endswith(('.cc', '.cpp', '.cxx', '.C')):
            o = os.path.join(out, os.path.splitext(f)[0] + '.bc')
            ps.append((f, o, subprocess.Popen([CLANG] + FLAGS + [os.path.join(root, f), '-o', o],
                                              stderr=subprocess.PIPE)))
    r = []
    for f, o, p in ps:
        e = p.communicate()[1]
        if p.returncode:
            raise BuildError('%s does not compile:\n%s' % (os.path.join(root, f), e.decode()[:2000]))
        r.append(o)
    if not r:
        raise BuildError('no sources in ' + root)
    return r


def dump(root, bcs, anchors, out):
    a = out + '.anchors'
    with open(a, 'w') as f:
        f.write('\n'.join(anchors) + '\n')
    p = subprocess.run([os.path.join(BUILD, 'irdump'), root, a, out] + bcs, stderr=subprocess.PIPE)
    if p.returncode:
        raise BuildError('irdump: ' + p.stderr.decode()[:2000])
    return out


def anchors():
    return [l.strip() for l in open(os.path.join(HERE, 'anchors.txt')) if l.strip()]


# --------------------------------------------------------------- identity
DROP = {'ln', 'fl', 'iln', 'ifn', 'dn'}


class Canon:
    """the normalised IR of a function: no line numbers, no numbering of
    string constants or instructions"""

    def __init__(s, m):
        s.m = m
        s.gl = {g: (d.get('str'), d.get('const')) for g, d in m.globals.items()}

    def typename(s, k):
        if k is None or k < 0:
            return None
        seen = 0
        t = s.m.types[k]
        r = []
        while t and seen < 6:
            r.append((t['n'], t['t'], t['s']))
            b = t.get('b', -1)
            if b is None or b < 0:
                break
            t = s.m.types[b]
            seen += 1
        return r

    def layout(s):
        r = []
        for t in s.m.types:
            if t.get('m') and t.get('f', '').startswith((REPO, VERIF)):
                r.append((t['n'], t['s'], [(n, o, s.typename(b)) for n, o, b in t['m']]))
        return sorted(map(repr, r))

    def val(s, x, ids, key=None):
        if isinstance(x, dict):
            return {k: s.val(v, ids, k) for k, v in x.items() if k not in DROP and k != 'id'}
        if isinstance(x, list):
            if len(x) >= 2 and x[0] == 'g' and isinstance(x[1], str):
                g = s.gl.get(x[1])
                if g and g[0] is not None:
                    return ['gs', g[0]] + x[2:]
                return x
            if len(x) == 2 and x[0] == 'i' and isinstance(x[1], int):
                return ['i', ids.get(x[1], -1)]
            return [s.val(y, ids, key) for y in x]
        if key == 'di' and isinstance(x, int):
            return s.typename(x)
        return x

    def form(s, f):
        ids = {}
        for b in f['blocks']:
            for i in b:
                ids[i['id']] = len(ids)
        g = {k: f[k] for k in ('sn', 'ret', 'args', 'pnm') if k in f}
        g['args'] = [a['ty'] for a in f['args']]
        g['pty'] = [s.typename(t) for t in f['pty']]
        g['blocks'] = s.val(f['blocks'], ids)
        return json.dumps(g, sort_keys=True)

    def hash(s, f):
        return hashlib.sha256(s.form(f).encode()).hexdigest()


# --------------------------------------------------------------- one unit
class Unit:
    """contract and code of one of the programs"""

    def __init__(s, name, work, spec_only=False):
        s.name = name
        s.work = work
        s.spec_only = spec_only
        s.sroot = os.path.join(VERIF, 'spec', name)
        s.iroot = os.path.join(REPO, name)

    def build(s):
        s.sbc = compile_dir(s.sroot, os.path.join(s.work, 'S_' + s.name))
        s.ibc = None if s.spec_only else compile_dir(s.iroot, os.path.join(s.work, 'I_' + s.name))

    def load(s, anch=None):
        from interp import Module
        anch = anch or anchors()
        tag = 'd%d' % (abs(hash(tuple(anch))) % 10**8)
        s.anch = anch
        S = dump(s.sroot, s.sbc, anch, os.path.join(s.work, 'S_%s_%s.json' % (s.name, tag)))
        s.S = Module(S, 'S')
        if not s.spec_only:
            I = dump(REPO, s.ibc, anch, os.path.join(s.work, 'I_%s_%s.json' % (s.name, tag)))
            s.I = Module(I, 'I')
        s.spath = S
        return s

    def defined(s, m):
        aset = set(s.anch)
        r = {}
        for n, f in m.fns.items():
            if 'blocks' in f and f['sn'] in aset:
                r[n] = f
        return r


def modtable(unit):
    """mods/refs of every contract function (used for calls on both sides)"""
    from interp import Interp, Imprecise
    from terms import A
    it = Interp(unit.S)
    rets = {}
    vals = {}
    for n, f in unit.defined(unit.S).items():
        try:
            tr = it.analyse(f)
        except Imprecise as e:
            sys.stderr.write('%s: %s\n' % (f['sn'], e))
            continue
        rs = {x.ret for x in tr if x.kind == 'ret'}
        vals[f['sn']] = rs
        if len(rs) == 1 and None not in rs:
            sv = it.save()
            it.f = f
            for k in range(len(f['args'])):
                if rs == {A(it.argatom(k))}:
                    rets[f['sn']] = k
            it.restore(sv)
    return {'mods': {k: (sorted(a), sorted(b)) for k, (a, b) in it.mods.items()}, 'rets': rets, 'never': sorted(it.never), 'range': ranges(vals)}


def ranges(vals):
    """name -> [lo, hi] of functions that return constants, or what such functions (themselves, too) return"""
    from terms import ATOMS, isk, single
    got = {k: set() for k in vals}
    change = True
    while change:
        change = False
        for k, rs in vals.items():
            if got[k] is None:
                continue
            new = set(got[k])
            for t in rs:
                j = single(t) if t is not None else None
                if t is not None and isk(t):
                    new.add(t[0])
                elif j is not None and ATOMS[j][0] == 'res' and got.get(ATOMS[j][1]) is not None:
                    new |= got[ATOMS[j][1]]
                else:
                    new = None
                    break
            if new != got[k]:
                got[k] = new
                change = True
    return {k: [min(v), max(v)] for k, v in got.items() if v}


def modsof(uname):
    """mods/refs of the contracts of a unit, and which of them return one of their arguments"""
    t = spec_tables()
    r = {a: (frozenset(b), frozenset(c)) for a, (b, c) in t['mods'][uname].items()}
    r['#rets'] = t['rets'][uname]
    r['#range'] = t['range'][uname]
    r['#never'] = frozenset(t['never'][uname])
    return r


class Timeout(Exception):
    pass


T0 = time.time()


def left(n, total=800):
    """seconds a job of at most n may take for the whole check to end in time"""
    return max(5, int(min(n, total - (time.time() - T0))))


def _alarm(*a):
    raise Timeout()


def compare(unit, f, g, mods, limit=240, swap=False):
    """contract function f, code function g -> (verdict, diffs, stats)"""
    from interp import Interp, Imprecise
    from cmp import Comparer, Limit
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(left(limit))
    st = {}
    try:
        S = Interp(unit.S)
        I = Interp(unit.I)
        S.modsrc = I.modsrc = mods
        T = S.analyse(f)
        U = I.analyse(g)
        st = {'paths': len(T) + len(U), 'steps': S.steps + I.steps, 'notes': (S.notes + I.notes)[:3]}
        c = Comparer()
        d = c.functions(T, U)
        st.update(c.stat)
        st['uncov'] = c.uncovered()
        v = 'EQUAL' if not d else 'DIFFERENT' if any(x.sure for x in d) else 'UNKNOWN'
        if v == 'EQUAL' and not S.excl and any(side == 1 for side, _, _ in st['uncov']):
            v = 'UNKNOWN'
            st['why'] = 'a path of the code goes with none of the contract'
    except Imprecise as e:
        v, d = 'UNKNOWN', []
        st['why'] = str(e)
    except Limit:
        v, d = 'UNKNOWN', []
        st['why'] = 'comparison budget exceeded'
    except Timeout:
        v, d = 'UNKNOWN', []
        st['why'] = 'time budget exceeded'
    except RecursionError:
        v, d = 'UNKNOWN', []
        st['why'] = 'recursion'
    except Exception as e:
        v, d = 'UNKNOWN', []
        import traceback
        st['why'] = 'internal: ' + traceback.format_exc()[-400:]
    finally:
        signal.alarm(0)
    st['wall'] = round(time.time() - t0, 2)
    return v, [(x.kind, x.label, x.msg, x.sure, x.line, x.lines) for x in d], st


# ------------------------------------------------------------------ all of it
_CTX = {}


def _job(a):
    kind, uname, sn, args = a
    u = _CTX['units'][uname]
    if kind == 'cmp':
        f, g, limit = args
        return a[:3], compare(u, u.S.fns[f], u.I.fns[g], _CTX['mods'][uname], limit)
    if kind == 'selfS':
        f, limit = args
        v = Unit.__new__(Unit)
        from interp import Module
        v.S, v.I = u.S, Module(u.spath, 'I')
        return a[:3], compare(v, v.S.fns[f], v.I.fns[f], _CTX['mods'][uname], limit)
    if kind == 'selfI':
        g, limit = args
        v = Unit.__new__(Unit)
        from interp import Module
        v.S, v.I = Module(u.ipath, 'S'), u.I
        return a[:3], compare(v, v.S.fns[g], v.I.fns[g], _CTX['mods'][uname], limit)
    if kind == 'mods':
        return a[:3], modtable(u)


def pool_run(jobs, ctx):
    """run jobs in forked workers that share the loaded IR"""
    global _CTX
    if not jobs:
        return []
    _CTX = ctx
    if len(jobs) == 1 and not os.environ.get('VERIF_FORCEPOOL'):
        return [_job(jobs[0])]
    n = min(len(jobs), os.cpu_count() or 4)
    with mp.get_context('fork').Pool(n, maxtasksperchild=1) as p:
        return list(p.imap_unordered(_job, jobs, 1))


def spec_tables():
    """mods/refs of the contracts: made by setup, else here"""
    path = os.path.join(BUILD, 'spec.json')
    key = hashlib.sha256()
    for d in ('spec/src', 'spec/bitvec', 'engine'):
        for f in sorted(os.listdir(os.path.join(VERIF, d))):
            p = os.path.join(VERIF, d, f)
            if os.path.isfile(p):
                key.update(open(p, 'rb').read())
    key = key.hexdigest()
    try:
        d = json.load(open(path))
        if d['key'] == key:
            return d
    except (OSError, ValueError, KeyError):
        pass
    work = tempfile.mkdtemp(prefix='mvlspec')
    try:
        us = {}
        for n in UNITS:
            u = Unit(n, work, True)
            u.build()
            us[n] = u.load()
        r = pool_run([('mods', n, '', None) for n in UNITS], {'units': us, 'mods': {}})
        d = {'key': key, 'mods': {k[1]: v['mods'] for k, v in r}, 'rets': {k[1]: v['rets'] for k, v in r}, 'never': {k[1]: v['never'] for k, v in r}, 'range': {k[1]: v['range'] for k, v in r}}
        os.makedirs(BUILD, exist_ok=True)
        tmp = path + '.%d' % os.getpid()
        json.dump(d, open(tmp, 'w'))
        os.replace(tmp, path)
        return d
    finally:
        shutil.rmtree(work, ignore_errors=True)


class Result:
    def __init__(s, unit, sn, name, verdict, diffs=(), st=None, how=''):
        s.unit, s.sn, s.name, s.verdict, s.diffs, s.st, s.how = unit, sn, name, verdict, list(diffs), st or {}, how


class Session:
    """the IR of contracts and code, loaded; verdicts of functions"""

    def __init__(s, quick=True):
        ensure_tools()
        s.quick = quick
        s.work = tempfile.mkdtemp(prefix='mvlchk')
        s.units = {}
        s.log = []
        for n in UNITS:
            u = Unit(n, s.work)
            u.build()
            s.units[n] = u
        s.dropped = {n: set() for n in UNITS}
        for n in UNITS:
            s.load(s.units[n])
        s.mods = None
        s.results = {}

    def close(s):
        shutil.rmtree(s.work, ignore_errors=True)

    def load(s, u, minus=()):
        """load the unit; functions whose signature changed lose their anchor"""
        drop = set(minus)
        for _ in range(5):
            anch = [a for a in anchors() if a not in drop]
            u.load(anch)
            S, I = u.defined(u.S), u.defined(u.I)
            bad = {f['sn'] for n, f in S.items() if n not in I or u.I.fns[n]['ret'] != f['ret']} | \
                  {f['sn'] for n, f in I.items() if n not in S}
            # a contract function the code does not have at all, or a new overload
            if not bad - drop:
                break
            drop |= bad
        u.ipath = os.path.join(u.work, 'I_%s_%s.json' % (u.name, 'd%d' % (abs(hash(tuple(u.anch))) % 10**8)))
        s.dropped[u.name] = drop - set(minus)
        u.canS, u.canI = Canon(u.S), Canon(u.I)
        u.samelayout = u.canS.layout() == u.canI.layout()
        return u

    def callers(s, u, sn):
        r = set()
        for m in (u.S, u.I):
            for n, f in u.defined(m).items():
                for b in f['blocks']:
                    for i in b:
                        if i['op'] == 'call' and not i.get('ext'):
                            g = m.fns.get(i.get('fn'))
                            if g is not None and g['sn'] == sn:
                                r.add(f['sn'])
        return r

    def callers_of_dropped(s, uname, sn):
        """functions that the code of an unanchored function is inlined into"""
        u = s.units[uname]
        r = set()
        for bc in ('S', 'I'):
            full = os.path.join(s.work, 'full_%s_%s.json' % (bc, uname))
            if not os.path.exists(full):
                dump(u.sroot if bc == 'S' else REPO, u.sbc if bc == 'S' else u.ibc, anchors(), full)
            d = json.load(open(full))
            names = {f['name']: f['sn'] for f in d['functions']}
            for f in d['functions']:
                for b in f.get('blocks', ()):
                    for i in b:
                        if i['op'] == 'call' and names.get(i.get('fn')) == sn:
                            r.add(f['sn'])
        seen = set(r)
        for c in list(r):
            if c in s.dropped[uname] and c != sn:
                r |= s.callers_of_dropped(uname, c) if c not in seen else set()
        return r

    def identical(s, u, n):
        f, g = u.S.fns[n], u.I.fns[n]
        return u.samelayout and u.canS.hash(f) == u.canI.hash(g)

    def functions(s, uname):
        u = s.units[uname]
        return {n: f['sn'] for n, f in u.defined(u.S).items()}

    def decide(s, wanted, limit=240):
        """wanted: {unit: set of short names or None} -> [Result]"""
        out, jobs = [], []
        changed = {n: set() for n in UNITS}
        for n in UNITS:
            u = s.units[n]
            for name, sn in s.functions(n).items():
                same = s.identical(u, name)
                if not same:
                    changed[n].add(sn)
                w = wanted.get(n, ())
                if w is not None and sn not in w:
                    # a function whose callee or caller lost its anchor is looked at too
                    continue
                if same and s.quick:
                    out.append(Result(n, sn, name, 'EQUAL', how='identical IR'))
                else:
                    jobs.append(('cmp', n, (sn, name), (name, name, limit)))
        s.changed = changed
        if jobs:
            s.mods = {k: modsof(k) for k in UNITS}
        for (k, n, (sn, name)), (v, d, st) in pool_run(jobs, {'units': s.units, 'mods': s.mods}):
            out.append(Result(n, sn, name, v, d, st, 'compared'))
        diff = [r for r in out if r.verdict == 'DIFFERENT']
        if diff:
            s.guard(diff, limit)
            s.merge_callers([r for r in diff if r.verdict == 'DIFFERENT'], limit)
        return out

    def guard(s, diff, limit):
        """a comparison that cannot even relate a version to itself says nothing"""
        jobs = []
        for r in diff:
            jobs.append(('selfS', r.unit, (r.sn, r.name), (r.name, limit)))
            jobs.append(('selfI', r.unit, (r.sn, r.name), (r.name, limit)))
        bad = {}
        for (k, n, (sn, name)), (v, d, st) in pool_run(jobs, {'units': s.units, 'mods': s.mods}):
            if v != 'EQUAL':
                bad[(n, name)] = (k, v, st)
        for r in diff:
            if (r.unit, r.name) in bad:
                r.verdict = 'UNKNOWN'
                r.st['why'] = 'the comparison cannot relate the function to itself (%s: %s)' % bad[(r.unit, r.name)][:2]

    def merge_callers(s, diff, limit):
        """a change shared between a function and its callers: look at them together"""
        for r in diff:
            if r.sn == 'main':
                continue
            u = s.units[r.unit]
            cl = s.callers(u, r.sn) - {r.sn}
            if not cl or not (cl & s.changed[r.unit]):
                continue
            if left(60) < 60:
                r.verdict = 'UNKNOWN'
                r.st['why'] = 'no time left to look at it together with its callers'
                continue
            v = Unit(u.name, u.work)
            v.sbc, v.ibc = u.sbc, u.ibc
            old = s.dropped[u.name]
            try:
                s.load(v, set(old) | {r.sn})
            except BuildError:
                continue
            finally:
                s.dropped[u.name] = old
            jobs = []
            for name, sn in {n: f['sn'] for n, f in v.defined(v.S).items()}.items():
                if sn in cl and not s.identical(v, name):
                    jobs.append(('cmp', u.name, (sn, name), (name, name, min(limit, 150))))
            # the contract's effect table must know the callers without the anchor too: effects are the same
            rs = pool_run(jobs, {'units': {u.name: v}, 'mods': s.mods})
            if all(x[1][0] == 'EQUAL' for x in rs):
                r.verdict = 'EQUAL'
                r.how = 'together with its callers ' + ', '.join(sorted(cl))
                for q in diff:
                    if q.unit == r.unit and q.sn in cl and q.verdict == 'DIFFERENT':
                        q.verdict = 'EQUAL'
                        q.how = 'together with its callee ' + r.sn
