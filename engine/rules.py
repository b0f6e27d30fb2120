"""Rules specific to a property, over the IR of /repo (never over its text)."""
import driver


class Rule:
    def __init__(s, text):
        s.text = text
        s.obligations = 0
        s.sites = []
        s.violations = []
        s.undecided = []

    def ok(s, site):
        s.obligations += 1
        s.sites.append(site)

    def bad(s, unit, fn, file, line, what):
        s.obligations += 1
        s.violations.append({'at': '%s:%s' % (unit, fn), 'function': fn, 'program': unit, 'file': file, 'line': line, 'what': what})


def code_mods(s, uname):
    """mods/refs of the code's functions: the contract's, except where the code changed"""
    from interp import Interp, Imprecise
    u = s.units[uname]
    base = {a: (frozenset(b), frozenset(c)) for a, (b, c) in driver.spec_tables()['mods'][uname].items()}
    ch = [(n, f) for n, f in u.defined(u.I).items() if n not in u.S.fns or not s.identical(u, n)]
    for _ in range(3):
        new = dict(base)
        for n, f in ch:
            it = Interp(u.I)
            it.modsrc = new
            try:
                it.analyse(f)
                new[f['sn']] = it.mods[f['sn']]
            except Imprecise:
                pass
        if new == base:
            break
        base = new
    return base, {f['sn'] for n, f in ch}


def selfcomp(unit, f, mods, consts, ignore, limit=200):
    """does the function behave alike under two values of a flag, printing apart?"""
    import signal
    from interp import Interp, Imprecise, Module
    from cmp import Comparer, Limit
    from terms import K
    signal.signal(signal.SIGALRM, driver._alarm)
    signal.alarm(driver.left(limit))
    try:
        A = Interp(Module(unit.ipath, 'S'))
        B = Interp(unit.I)
        A.modsrc = B.modsrc = mods
        for lab, (x, y) in consts.items():
            A.ldconst[lab] = K(x)
            B.ldconst[lab] = K(y)
        T = A.analyse(A.m.fns[f])
        U = B.analyse(unit.I.fns[f])
        c = Comparer(ignore=ignore, noout=True)
        d = c.functions(T, U)
        return [(x.kind, x.label, x.msg, x.sure, x.line, x.lines) for x in d], c.stat, None
    except (Imprecise, Limit, driver.Timeout, RecursionError) as e:
        return [], {}, 'not decided: %s %s' % (type(e).__name__, e)
    finally:
        signal.alarm(0)


def pool(fn, jobs):
    import multiprocessing as mp
    import os
    if not jobs:
        return []
    global _FN
    _FN = fn
    with mp.get_context('fork').Pool(min(len(jobs), os.cpu_count() or 4), maxtasksperchild=1) as p:
        return p.map(_call, jobs, 1)


def _call(j):
    return _FN(j)


def field(u, f, o, defs, deep=0):
    """the class member that an address expression names: 'Class.member', or None"""
    if deep > 6 or not (isinstance(o, list) and o[0] == 'i'):
        return None
    i = defs.get(o[1])
    if i is None or i['op'] != 'getelementptr':
        return None
    src = i.get('src') or ''
    if src.startswith(('class.', 'struct.')) and 'std::' not in src and not i.get('vo'):
        k = u.I.byty.get(src.split('.', 1)[1])
        for nm, off, ty in (u.I.types[k]['m'] if k is not None else ()):
            if off == i.get('co', 0):
                return src.split('.', 1)[1] + '.' + nm
        return None
    # an element of an array that a member points to, or of a vector
    b = defs.get(i['o'][0][1]) if i['o'][0][0] == 'i' else None
    if b is not None and b['op'] == 'load':
        x = field(u, f, b['o'][0], defs, deep + 1)
        return x and x + '[]'
    return None


def sided(u, f, flag, mods):
    """effects that are made on one side only of the branches on a flag: [(line, what)]"""
    B = f['blocks']
    n = len(B)
    defs = {i['id']: i for b in B for i in b if i.get('id')}
    succ = [[x for i in b for x in i.get('sc', ())] for b in B]

    def reads(o, deep=0):
        if deep > 8 or not (isinstance(o, list) and o[0] == 'i'):
            return False
        i = defs.get(o[1])
        if i is None:
            return False
        if i['op'] == 'load':
            return field(u, f, i['o'][0], defs) == flag
        return i['op'] in ('trunc', 'zext', 'icmp', 'xor', 'and', 'or') and any(reads(x, deep + 1) for x in i['o'])

    def after(k, stop=None):
        seen, work = set(), [k]
        while work:
            x = work.pop()
            if x in seen or x == stop:
                continue
            seen.add(x)
            work += succ[x]
        return seen

    def effects(blocks):
        r = {}
        for k in blocks:
            for i in B[k]:
                if i['op'] == 'store':
                    w = field(u, f, i['o'][1], defs)
                    if w:
                        r.setdefault('writes ' + w, line(i))
                elif i['op'] == 'call' and not i.get('ext'):
                    g = i.get('rn') or u.I.fns.get(i.get('fn'), {}).get('sn')
                    if g in mods and mods[g][0] - {'#out'}:
                        r.setdefault('calls ' + g, line(i))
        return r
    out = []
    for k, b in enumerate(B):
        t = b[-1] if b else None
        if not t or t['op'] != 'br' or len(succ[k]) != 2 or not reads(t['o'][0]):
            continue
        x, y = succ[k]
        # the join: the first block that every way from either side passes
        A, C = after(x), after(y)
        join = None
        for j in sorted(A & C):
            ex, ey = after(x, j), after(y, j)
            leave = lambda z: any(not succ[q] for q in z)
            if not (ex & ey) and not leave(ex) and not leave(ey):
                join = j
                break
        if join is None:
            continue
        E, G = effects(after(x, join)), effects(after(y, join))
        for w in set(E) ^ set(G):
            out.append((E.get(w) or G.get(w), w))
    return out


def rule_verbose(s, p):
    r = Rule('self-composition: every function that reads the verbose flag has the same effects, results, order of calls and '
             'control flow with the flag off and on, output apart')
    jobs = []
    tab = {}
    for n in driver.UNITS:
        u = s.units[n]
        mods, ch = code_mods(s, n)
        tab[n] = mods
        for name, f in u.defined(u.I).items():
            refs = mods.get(f['sn'], ((), ()))[1]
            if 'Formula.LOG' in refs or 'CommandLine.LOG' in refs and f['sn'] not in ('ParseCommandLine',) or f['sn'] in ch and f['sn'] != 'ParseCommandLine':
                jobs.append((n, name, f['sn']))
    # the flag itself is set from the command line and by nothing else
    for n in driver.UNITS:
        u = s.units[n]
        for lab, allowed in (('Formula.LOG', {'Formula::Formula'}), ('CommandLine.LOG', {'ParseCommandLine'})):
            w = {sn for sn, (m, _) in tab[n].items() if lab in m}
            for sn in sorted(w - allowed):
                if any(x in allowed for x in [sn]):
                    continue
                # callers of a writer are writers too
                f = [g for g in u.defined(u.I).values() if g['sn'] == sn]
                calls = {i.get('rn') for b in (f[0]['blocks'] if f else ()) for i in b if i['op'] == 'call'}
                if calls & w:
                    continue
                r.bad(n, sn, f[0]['file'] if f else '', f[0].get('line'), '%s is written by %s' % (lab, sn))
            r.ok('%s: %s is written only by %s' % (n, lab, ', '.join(sorted(allowed))))
    C = {'Formula.LOG': (0, 1), 'CommandLine.LOG': (0, 1)}
    ign = lambda lab: lab == 'Formula.LOG'
    fn = lambda j: (j, selfcomp(s.units[j[0]], j[1], tab[j[0]], C, ign))
    base = lambda j: (j, selfcomp(s.units[j[0]], j[1], tab[j[0]], {'Formula.LOG': (0, 0), 'CommandLine.LOG': (0, 0)}, ign))
    res = pool(fn, jobs)
    again = {j: x for j, x in pool(base, [j for j, (d, st, why) in res if any(x[3] for x in d)])}
    for j, (d, st, why) in res:
        u = s.units[j[0]]
        f = u.I.fns[j[1]]
        at = '%s:%s' % (j[0], j[2])
        sure = [x for x in d if x[3]]
        if why:
            r.undecided.append('%s: %s' % (at, why))
        elif sure and not again[j][0] and not again[j][2]:
            r.bad(j[0], j[2], f['file'], sure[0][4], 'with and without the verbose flag: ' + sure[0][2][:300])
        elif d:
            one = sided(u, f, 'Formula.LOG', tab[j[0]])
            if one:
                r.bad(j[0], j[2], f['file'], one[0][0], 'on one side only of a branch on the verbose flag it %s, and the runs with and without the flag differ: %s' % (one[0][1], d[0][2][:200]))
            else:
                r.undecided.append('%s: %s' % (at, d[0][2][:200]))
        else:
            r.ok('%s: %s path pairs alike' % (at, st.get('pairs')))
    return r


def rule_released(s, p):
    r = Rule('typestate: on no path of a function that frees an object, or calls one that does, is the object read, written, passed on or freed again afterwards')
    import signal
    from interp import Interp, Imprecise
    from terms import A, Bad

    def look(n, name, frees, tab):
        """(uses after release, arguments released) of a function"""
        f = s.units[n].I.fns[name]
        signal.signal(signal.SIGALRM, driver._alarm)
        signal.alarm(driver.left(250))
        it = Interp(s.units[n].I)
        it.modsrc = tab
        it.frees = frees
        try:
            tr = it.analyse(f)
            it.f = f
            na = len(f['args'])
            at = [A(it.argatom(k)) for k in range(na)]
            bools = [k for k in range(na) if f['args'][k].get('ty') == 'i1' or 'bool' in str(f['args'][k])]
            bad, fr, cnt = {}, {}, 0
            for F, ev, kind, ret in walk(tr):
                for e in ev:
                    if e[0] == 'uaf':
                        bad[(e[5], e[1])] = e
                    elif e[0] == 'freed':
                        cnt += 1
                        for k, a in enumerate(at):
                            if F.norm(a) == F.norm(e[1]):
                                c = {}
                                for b in bools:
                                    ok = set()
                                    for v in (0, 1):
                                        G = F.copy()
                                        try:
                                            G.add_eq((at[b][0] - v, at[b][1]))
                                            ok.add(v)
                                        except Bad:
                                            pass
                                    if len(ok) == 1:
                                        c[b] = frozenset(ok)
                                fr.setdefault(k, [])
                                if c not in fr[k]:
                                    fr[k].append(c)
            return sorted(bad.values(), key=str), fr, cnt, None
        except (Imprecise, driver.Timeout, RecursionError) as e:
            return [], {}, 0, '%s %s' % (type(e).__name__, e)
        finally:
            signal.alarm(0)
    for n in driver.UNITS:
        u = s.units[n]
        tab, _ = code_mods(s, n)
        tab = dict(tab)
        fns = sorted(reach(u, 'main'))
        frees, done = {}, {}
        calls = {name: {i.get('rn') for _, i in instrs(u.I.fns[name]) if i['op'] == 'call'} for name in fns}
        dels = {name for name in fns if any(i['op'] == 'call' and (i.get('dn') or i.get('fn') or '').startswith(('operator delete', '_ZdlPv', '_ZdaPv', 'free')) for _, i in instrs(u.I.fns[name]))}
        for _ in range(5):
            todo = [x for x in fns if (x in dels or calls[x] & set(frees)) and u.I.fns[x]['sn'] in u.anch and
                    done.get(x) != {c: frees[c] for c in calls[x] & set(frees)}]
            if not todo:
                break
            for x, (bad, fr, cnt, err) in zip(todo, pool(lambda x: look(n, x, frees, tab), todo)):
                f = u.I.fns[x]
                done[x] = {c: frees[c] for c in calls[x] & set(frees)}
                done[(x,)] = (bad, cnt, err)
                if fr:
                    frees[f['sn']] = fr
        for x in fns:
            if (x,) not in done:
                continue
            bad, cnt, err = done[(x,)]
            f = u.I.fns[x]
            if err:
                r.undecided.append('%s:%s: %s' % (n, f['sn'], err))
            elif bad:
                e = bad[0]
                r.bad(n, f['sn'], f['file'], e[5], '%s of an object that %s at line %s has released' % (e[1], e[4], e[3]))
            else:
                r.ok('%s:%s: %d releases, nothing used afterwards' % (n, f['sn'], cnt))
        r.ok('%s: %d functions reachable from main; arguments released: %s' % (n, len(fns), ', '.join('%s %s' % (a, sorted(b)) for a, b in sorted(frees.items()))))
    return r


PRINTS = ('operator<<', 'printf', 'fprintf', 'puts', 'fputs', 'perror', 'putchar', 'vprintf', 'ostream::write', 'ostream::put')


def rule_ends(s, p):
    r = Rule('control flow: no function with a result can be left without returning one; every call that ends the program passes a failing status, '
             'and every path to it has written to an output before')
    import re
    import subprocess
    import os
    # what the compiler's own control-flow analysis says of every function
    for n in driver.UNITS:
        root = s.units[n].iroot
        fl = [x for x in driver.FLAGS if x not in ('-w', '-emit-llvm', '-c', '-g')]
        ps = []
        for f in sorted(os.listdir(root)):
            if f.endswith(('.cc', '.cpp', '.cxx', '.C')):
                q = os.path.join(root, f)
                ps.append((q, subprocess.Popen([driver.CLANG] + fl + ['-fsyntax-only', '-fno-caret-diagnostics', '-Wno-everything', '-Wreturn-type', q],
                                               stderr=subprocess.PIPE)))
        for q, pr in ps:
            e = pr.communicate()[1].decode(errors='replace')
            w = [m for m in re.findall(r'^(\S+?):(\d+):\d+: (?:warning|error): (.*return.*)$', e, re.M)]
            for file, ln, msg in w:
                g = owner(s.units[n], file, int(ln))
                r.bad(n, g or os.path.basename(file), file, int(ln), msg)
            if not w:
                r.ok('%s: every function with a result returns one on every path' % os.path.relpath(q, driver.REPO))
    for n in driver.UNITS:
        u = s.units[n]
        fns = reach(u, 'main')
        prints = set()
        # functions every path of which writes something before it returns
        flow = {x: printed(u.I.fns[x], prints) for x in fns}
        for _ in range(4):
            new = {x for x in fns if flow[x][0]}
            if new == prints:
                break
            prints = new
            flow = {x: printed(u.I.fns[x], prints) for x in fns}
        for x in sorted(fns):
            f = u.I.fns[x]
            for k, i in instrs(f):
                d = (i.get('dn') or i.get('fn') or '').split('(')[0] if i['op'] == 'call' else ''
                if d not in ('exit', '_exit', '_Exit', 'quick_exit', 'std::exit', 'std::quick_exit', 'std::_Exit'):
                    continue
                at = '%s:%s line %s' % (n, f['sn'], line(i))
                o = i['o'][0]
                if o[0] != 'k' and o[0] != 'c':
                    r.undecided.append('%s: the status passed is not a constant' % at)
                    continue
                if o[1] % 256 == 0:
                    r.bad(n, f['sn'], f['file'], line(i), 'ends the program with a status of success in the middle of its work')
                    continue
                if i['id'] in flow[x][1]:
                    r.ok('%s: status %s, after a message' % (at, o[1]))
                    continue
                # a helper: its callers may have written the message
                sites = [(y, j) for y in fns for _, j in instrs(u.I.fns[y]) if j['op'] == 'call' and j.get('fn') == x]
                bad = [(y, j) for y, j in sites if j['id'] not in flow[y][1]]
                if not sites or bad:
                    r.bad(n, f['sn'], f['file'], line(i), 'ends the program on a path that has reported nothing')
                else:
                    r.ok('%s: status %s, after a message of its callers' % (at, o[1]))
    return r


def owner(u, file, ln):
    best = None
    for f in u.I.fns.values():
        if f.get('file') == file and f.get('line') and f['line'] <= ln and 'blocks' in f and (best is None or f['line'] > best['line']):
            best = f
    return best and best['sn']


def printed(f, prints):
    """(every path that returns has written something, calls before which every path has)"""
    B = f.get('blocks') or []
    n = len(B)
    if not n:
        return False, set()
    inn = [None] * n
    inn[0] = False
    calls = {}
    rets = []

    def isout(i):
        if i['op'] != 'call':
            return False
        d = (i.get('dn') or i.get('fn') or '')
        d = d.split('(')[0]
        return any(d == x or d.endswith('::' + x) or x == 'operator<<' and 'operator<<' in d for x in PRINTS) or i.get('fn') in prints
    work = [0]
    while work:
        k = work.pop()
        v = inn[k]
        for i in B[k]:
            if i['op'] == 'call':
                calls[i['id']] = v
            if isout(i):
                v = True
            for x in list(i.get('sc', ())) + [b for _, b in i.get('cs', ())] + ([i['def']] if 'def' in i else []):
                m = v if inn[x] is None else inn[x] and v
                if m != inn[x]:
                    inn[x] = m
                    work.append(x)
    for k in range(n):
        if inn[k] is None:
            continue
        v = inn[k]
        for i in B[k]:
            if i['op'] == 'ret':
                rets.append(v)
            if isout(i):
                v = True
    return bool(rets) and all(rets), {i for i, v in calls.items() if v}


# ---------------------------------------------------------------- helpers
def reach(u, root):
    """functions of the code reachable from one (anchors are calls, the rest is inlined; helpers left as functions count)"""
    by = {}
    for n, f in u.I.fns.items():
        by.setdefault(f['sn'], []).append(n)
    seen, work = set(), [n for n in by.get(root, ())]
    while work:
        n = work.pop()
        if n in seen:
            continue
        seen.add(n)
        for b in u.I.fns[n].get('blocks', ()):
            for i in b:
                if i['op'] == 'call' and i.get('fn') in u.I.fns:
                    work.append(i['fn'])
                # a function whose address is taken may be called
                for o in i.get('o', ()):
                    if isinstance(o, list) and len(o) > 1 and o[0] == 'g' and o[1] in u.I.fns:
                        work.append(o[1])
    return seen


def instrs(f):
    for k, b in enumerate(f.get('blocks', ())):
        for i in b:
            yield k, i


def inrepo(i):
    return (i.get('fl') or '').startswith((driver.REPO, driver.VERIF))


def line(i):
    return i.get('iln') or i.get('ln')


def summaries(s, uname, names, tab):
    """effect summaries of the code's functions: {name: (traces, error)}"""
    import signal
    u = s.units[uname]

    def job(n):
        from interp import Interp, Imprecise
        signal.signal(signal.SIGALRM, driver._alarm)
        signal.alarm(driver.left(200))
        it = Interp(u.I)
        it.modsrc = tab
        try:
            return n, it.analyse(u.I.fns[n]), None
        except (Imprecise, driver.Timeout, RecursionError) as e:
            return n, None, '%s %s' % (type(e).__name__, e)
        finally:
            signal.alarm(0)
    return job


def walk(traces):
    """(facts, events, kind, ret) of all paths, those of loops included"""
    seen = set()

    def alts(al):
        for clause in al:
            for f, sub, outs in clause:
                yield f
                yield from alts(sub)
    work = [(t.facts, t.events, t.kind, t.ret, t.alts) for t in traces]
    while work:
        f, ev, k, r, al = work.pop()
        yield f, ev, k, r
        for g in alts(al):
            yield g, (), k, None
        for e in ev:
            if e[0] == 'loop' and e[1].uid not in seen:
                seen.add(e[1].uid)
                for outs in e[1].parts.values():
                    for o in outs:
                        work.append((o.st.facts, o.st.events, o.kind, None, o.st.alts))


RANDOM = ('rand', 'random', 'srand', 'srandom', 'drand48', 'lrand48', 'mrand48', 'erand48', 'rand_r', 'time', 'clock', 'getenv', 'secure_getenv',
          'getpid', 'getppid', 'gettid', 'getuid', 'gethostname', 'clock_gettime', 'getrandom', 'getrusage', 'times', 'ftime', 'pthread_create', 'fork', 'usleep', 'rdtsc')
RANDCXX = ('std::random_device', 'std::mersenne_twister', 'std::linear_congruential', 'std::uniform_', 'std::chrono', 'std::thread', 'std::async',
           'std::hash<void', 'llvm.readcyclecounter', 'std::shuffle', 'std::random_shuffle', 'std::default_random')
TIMES = ('Formula.TIME_S', 'Formula.TIME_E')


def rule_determinism(s, p):
    r = Rule('effects and taint: nothing reachable from the solve command calls a source of randomness, environment or threads; the clock is read in one '
             'function only; what it returns reaches the two time stamps, the output and comparisons with the time limit, and no other branch, store or call; '
             'no address becomes a number or is compared for order')
    jobs = []
    tabs = {}
    for n in driver.UNITS:
        u = s.units[n]
        tabs[n], ch = code_mods(s, n)
        fns = reach(u, 'SolveFinite')
        ncalls = 0
        for name in sorted(fns):
            f = u.I.fns[name]
            bad = False
            for k, i in instrs(f):
                if i['op'] == 'call':
                    ncalls += 1
                    d = (i.get('dn') or i.get('fn') or '').split('(')[0]
                    if d in RANDOM or any(x in d for x in RANDCXX):
                        r.bad(n, f['sn'], f['file'], line(i), 'calls %s, which depends on more than the input and the options' % d)
                        bad = True
                    elif d == 'gettimeofday' and f['sn'] != 'GetTime':
                        r.bad(n, f['sn'], f['file'], line(i), 'reads the clock outside GetTime')
                        bad = True
                elif i['op'] == 'ptrtoint' and inrepo(i) and not distance(f, i):
                    r.bad(n, f['sn'], f['file'], line(i), 'uses an address as a number')
                    bad = True
                elif i['op'] == 'icmp' and i.get('ow') == -1 and i['pr'] not in ('eq', 'ne') and inrepo(i) and objects(u, f, i):
                    r.bad(n, f['sn'], f['file'], line(i), 'orders addresses')
                    bad = True
            if not bad:
                r.obligations += 1
            m, rf = tabs[n].get(f['sn'], ((), ()))
            calls = any(i['op'] == 'call' and i.get('rn') == 'GetTime' for _, i in instrs(f))
            if f['sn'] != 'GetTime' and (calls or set(rf) & set(TIMES)):
                jobs.append((n, name))
        r.ok('%s: %d functions reachable from SolveFinite, %d calls: none reads random numbers, the environment, threads or addresses' % (n, len(fns), ncalls))

    def job(j):
        n, name = j
        _, tr, err = summaries(s, n, None, tabs[n])(name)
        if err:
            return j, None, err
        return j, timeflow(tr), None
    for (n, name), x, err in pool(job, jobs):
        f = s.units[n].I.fns[name]
        at = '%s:%s' % (n, f['sn'])
        if err:
            r.undecided.append('%s: %s' % (at, err))
            continue
        bad, cnt = x
        if bad:
            r.bad(n, f['sn'], f['file'], bad[0][0], bad[0][1])
        else:
            r.ok('%s: %d uses of the clock, all for time stamps, output or the limit' % (at, cnt))
    return r


def distance(f, i):
    """is the number only subtracted from that of another address (their distance)?"""
    for _, j in instrs(f):
        if ['i', i['id']] in j.get('o', ()) or any(['i', i['id']] in x for x in j.get('in', ())):
            if j['op'] != 'sub':
                return False
            ops = [d for _, d in instrs(f) if d.get('id') in [o[1] for o in j['o'] if o[0] == 'i']]
            if len(ops) != 2 or any(d['op'] != 'ptrtoint' for d in ops):
                return False
    return True


def objects(u, f, i):
    """are the addresses compared those of whole objects (a place in an array is ordered by its index)?"""
    defs = {d['id']: d for _, d in instrs(f) if d.get('id')}

    def whole(o):
        if o[0] == 'a':
            k = o[1]
            t = u.I.pointee(f['pty'][k]) if k < len(f.get('pty', ())) else None
            return t is not None and u.I.isclass(t)
        d = defs.get(o[1]) if o[0] == 'i' else None
        if d is None:
            return False
        if d['op'] == 'load':
            # what a container of pointers or a member holds
            g = defs.get(d['o'][0][1]) if d['o'][0][0] == 'i' else None
            return g is not None and g['op'] == 'getelementptr' and g.get('src') == 'ptr'
        return False
    return all(whole(o) for o in i['o'])


def timeflow(tr):
    from terms import atoms_in, ATOMS, isterm, show
    known = ('Formula.', 'Variable.', 'Clause.', 'Literal.', 'VARRECORD.', 'IGNode.')

    def tainted(x):
        if isinstance(x, tuple) and not isterm(x):
            return any(tainted(y) for y in x)
        if not isterm(x):
            return False
        return any(ATOMS[i][0] == 'res' and ATOMS[i][1] == 'GetTime' or ATOMS[i][0] == 'ld' and ATOMS[i][1] in TIMES for i in atoms_in(x))

    def limit(x):
        return any(ATOMS[i][0] == 'ld' and 'TIME' in ATOMS[i][1] and ATOMS[i][1] not in TIMES for i in atoms_in(x))
    bad, cnt = [], 0
    pol = {}
    for F, ev, kind, ret in walk(tr):
        for i, v in F.sub.items():
            if ATOMS[i][0] == 'fcmp' and tainted((0, ((i, 1),))) and not v[1]:
                pol.setdefault(i, {}).setdefault(v[0], set()).add(kind)
        for f in list(F.itv) + list(F.neq):
            t = (0, f)
            if tainted(t):
                cnt += 1
                if not limit(t):
                    bad.append((None, 'a branch depends on the clock other than by the time limit: ' + show(t)[:200]))
        for i, v in F.sub.items():
            t = ((0, ((i, 1),)))
            if tainted(t):
                cnt += 1
                if not limit(t):
                    bad.append((None, 'a branch depends on the clock other than by the time limit: ' + show(t)[:200]))
        for e in ev:
            if e[0] == 'st':
                if tainted(e[3]) or tainted(e[2]):
                    cnt += 1
                    if e[1] not in TIMES and e[1].startswith(known):
                        bad.append((e[4], 'stores a clock value in %s' % e[1]))
            elif e[0] == 'call' and tainted(e[2]) and e[4] - {'#out', '#time'}:
                bad.append((e[6], 'passes a clock value to %s' % e[1]))
            elif e[0] == 'cop' and (tainted(e[3]) or tainted(e[4])):
                bad.append((e[6], 'puts a clock value into %s' % e[2]))
        if kind == 'ret' and ret is not None and tainted(ret):
            bad.append((None, 'returns a clock value'))
    for i, d in pol.items():
        if all('back' in k for k in d.values()) and len(d) > 1:
            bad.append((None, 'the search goes on in two ways that depend on the clock: ' + show((0, ((i, 1),)))[:200]))
    return bad, cnt


# what a command may open: (members naming its inputs, members naming its outputs)
FILES = {'SolveFinite': (('FILE',), ()), 'LinearEncode': (('FILE',), ('MODEL_FILE',)), 'QuadraticEncode': (('FILE',), ('MODEL_FILE',)),
         'Boolean2Finite': (('FILE',), ('MODEL_FILE',)), 'GenBenFin': ((), ('FILE',)), 'GenBenBool': ((), ('FILE',)), 'main': ((), ())}
TOUCH = ('fopen', 'fopen64', 'freopen', 'open', 'open64', 'openat', 'creat', 'remove', 'unlink', 'unlinkat', 'rename', 'renameat', 'link', 'symlink', 'truncate',
         'ftruncate', 'mkdir', 'rmdir', 'mkstemp', 'tmpfile', 'tmpnam', 'system', 'popen', 'execl', 'execlp', 'execle', 'execv', 'execvp', 'execvpe', 'fork',
         'chmod', 'chown', 'mkfifo', 'mknod', 'chdir', 'posix_spawn', 'dup', 'dup2', 'mmap')
STREAMS = ('basic_ifstream', 'basic_ofstream', 'basic_fstream', 'basic_filebuf')


def demangled(i):
    import re
    d = i.get('dn') or i.get('fn') or ''
    while True:
        e = re.sub(r'<[^<>]*>', '', d)
        if e == d:
            break
        d = e
    return d


def opening(i):
    """the stream class a call opens a file on, or None"""
    d = demangled(i).split('(')[0].replace('__cxx11::', '')
    p = d.split('::')
    c = next((x for x in p if x in STREAMS), None)
    if c is None:
        return None
    if p[-1] in ('open', 'rdbuf') and len(p) > 1 and p[-2] == c:
        return c if p[-1] == 'open' else None
    if p[-1] == c and len(i['o']) > 1:
        return c
    return None


def rule_files(s, p):
    r = Rule('effects: the only calls reachable from a command that touch a file open its input for reading or its output for writing from the start; '
             'the name is that of the command line')
    for n in driver.UNITS:
        u = s.units[n]
        tab, _ = code_mods(s, n)
        tab = dict(tab)
        allf = reach(u, 'main')
        for x, f in u.I.fns.items():
            if x.startswith(('__cxx_global_var_init', '_GLOBAL__')):
                allf |= reach(u, f['sn']) | {x}
        ncall = 0
        opens = {}
        for x in sorted(allf):
            f = u.I.fns[x]
            if f.get('file') and not f['file'].startswith((driver.REPO, driver.VERIF)) and not x.startswith('_'):
                continue
            for _, i in instrs(f):
                if i['op'] != 'call':
                    continue
                ncall += 1
                d = demangled(i).split('(')[0]
                if d.replace('std::', '') in TOUCH or 'std::filesystem::' in d and ('remove' in d or 'rename' in d or 'copy' in d or 'resize' in d or 'create' in d):
                    r.bad(n, f['sn'], f['file'], line(i), 'calls %s' % d)
                elif opening(i):
                    opens.setdefault(x, []).append(i)
        r.ok('%s: %d functions, %d calls: files are touched by streams only, in %s' % (n, len(allf), ncall, ', '.join(sorted(u.I.fns[x]['sn'] for x in opens)) or 'none'))
        # the functions whose summaries show the openings: helpers without contracts are part of their callers
        show = set()
        for x in allf:
            f = u.I.fns[x]
            if f['sn'] in u.anch or f['sn'] == 'main' or x.startswith(('__cxx_global', '_GLOBAL__')):
                seen, work = set(), [x]
                while work:
                    y = work.pop()
                    if y in seen:
                        continue
                    seen.add(y)
                    if y in opens:
                        show.add(x)
                    work += [i['fn'] for _, i in instrs(u.I.fns[y]) if i['op'] == 'call' and i.get('fn') in u.I.fns and u.I.fns[i['fn']]['sn'] not in u.anch]
        owner_ = {}
        for c in FILES:
            if c != 'main':
                for x in reach(u, c):
                    owner_.setdefault(x, []).append(c)
        order = sorted(show)
        for x, res in zip(order, pool(lambda x: named(s, n, x, tab), order)):
            f = u.I.fns[x]
            at = '%s:%s' % (n, f['sn'])
            got, err = res
            if err:
                r.undecided.append('%s: %s' % (at, err))
                continue
            for ln, cls, mode, name in got:
                if mode is None or name is None:
                    r.undecided.append('%s line %s: the name or the mode of the file is not known' % (at, ln))
                    continue
                write = bool(mode & (16 | 32 | 1))
                for c in owner_.get(x, ['main']):
                    ins, outs = FILES[c]
                    w = 'opens %s for %s' % (name, 'writing' if write else 'reading')
                    if write and (mode & 1 or mode & 8 and not mode & 32):
                        r.bad(n, f['sn'], f['file'], ln, w + ' without replacing what it holds')
                    elif name not in ['CommandLine.' + y for y in (outs if write else ins)]:
                        r.bad(n, f['sn'], f['file'], ln, '%s, which is not %s of %s' % (w, 'an output' if write else 'an input', c))
                    else:
                        r.ok('%s line %s: %s, for %s' % (at, ln, w, c))
    return r


def named(s, n, x, tab):
    """[(line, stream class, mode, name of the file)] of the openings in a function's summary"""
    from terms import ATOMS, single
    _, tr, err = summaries(s, n, None, tab)(x)
    if err:
        return None, err
    u = s.units[n]
    out = set()

    def text(a, ev, k, deep=0):
        """the member, literal or object a string argument comes from"""
        if deep > 6:
            return None
        j = single(a)
        if j is None:
            return None
        t = ATOMS[j]
        if t[0] in ('mem', 'sbuf', 'objv', 'pure'):
            return text(t[1] if t[0] != 'pure' else t[2][0], ev, k, deep + 1)
        if t[0] == 'str' or t[0] == 'g':
            return 'a fixed name'
        if t[0] in ('al', 'new'):
            # a local string: what it was made of
            src = None
            for q in range(k - 1, -1, -1):
                e = ev[q]
                if e[0] == 'call' and e[2] and single(e[2][0]) is not None:
                    b = ATOMS[single(e[2][0])]
                    if (b[1] if b[0] in ('mem', 'objv') else e[2][0]) != a:
                        continue
                    if e[1] in ('basic_string', 'operator=', 'assign') and len(e[2]) >= 2:
                        return text(e[2][1], ev, q, deep + 1)
                    if e[1] in ('operator+=', 'append', 'push_back', 'insert', 'operator+'):
                        return 'a made-up name'
                    if e[1] not in ('basic_string',):
                        return None
            if src is None and k and ev[k][0] == 'call' and any(e[0] == 'call' and e[1] in ('operator+', 'append', 'operator+=') and e[6] == ev[k][6] and e[2] and
                                                                 single(e[2][0]) is not None and ATOMS[single(e[2][0])][0] == 'ref' for e in ev[max(0, k - 3):k]):
                # a string put together in the call itself
                return 'a made-up name'
            return src
        return member(j)

    def member(j):
        t = ATOMS[j]
        return t[1] if t[0] == 'ld' and t[1].split('.')[-1].isidentifier() else None
    for F, ev, kind, ret in walk(tr):
        for k, e in enumerate(ev):
            if e[0] != 'call' or not (e[1] == 'open' or e[1] in STREAMS and len(e[2]) >= 2):
                continue
            a = e[2]
            cls = e[1] if e[1] in STREAMS else None
            if cls is None:
                j = single(a[0])
                b = ATOMS[j][1] if j is not None and ATOMS[j][0] in ('mem', 'objv') else a[0]
                for q in range(k - 1, -1, -1):
                    c = ev[q]
                    if c[0] == 'call' and c[1] in STREAMS:
                        jj = single(c[2][0])
                        if jj is not None and (ATOMS[jj][1] if ATOMS[jj][0] in ('mem', 'objv') else c[2][0]) == b:
                            cls = c[1]
                            break
            mode = a[2][0] if len(a) > 2 and isinstance(a[2], tuple) and len(a[2]) == 2 and not a[2][1] else None
            if cls and mode is not None:
                mode |= {'basic_ifstream': 8, 'basic_ofstream': 16}.get(cls, 0)
            out.add((e[6], cls, mode if cls else None, text(a[1], ev, k)))
    return sorted(out, key=str), None


def leaves(u, k, base=0):
    """[(offset, size, name)] of the scalar members of a class"""
    out = []
    for nm, off, ty in u.I.types[k]['m'] or ():
        kd = u.I.kind(ty)
        if kd in ('scalar', 'ptr'):
            out.append((base + off, 8 if kd == 'ptr' else max(u.I.tsize(ty), 1), nm))
        elif kd == 'class':
            out += [(o, z, nm + '.' + x) for o, z, x in leaves(u, ty, base + off)]
    return out


class Assigned:
    """which bytes of an object a function has certainly stored, at its returns and at its reads"""

    def __init__(s, u):
        s.u = u
        s.memo = {}

    def of(s, name, root):
        """(offsets assigned whenever it returns or None, [(offset, size, line)] reads of what is not assigned) for the object at root"""
        key = (name, root)
        if key not in s.memo:
            s.memo[key] = (frozenset(), [])         # recursion: nothing
            s.memo[key] = s.flow(s.u.I.fns[name], root)
        return s.memo[key]

    def place(s, defs, o, root, deep=0):
        if deep > 20 or not isinstance(o, list):
            return None
        if tuple(o[:2]) == root:
            return 0
        if o[0] != 'i' or o[1] not in defs:
            return None
        i = defs[o[1]]
        if i['op'] == 'getelementptr' and not i.get('vo'):
            b = s.place(defs, i['o'][0], root, deep + 1)
            return None if b is None else b + i.get('co', 0)
        if i['op'] in ('bitcast', 'freeze'):
            return s.place(defs, i['o'][0], root, deep + 1)
        return None

    def flow(s, f, root):
        B = f.get('blocks') or []
        if not B:
            return frozenset(), []
        defs = {i['id']: i for b in B for i in b if i.get('id')}
        inn = [None] * len(B)
        inn[0] = frozenset()
        work = [0]
        rets, reads = {}, {}
        while work:
            k = work.pop()
            v = set(inn[k])
            dead = False
            for i in B[k]:
                op = i['op']
                if op == 'store':
                    a = s.place(defs, i['o'][1], root)
                    if a is not None:
                        v |= set(range(a, a + max(1, (i.get('sw') or 8) // 8)))
                elif op == 'load':
                    a = s.place(defs, i['o'][0], root)
                    if a is not None:
                        z = max(1, (i.get('w') or 8) // 8)
                        if not set(range(a, a + z)) <= v:
                            reads[(k, i['id'])] = (a, z, line(i))
                        else:
                            reads.pop((k, i['id']), None)
                elif op == 'call':
                    d = i.get('fn') or ''
                    for n, o in enumerate(i.get('o', ())):
                        a = s.place(defs, o, root)
                        if a is None:
                            continue
                        if d.startswith(('llvm.memset', 'llvm.memcpy', 'llvm.memmove')):
                            if n == 0 and i['o'][2][0] in ('c', 'k'):
                                v |= set(range(a, a + i['o'][2][1]))
                        elif d in s.u.I.fns:
                            got, rd = s.of(d, ('a', n))
                            v |= {a + x for x in got or ()}
                    if (i.get('dn') or d).split('(')[0] in ('exit', 'abort', '_exit', 'std::terminate', '__cxa_throw', '__clang_call_terminate'):
                        dead = True
                        break
                elif op == 'ret':
                    rets[k] = frozenset(v)
            if dead:
                continue
            v = frozenset(v)
            for i in B[k]:
                sc = list(i.get('sc', ())) + [b for _, b in i.get('cs', ())] + ([i['def']] if 'def' in i else [])
                c = defs.get(i['o'][0][1]) if i['op'] == 'br' and len(sc) == 2 and i.get('o') and i['o'][0][0] == 'i' else None
                if c is not None and c['op'] == 'icmp' and c['pr'] in ('eq', 'ne') and ['n'] in c['o'] and any(s.place(defs, o, root) is not None for o in c['o']):
                    # the object exists
                    sc = [sc[0] if c['pr'] == 'ne' else sc[1]]
                for x in sc:
                    m = v if inn[x] is None else inn[x] & v
                    if m != inn[x]:
                        inn[x] = m
                        work.append(x)
        r = None
        for x in rets.values():
            r = x if r is None else r & x
        return r, sorted(reads.values(), key=str)


def rule_defined(s, p):
    r = Rule('definite assignment: on every path a constructor stores every scalar member of its object, and code that makes an object without one does so '
             'before it returns; nothing of it is read before; no local variable without a value is branched on, stored, passed, printed or returned')
    for n in driver.UNITS:
        u = s.units[n]
        asg = Assigned(u)
        fns = reach(u, 'main')
        for x in sorted(u.I.fns):
            f = u.I.fns[x]
            q = f['sn'].split('::')
            if 'blocks' not in f or not (f.get('file') or '').startswith((driver.REPO, driver.VERIF)):
                continue
            if len(q) == 2 and q[0] == q[1] and q[0] in u.I.byty:
                check(r, n, u, f, asg.of(x, ('a', 0)), u.I.byty[q[0]], 'the constructor')
            if x not in fns:
                continue
            defs = {i['id']: i for _, i in instrs(f) if i.get('id')}
            for _, i in instrs(f):
                if i['op'] != 'call' or (i.get('dn') or '').split('(')[0] != 'operator new':
                    continue
                root = ('i', i['id'])
                ty = None
                made = False
                for _, j in instrs(f):
                    if j['op'] == 'getelementptr' and tuple(j['o'][0][:2]) == root and (j.get('src') or '').startswith(('class.', 'struct.')) and 'std::' not in j['src']:
                        ty = ty or j['src'].split('.', 1)[1]
                    if j['op'] == 'call' and j.get('fn') in u.I.fns:
                        g = u.I.fns[j['fn']]
                        for k, o in enumerate(j.get('o', ())):
                            if isinstance(o, list) and tuple(o[:2]) == root:
                                q = g['sn'].split('::')
                                if k == 0 and len(q) == 2 and q[0] == q[1]:
                                    made = True
                                t = u.I.pointee(g['pty'][k + 1]) if len(g.get('pty', ())) > k + 1 else None
                                if t is not None and t >= 0 and u.I.kind(t) == 'class':
                                    ty = ty or u.I.types[t]['n']
                if made or ty not in u.I.byty:
                    continue
                check(r, n, u, f, asg.of(x, root), u.I.byty[ty], 'the code that makes a %s' % ty)
        # locals: in the code of functions that differ from their contract (the contracts' own are looked at in the thorough tier)
        tab, ch = code_mods(s, n)
        tab = dict(tab)
        todo = [x for x in sorted(fns) if u.I.fns[x]['sn'] in u.anch and 'blocks' in u.I.fns[x] and (s.quick is False or u.I.fns[x]['sn'] in ch)]
        for x, (bad, err) in zip(todo, pool(lambda x: unset(s, n, x, tab), todo)):
            f = u.I.fns[x]
            if err:
                r.undecided.append('%s:%s: %s' % (n, f['sn'], err))
            elif bad:
                r.bad(n, f['sn'], f['file'], bad[0][0] or f['line'], bad[0][1])
            else:
                r.ok('%s:%s: no local without a value is used' % (n, f['sn']))
    return r


def unset(s, n, x, tab):
    """uses of locals that have no value, on the paths of a function"""
    from terms import ATOMS, isterm, show
    _, tr, err = summaries(s, n, None, tab)(x)
    if err:
        return None, err

    def has(t):
        if isterm(t):
            return any(ATOMS[i] == ('undef',) or ATOMS[i][0] in ('cmp', 'fcmp') and has(ATOMS[i][1:]) for i, _ in t[1])
        return isinstance(t, (tuple, list)) and any(has(y) for y in t)
    out = []
    for F, ev, kind, ret in walk(tr):
        for t in [(0, y) for y in list(F.itv) + list(F.neq)] + [(0, ((i, 1),)) for i in F.sub]:
            if has(t):
                out.append((None, 'a branch depends on a variable without a value: ' + show(t)[:160]))
        for e in ev:
            if e[0] in ('st', 'out', 'call', 'cop') and has(tuple(q for q in e[1:] if isinstance(q, tuple))):
                ln = next((q for q in reversed(e) if isinstance(q, int)), None)
                out.append((ln, 'a variable without a value is used in: %s %s' % (e[0], e[1] if isinstance(e[1], str) else '')))
        if kind == 'ret' and ret is not None and has(ret):
            out.append((None, 'a variable without a value is returned'))
    return sorted(set(out), key=str), None


def check(r, n, u, f, got, k, what):
    have, reads = got
    need = leaves(u, k)
    if have is None:
        return
    miss = [nm for off, z, nm in need if not set(range(off, off + z)) <= have]
    if miss:
        r.bad(n, f['sn'], f['file'], f['line'], '%s leaves %s without a value on some path' % (what, ', '.join(miss)))
        return
    for a, z, ln in reads:
        nm = next((m for off, y, m in need if off <= a < off + y), None)
        if nm:
            r.bad(n, f['sn'], f['file'], ln, '%s reads %s before it has a value' % (what, nm))
            return
    r.ok('%s:%s: %s sets all %d scalar members of %s' % (n, f['sn'], what, len(need), u.I.types[k]['n']))
