"""Comparison of two effect summaries: the contract's (S) and the code's (I).

Nothing here executes the code or hands paths to a solver: summaries are
compared by matching their events, in the abstract domain of terms.Facts.
The result is EQUAL, a list of differences, or UNKNOWN where the analysis
cannot tell.
"""
import itertools
import re
from terms import *
from interp import ALINFO

LISTK = ('lfront', 'lempty', 'lsize', 'lback')
LOOPK = ('n', 'prev', 'acc', 'chain', 'phi')


CONTAINER = re.compile(r'std::(?:__cxx11::)?(?:vector|set|map|multiset|multimap|list|deque|unordered_\w+|priority_queue|queue|stack|bitset|array)\b')


class Ren:
    """renaming of one side's atoms (loop tags, accumulators, locals)"""

    def __init__(s, tags=None, accs=None, als=None, over=None, news=None, vers=()):
        s.tags = tags or {}          # I tag -> S tag
        s.accs = accs or {}          # (I tag, kind, idx) -> term
        s.als = als or {}            # I alloca atom -> S alloca atom
        s.over = over or {}          # tag -> ('shift', k) | ('fresh', tag')
        s.news = news or {}
        s.vers = vers                # ((label, version), …): the next version is no other
        s.vd = {}
        for lab, v in vers:
            s.vd.setdefault(lab, []).append(v)
        s.memo = {}
        s.key = (tuple(sorted(s.tags.items())), tuple(sorted(s.accs.items())), tuple(sorted(s.over.items())), vers)

    def plus(s, tags=None, accs=None, over=None, vers=()):
        t, a, o = dict(s.tags), dict(s.accs), dict(s.over)
        t.update(tags or {})
        a.update(accs or {})
        o.update(over or {})
        return Ren(t, a, s.als, o, s.news, s.vers + tuple(x for x in vers if x not in s.vers))

    def __call__(s, x):
        if not x[1]:
            return x
        r = s.memo.get(x)
        if r is None:
            r = K(x[0])
            for i, c in x[1]:
                r = add(r, scale(s.atom(i), c))
            s.memo[x] = r
        return r

    def ctx(s, c):
        if isinstance(c, tuple) and c in s.tags:
            return s.tags[c]
        return c

    def atom(s, i):
        r = s.memo.get(i)
        if r is not None:
            return r
        t = ATOMS[i]
        k = t[0]
        r = None
        if k == 'al':
            j = s.als.get(i)
            r = A(j) if j is not None else A(i)
        elif k in LOOPK and isinstance(t[1], tuple):
            tag = t[1]
            ov = s.over.get(tag)
            nt = s.tags.get(tag, tag)
            if k == 'n':
                r = mk('n', nt) if ov is None else addk(mk('n', nt), ov[1]) if ov[0] == 'shift' else mk('n', ov[1])
            elif k in ('acc', 'chain', 'phi'):
                r = s.accs.get((tag, k, t[2]))
                if r is None:
                    # without a counterpart it stays what it is
                    r = A(i)
            else:
                e = s.base(tag)(t[2])
                if ov is not None and t[3] == 0 and (ov[0] == 'fresh' or len(ov) > 2 and t[2] in ov[2]):
                    r = e
                else:
                    r = mk('prev', nt, e, t[3])
        elif k == 'res':
            r = s.rn(('res', t[1], s.ctx(t[2]), t[3]))
        elif k == 'new':
            r = mk('new', s.ctx(t[1]), s.news.get((t[1], t[2]), t[2]))
        elif k == 'outp':
            r = mk(*(('outp', t[1], s.ctx(t[2])) + tuple(s(x) if isterm(x) else x for x in t[3:])))
        elif any(isinstance(x, tuple) for x in t):
            t2 = mapatom(t, s)
            if s.vd:
                lab = t2[1] if k == 'ld' else t2[1] + '#list' if k in LISTK else None
                if lab in s.vd:
                    d = sum(1 for v in s.vd[lab] if t2[3] > v)
                    if d:
                        t2 = t2[:3] + (t2[3] - d,) + t2[4:]
            r = A(i) if t2 == t else rebuild(t2)
        else:
            r = A(i)
        j = single(r)
        if j is not None and j != i and i in RNG and j not in RNG:
            RNG[j] = RNG[i]
        s.memo[i] = r
        return r

    def rn(s, t):
        return mk(*t)

    def base(s, tag):
        """the renaming without an override for this loop"""
        if tag not in s.over:
            return s
        k = ('base', tag)
        r = s.memo.get(k)
        if r is None:
            o = {a: b for a, b in s.over.items() if a != tag}
            r = s.memo[k] = Ren(s.tags, s.accs, s.als, o, s.news, s.vers)
        return r


class Diff:
    """one difference between contract and code"""
    __slots__ = ('kind', 'label', 'msg', 'sure', 'line', 'lines', 'fn', 'slot')

    def __init__(s, kind, label, msg, sure=True, line=None, sline=None, slot=None):
        s.kind, s.label, s.msg, s.sure, s.line = kind, label, msg, sure, line
        s.lines = sline
        s.slot = slot
        s.fn = None

    def __repr__(s):
        return '%s%s[%s] %s @%s (contract line %s)' % ('' if s.sure else '?', s.kind, s.label, s.msg, s.line, s.lines)


def weak(d):
    r = Diff(d.kind, d.label, d.msg, d.slot == 'skip', d.line, d.lines, d.slot)
    return r


NOREN = ((), (), (), ())
QUIET = frozenset(['#out', '#time'])


class Limit(Exception):
    pass


class Item:
    __slots__ = ('k', 'lab', 'path', 'v', 'ln', 'mods', 'refs', 'name', 'old', 'ls', 'rn', 'done', 'owner')


class Comparer:
    MAXALT = 600

    def __init__(s, tagI='I', ignore=None, noout=False):
        s.tagI = tagI
        s.ignore = ignore or (lambda lab: False)
        s.noout = noout              # leave out everything that only prints
        s.memo = {}
        s.mcache, s.rcache = {}, {}
        s.stat = {'pairs': 0, 'loops': 0, 'events': 0, 'leaves': 0}
        s.fuel = 400000
        s.lost = []
        s.kept = False               # a loop did keep its state elsewhere
        s.prom = 0                   # inside loops that may keep their state elsewhere
        s.forms = set()              # loops whose flags start differently: what is known of them is not related
        s.newstr = False             # a std::string of the code only
        s.lone = set()               # local objects of the contract without a counterpart
        s.skipmemo = {}
        s.strs = False               # does the contract look at the length of strings?
        s.known = set()              # what the conditions of the contract look at
        s.orph = set()               # contract loop variables without a counterpart
        s.cov = {}                   # paths -> were they ever taken together with one of the other side?

    # ------------------------------------------------------------ entry
    def functions(s, T, U):
        """T: contract traces, U: code traces -> list of Diff"""
        als = s.match_allocas(T, U)
        s.lone -= set(als.values())
        ren = Ren(als=als)
        idr = Ren()
        s.known = s.looksat(T)
        s.strs = any(ATOMS[i][0] == 'pure' and ATOMS[i][1] in ('strlen', 'strspn') for i in s.known)
        diffs = []
        for t in T:
            for u in U:
                diffs += s.pair(t, u, idr, ren, True)
        for t, side in [(t, 0) for t in T] + [(u, 1) for u in U]:
            s.cov.setdefault((side, id(t.events)), [False, t, side])
        diffs += s.lost
        if s.kept or s.newstr or any(CONTAINER.search(ALINFO.get(i, ('', '', 0))[1] or '') for i in s.lone):
            hard = s.newstr or any(CONTAINER.search(ALINFO.get(i, ('', '', 0))[1] or '') for i in s.lone)
            for d in diffs:
                if hard or d.slot != 'skip':
                    d.sure = False
        return dedupe(diffs)

    def uncovered(s):
        """paths that no path of the other side goes with: nothing was compared on them"""
        return [(side, t.kind, [e[1].line if e[0] == 'loop' else e[1] for e in t.events if e[0] != 'endloop']) for c, t, side in s.cov.values() if not c and s.feas(t.facts, s.altlist(t, Ren(), side), ())]

    def foreign(s, t):
        """does term t contain something that the other side does not know?"""
        tagI = s.tagI
        for i in atoms_in(t):
            a = ATOMS[i]
            k = a[0]
            if i in s.orph:
                return True
            if k in LOOPK and isinstance(a[1], tuple) and a[1][0] == tagI:
                return True
            if k == 'al' and a[1] == tagI:
                return True
            if k in ('opaque', 'cap', 'bit0'):
                return True
            if k in ('res', 'outp') and isinstance(a[2], tuple) and a[2][0] == tagI:
                return True
            if k == 'new' and isinstance(a[1], tuple) and a[1][0] == tagI:
                return True
        return False

    def match_allocas(s, T, U):
        def collect(tr, acc, seen):
            for e in tr.events:
                if e[0] == 'loop':
                    if e[1].uid not in seen:
                        seen.add(e[1].uid)
                        for outs in e[1].parts.values():
                            for o in outs:
                                collect(o.st, acc, seen)
                    continue
                terms(e, acc)
            for i, v in tr.facts.sub.items():
                for j in atoms_in(A(i)) | atoms_in(v):
                    if ATOMS[j][0] == 'al':
                        acc.setdefault(j, len(acc))
            for d in (tr.facts.itv, tr.facts.neq):
                for f in d:
                    for j in atoms_in((0, f)):
                        if ATOMS[j][0] == 'al':
                            acc.setdefault(j, len(acc))

        def terms(x, acc):
            if isterm(x):
                for j in sorted(atoms_in(x)):
                    if ATOMS[j][0] == 'al':
                        acc.setdefault(j, len(acc))
            elif isinstance(x, tuple):
                for y in x:
                    terms(y, acc)
        a, b = {}, {}
        sa, sb = set(), set()
        for t in T:
            collect(t, a, sa)
        for t in U:
            collect(t, b, sb)
        r = {}
        str = lambda x: sum(bool(re.search(r'::basic_string\b', ALINFO.get(j, ('', '', 0))[1] or '')) for j in x)
        s.newstr = str(b) > str(a)
        s.lone = set(a)
        left = sorted(a, key=lambda j: ALINFO.get(j, ('', '', 0))[2])
        rest = []
        for j in sorted(b, key=lambda j: ALINFO.get(j, ('', '', 0))[2]):
            n, ty, _ = ALINFO.get(j, ('', '', 0))
            c = [x for x in left if ALINFO.get(x, ('', '', 0))[:2] == (n, ty) and n]
            if c:
                r[j] = c[0]
                left.remove(c[0])
            else:
                rest.append(j)
        for j in rest:
            ty = ALINFO.get(j, ('', '', 0))[1]
            c = [x for x in left if ALINFO.get(x, ('', '', 0))[1] == ty]
            if c:
                r[j] = c[0]
                left.remove(c[0])
        return r

    # ------------------------------------------------------------ pairs of paths
    def merged(s, tf, uf, rs, ru, extra=()):
        k = (id(tf), id(uf), rs.key, ru.key) + tuple((id(f), r.key) for f, r in extra)
        hit = s.mcache.get(k)
        if hit is not None:
            return hit[0] and hit[0].copy()
        F = None
        if not s.clash(s.ranges(tf, rs, 0), s.ranges(uf, ru, 1)):
            try:
                F = tf.subst(rs) if rs.key != NOREN else tf.copy()
                F.merge(uf, ru)
                for f, rr in extra:
                    F.merge(f, rr)
            except Bad:
                F = None
        if F is not None and s.strs and s.absurd(F):
            F = None
        if len(s.mcache) > 30000:
            s.mcache.clear()
        s.mcache[k] = (F, tf, uf, extra)        # keeps them alive: their ids are the key
        return F and F.copy()

    def ranges(s, f, ren, side):
        """linear form -> (lo, hi), of one side's facts as they are renamed: what contradicts at sight"""
        k = (id(f), side, ren.key)
        hit = s.rcache.get(k)
        if hit is not None:
            return hit[0]
        r = {}

        def put(t, lo, hi):
            if not t[1]:
                return
            g, c, z = form(t)
            # t = z*g + c in [lo, hi]
            if z < 0:
                lo, hi = -hi, -lo
                c, z = -c, -z
            lo = lo if lo == -INF else -((c - lo) // z)
            hi = hi if hi == INF else (hi - c) // z
            o = r.get(g)
            if o:
                lo, hi = max(o[0], lo), min(o[1], hi)
            r[g] = (lo, hi)
        for i, v in f.sub.items():
            a, b = ren(A(i)), ren(v)
            if a is not None and b is not None:
                put(sub(a, b), 0, 0)
        for g, (lo, hi) in f.itv.items():
            a = ren((0, g))
            if a is not None:
                put(a, lo, hi)
        s.rcache[k] = (r, f)
        return r

    def absurd(s, F):
        """do these facts contradict what is known of the beginning of a string?"""
        at = set(F.sub)
        for d in (F.itv, F.neq):
            for f in d:
                at |= atoms_in((0, f))
        for v in F.sub.values():
            at |= atoms_in(v)
        fns, chars, none = [], {}, set()
        for i in at:
            t = ATOMS[i]
            if t[0] == 'pure' and t[1] in ('strlen', 'strspn', 'size', 'length', 'empty'):
                j = single(t[2][0])
                p = ATOMS[j][1] if j is not None and ATOMS[j][0] == 'mem' else None
                if p is None:
                    continue
                if t[1] in ('strlen', 'strspn'):
                    fns.append((i, t, p))
                elif F.norm(A(i)) == K(t[1] == 'empty'):
                    none.add(p)
            elif t[0] == 'ld' and t[1] == 'char[]' and len(t[2]) == 2 and isk(t[2][1]):
                chars.setdefault(t[2][0], {})[t[2][1][0]] = i
        G = None
        for p, ch in chars.items():
            j = single(p)
            if j is not None and ATOMS[j][0] == 'sbuf' and ATOMS[j][1] in none and 0 in ch and F.decide('eq', A(ch[0])) is False:
                return True
        for i, t, p in fns:
            j = single(p)
            ch = chars.get(p, {})
            if j is not None and ATOMS[j][0] == 'sbuf' and ATOMS[j][1] in none:
                ch = {0: K(0)}
            val = lambda k: None if k not in ch else ch[k] if isterm(ch[k]) else F.norm(A(ch[k]))
            acc = None
            if t[1] == 'strspn':
                acc = strconst(t[2][1])
                if acc is None:
                    continue
                acc = {ord(c) if isinstance(c, str) else c for c in acc}
            k, low, end = 0, 0, None
            while end is None and val(k) is not None:
                v = val(k)
                if isk(v):
                    c = v[0] & 255
                    if c == 0 or acc is not None and c not in acc:
                        end = k
                elif acc is not None and all(F.decide('eq', addk(v, -c)) is False for c in acc):
                    end = k
                elif acc is not None or F.decide('eq', v) is not False:
                    break
                if end is None:
                    k += 1
                    low = k
            G = G or F.copy()
            try:
                G.add_le(sub(K(low), A(i)))
                if end is not None:
                    G.add_eq(addk(A(i), -end))
            except Bad:
                return True
        return False

    @staticmethod
    def clash(a, b):
        if len(b) < len(a):
            a, b = b, a
        for g, (lo, hi) in a.items():
            o = b.get(g)
            if o is not None and (lo > o[1] or hi < o[0]):
                return True
        return False

    def ways(s, t, u, rs, ru):
        """the ways in which two paths can be taken together: (renamings, facts, exits, diffs of their loops)"""
        s.fuel -= 1
        if s.fuel < 0:
            raise Limit()
        F = s.merged(t.facts, u.facts, rs, ru)
        if F is None:
            return
        a = [e for e in t.events if e[0] == 'loop' and not s.onlyout(e)]
        b = [e for e in u.events if e[0] == 'loop' and not s.onlyout(e)]
        if not a and not b:
            yield rs, ru, F, (), [], ()
            return
        yield from s.ways2(t, u, a, b, 0, rs, ru, F, (), [], (), (), True)

    def onlyout(s, e):
        if not s.noout or not {'#out'} <= loopmods(e[1]) <= QUIET:
            return False
        return len({o.blk for outs in e[1].parts.values() for o in outs if o.kind != 'back'}) == 1

    def ways2(s, t, u, a, b, k, rs, ru, F, exits, diffs, extra, ins, clean):
        if k == len(a) or k == len(b):
            if len(a) != len(b) and not (clean and not diffs and s.plain(t, u, a, b)):
                if diffs:
                    diffs = [weak(d) for d in diffs]
                diffs = diffs + [Diff('loops', '*', 'the loops of the two versions do not correspond (%s / %s)' % (
                    [e[1].line for e in a], [e[1].line for e in b]), False, b[-1][1].line if b else None, a[-1][1].line if a else None)]
            yield rs, ru, F, exits, diffs, ins
            return
        ea, eb = a[k], b[k]
        va, vb = s.versions(ea[1], eb[1])
        if va or vb:
            rs, ru = rs.plus(vers=va), ru.plus(vers=vb)
        r = s.loop(ea[1], eb[1], rs, ru)
        groups = {}
        for (pa, pb, mode) in r['exits']:
            if pa in ea[2] and pb in eb[2]:
                groups.setdefault(mode if mode[0] != 'same' else ('same',), set()).add((pa, pb))
        ru1 = ru.plus({eb[1].tag: ea[1].tag}, r['accs'])
        bad = r['unknown'] or bool(r['diffs'])
        if not groups and bad and k + 1 <= max(len(a), len(b)):
            # nothing can be said about where the two leave the loop
            if r['unknown']:
                yield rs, ru1, F, exits, diffs + [Diff('loops', '*', 'exits of the loop could not be related', False, eb[1].line, ea[1].line)], ins
            else:
                s.lost += r['diffs'] if len(a) == len(b) else [weak(d) for d in r['diffs']]
            return
        for mode, ps in groups.items():
            rs2, ru2, ex2, ins2 = rs, ru1, extra, ins
            if mode[0] == 'silI':
                ru2 = ru1.plus(over={eb[1].tag: ('fresh', ('X',) + eb[1].tag)})
                ex2 = extra + ((mode[1].st.facts, ru2.base(eb[1].tag)),)
                ins2 = ins + (('I', eb[1], mode[1], ru2.base(eb[1].tag)),)
            elif mode[0] == 'silS':
                rs2 = rs.plus(over={ea[1].tag: ('fresh', ('X',) + ea[1].tag)})
                ex2 = extra + ((mode[1].st.facts, rs2.base(ea[1].tag)),)
                ins2 = ins + (('S', ea[1], mode[1], rs2.base(ea[1].tag)),)
            F2 = s.merged(t.facts, u.facts, rs2, ru2, ex2)
            if F2 is None:
                continue
            yield from s.ways2(t, u, a, b, k + 1, rs2, ru2, F2, exits + ((ea[1].uid, eb[1].uid, ps),), diffs + [d for d in r['diffs']], ex2, ins2,
                               clean and r.get('full', False) and not r['diffs'] and not r['unknown'] and len(ea[1].parts) == len(eb[1].parts))

    def plain(s, t, u, a, b):
        """one path ends where the other goes through more loops: is there no other way in which it could do the same?"""
        x, y = (t, u) if len(a) < len(b) else (u, t)
        names = {e[1] for e in y.events if e[0] == 'call'}
        return all(e[0] != 'call' or e[1] in names for e in x.events)

    def pair(s, t, u, rs, ru, top, kept=True):
        """t, u: Trace or State+kind; differences between two paths, [] when they cannot be taken together"""
        res = []
        for rs2, ru2, F, exits, ldiffs, ins in s.ways(t, u, rs, ru):
            s.stat['pairs'] += 1
            alts = s.altlist(t, rs2, 0) + s.altlist(u, ru2, 1) + s.insalts(ins)
            if any(d.kind == 'loops' for d in ldiffs) and not s.feas(F, alts, exits):
                continue
            # what goes on in the loops is compared there; an UNKNOWN loop taints what follows
            sure = not any(not d.sure for d in ldiffs) and not (s.forms and any(e[0] == 'loop' and e[1].tag in s.forms for e in t.events))
            if any(e[0] == 'loop' for x in ins for e in x[2].st.events):
                sure = False
            skip = not ins and s.skips(t, u, ru2, kept)
            cmpf = lambda G: s.effects(t, u, rs2, ru2, G, top, sure, ins, skip)
            cs = [s.cov.setdefault((side, id(x.events)), [False, x, side]) for side, x in ((0, t), (1, u))]
            if not all(c[0] for c in cs) and s.feas(F, alts, exits):
                for c in cs:
                    c[0] = True
            d = cmpf(F)
            if d:
                d = s.refine(F, alts, cmpf, [s.MAXALT], exits)
            res += ldiffs + d
        return res

    def altlist(s, t, ren, side):
        return [(c, ren, side) for c in t.alts]

    def insalts(s, ins):
        """what was joined into the last round of a loop that the other side has left already"""
        return [(tuple((f, a, ()) for f, a, _ in c), ren, 2) for _, _, o, ren in ins for c in o.st.alts]

    def feas(s, F, alts, exits):
        return bool(s.refine(F, alts, lambda G: ['x'], [s.MAXALT], exits, True)) if alts else True

    def feasible(s, t, u, rs, ru):
        """can both paths be taken together, whatever was joined into them?"""
        for rs2, ru2, F, exits, ldiffs, ins in s.ways(t, u, rs, ru):
            if s.feas(F, s.altlist(t, rs2, 0) + s.altlist(u, ru2, 1) + s.insalts(ins), exits):
                return True
        return False

    def refine(s, F, alts, cmpf, fuel, exits=(), first=False):
        """differences under a satisfiable choice of the joined alternatives"""
        d = cmpf(F)
        if not d or s.strs and s.absurd(F):
            return []
        if not alts:
            s.stat['leaves'] += 1
            return d
        (clause, ren, side), rest = alts[0], alts[1:]
        res = []
        for f, subalts, outs in clause:
            fuel[0] -= 1
            if fuel[0] < 0:
                return res or [Diff('limit', '*', 'too many joined paths', False)]
            ex = exits
            if outs and exits and side < 2:
                o = dict(outs)
                ex = tuple((e[0], e[1], {x for x in e[2] if x[side] in o[e[side]]}) if e[side] in o else e for e in exits)
                if any(not e[2] for e in ex):
                    continue
            G = F.copy()
            try:
                G.merge(f, ren)
            except Bad:
                continue
            r = s.refine(G, [(c, ren, side) for c in subalts] + rest, cmpf, fuel, ex, first)
            if r:
                if first or any(x.sure for x in r):
                    return r
                res = res or r
        return res

    # ------------------------------------------------------------ loops
    def loop(s, P, Q, rs, ru):
        key = (P.tag, Q.tag, rs.key, ru.key, s.prom > 0)
        r = s.memo.get(key)
        if r is not None:
            return r
        s.memo[key] = {'diffs': [], 'exits': [], 'accs': {}, 'unknown': True, 'orph': set()}
        s.stat['loops'] += 1
        pa = [(v, k) for v, k in P.mode.items() if k[0] == 'acc']
        qa = [(v, k) for v, k in Q.mode.items() if k[0] == 'acc']
        best = None
        cost = tries = 0
        keep = set(s.orph)
        prom = s.promoted(P, Q) or s.promoted(Q, P)
        s.prom += prom
        for mp in s.accmaps(P, Q, pa, qa, rs, ru):
            orph = {atom(l[1], P.tag, l[2]) for w, l in pa} - {x for m in mp.values() for x in atoms_in(m[0]) if ATOMS[x][1] == P.tag}
            s.orph = keep | orph
            left = s.fuel
            r = s.bisim(P, Q, rs, ru, mp)
            cost = max(cost, left - s.fuel)
            tries += 1
            r['orph'] = orph
            r['full'] = len(mp) == len(pa) == len(qa)
            s.judge(r)
            if any(d.sure for d in r['diffs']) and not any(d.slot == 'more' for d in r['diffs']) and \
                    not (r['step'] and not any(d.kind in ('exit', 'loops') for d in r['diffs']) and all(e[2] == ('same',) for e in r['exits'])) and \
                    s.idle(P, rs) != s.idle(Q, ru):
                # one of them has an extra first round, in which nothing is done
                r['diffs'] = [weak(d) for d in r['diffs']]
                r['unknown'] = True
            if s.prom and r['diffs']:
                s.kept = True
                r['diffs'] = [weak(d) for d in r['diffs']]
            if not r['diffs']:
                best = r
                break
            rank = (len(orph), len(dedupe(r['diffs'])))
            if best is None or rank < best[0]:
                best = (rank, r)
            if r['full'] and not r['unknown'] and not any(d.kind in ('init', 'update') for d in r['diffs']) and not s.twins(P) and not s.twins(Q):
                # the variables go on alike, and in no other pairing do they
                break
            if tries >= (60 if cost < 2000 else 12 if cost < 10000 else 3):
                break
        s.prom -= prom
        if isinstance(best, tuple):
            best = best[1]
        s.orph = keep | best['orph']
        s.memo[key] = best
        return best

    def twins(s, L):
        """may two variables of a loop always be equal, or a constant apart?"""
        vs = [(v, k, mk(k[1], L.tag, k[2])) for v, k in L.mode.items() if k[0] == 'acc']
        for n, (v, k, a) in enumerate(vs):
            for w, l, b in vs[:n]:
                if k[1] != l[1]:
                    continue
                off = sub(L.phinit[v], L.phinit[w])
                if not isk(off) or off != K(0) and k[1] != 'acc':
                    continue
                one = Ren(accs={(L.tag, k[1], k[2]): add(b, off)})
                if all(o.kind != 'back' or v not in o.vals or w not in o.vals or
                       o.st.facts.norm(sub(sub(one(o.vals[v]), one(o.vals[w])), off)) == K(0) for outs in L.parts.values() for o in outs):
                    return True
        return False

    def versions(s, P, Q):
        """what only one of two loops changes from round to round: where the two go on together
        both memories are the same, so that the one has not changed it either"""
        return (tuple(sorted((l, P.ver0[l]) for l in P.mods if l not in Q.mods)),
                tuple(sorted((l, Q.ver0[l]) for l in Q.mods if l not in P.mods)))

    def promoted(s, P, Q):
        """may Q keep in a variable what P keeps in memory?"""
        n = lambda ls: sum(1 for k in ls.mode.values() if k[0] not in ('inv', 'iv'))
        return n(Q) > n(P) and any(l not in Q.mods for l in P.mods)

    def judge(s, r):
        """loop variables that start or go on differently: a defect, or kept in another form?"""
        ks = {d.kind for d in r['diffs']}
        if any(not d.sure and d.kind in ('loops', 'exit', 'limit') for d in r['diffs']):
            # the rounds of the loop may be laid out differently
            r['diffs'] = [weak(d) for d in r['diffs']]
        if not ks & {'init', 'update'}:
            return
        vs = {d.slot for d in r['diffs'] if d.kind in ('init', 'update')}
        if r['full'] and 'init' not in ks and vs <= r['firm']:
            # the same variables, which go on alike elsewhere
            return
        if len(ks) > 1 or len(vs) > 1 and ks != {'update'}:
            r['diffs'] = [weak(d) for d in r['diffs']]
            r['unknown'] = True

    def accmaps(s, P, Q, pa, qa, rs, ru):
        """injective maps from the code's loop variables to the contract's; counters may be a constant apart"""
        cand = []
        kinds = lambda xs: sorted(k[1] for _, k in xs)
        full = kinds(pa) == kinds(qa)
        for v, k in qa:
            c, c2 = [], []
            for w, l in pa:
                if k[1] != l[1] or k[1] == 'acc' and k[3] != l[3]:
                    continue
                (c if rs(P.phinit[w]) == ru(Q.phinit[v]) else c2).append((w, l))
            c.sort(key=lambda x: x[1][2] != k[2])
            c2.sort(key=lambda x: x[1][2] != k[2])
            cand.append(c + c2 + [None] if not full or not c + c2 else c + c2)
        if not qa:
            yield {}
            return
        n = 0
        for combo in itertools.product(*cand):
            used = [x[0] for x in combo if x is not None]
            if len(set(used)) != len(used):
                continue
            n += 1
            if n > 60:
                return
            m = {}
            for (v, k), x in zip(qa, combo):
                if x is not None:
                    off = K(0)
                    if k[1] == 'acc':
                        off = sub(ru(Q.phinit[v]), rs(P.phinit[x[0]]))
                    m[(Q.tag, k[1], k[2])] = (add(mk(x[1][1], P.tag, x[1][2]), off), v, x[0], off)
            yield m

    def bisim(s, P, Q, rs, ru, mp):
        accs = {k: v[0] for k, v in mp.items()}
        ru2 = ru.plus({Q.tag: P.tag}, accs)
        res = {'diffs': [], 'exits': [], 'accs': accs, 'unknown': False, 'firm': set(), 'step': False}
        done = set()
        work = [(P.init, Q.init)]
        if sorted(rs(v) for _, v in P.init) != sorted(ru(v) for _, v in Q.init) and \
                any(not isk(v) for L in (P, Q) for k in L.parts for _, v in k):
            s.forms.add(P.tag)
        for k, (_, v, w, off) in mp.items():
            if rs(P.phinit[w]) != sub(ru(Q.phinit[v]), off):
                d = sub(rs(P.phinit[w]), ru(Q.phinit[v]))
                res['diffs'].append(Diff('init', '*', 'a variable of the loop starts with %s, should be %s' % (show(ru(Q.phinit[v])), show(rs(P.phinit[w]))),
                                         not s.foreign(d), Q.line, P.line, k))
        while work:
            p, q = work.pop()
            if (p, q) in done:
                continue
            done.add((p, q))
            for ks, o in enumerate(P.parts[p]):
                for ki, x in enumerate(Q.parts[q]):
                    s.fuel -= 1
                    if s.fuel < 0:
                        raise Limit()
                    T, U = OutT(o), OutT(x)
                    if s.merged(T.facts, U.facts, rs, ru2) is None:
                        continue
                    bo, bx = o.kind == 'back', x.kind == 'back'
                    if not bo and not bx:
                        res['exits'].append(((p, ks), (q, ki), ('same',)))
                        continue
                    if bo and bx:
                        for y, side in ((T, 0), (U, 1)):
                            s.cov.setdefault((side, id(y.events)), [False, y, side])
                        if (T.alts or U.alts) and [rs(v) for _, v in o.key] != [ru2(v) for _, v in x.key] and not s.feasible(T, U, rs, ru2):
                            continue
                        d = s.pair(T, U, rs, ru2, False, s.unmoved(Q, x))
                        if not d and not res['step']:
                            # the same is done for the same element: neither is a round behind
                            res['step'] = s.mentions(tuple(T.events), P) and s.mentions(tuple(U.events), Q)
                        d += s.accupd(P, Q, o, x, rs, ru2, mp, T, U, res['firm'], s.unmoved(Q, x))
                        res['diffs'] += d
                        work.append((o.key, x.key))
                        continue
                    # one stops, the other goes on
                    if not s.feasible(T, U, rs, ru2):
                        continue
                    if bx and x.key in Q.silent:
                        for kk in s.silreach(Q, x.key):
                            for k2, y in enumerate(Q.parts[kk]):
                                if y.kind != 'back':
                                    res['exits'].append(((p, ks), (kk, k2), ('silI', x)))
                        continue
                    if bo and o.key in P.silent:
                        for kk in s.silreach(P, o.key):
                            for k2, y in enumerate(P.parts[kk]):
                                if y.kind != 'back':
                                    res['exits'].append(((kk, k2), (q, ki), ('silS', o)))
                        continue
                    L, y, rn = (P, o, rs) if bo else (Q, x, ru2)
                    if not s.acts(y, rn, L, T, U, rs, ru2):
                        # a last round in which nothing is done
                        for k2, z in enumerate(L.parts[y.key]):
                            if z.kind != 'back':
                                res['exits'].append(((y.key, k2), (q, ki), ('silS', o)) if bo else ((p, ks), (y.key, k2), ('silI', x)))
                        continue
                    out = s.outside(T, U, P, rs, ru2)
                    more = not out and s.goeson(y, rn, L, T, U, rs, ru2)
                    if not out and y.moved and not any(e[0] != 'endloop' for e in y.st.events):
                        # only variables change: it matters where they can take other values than those of the code
                        out = bx or not s.changes(y, rn, L, T, U, rs, ru2)
                    res['diffs'].append(Diff('exit', '*', 'the loop %s where it should %s' % (('stops', 'go on') if bo else ('goes on', 'stop')) +
                                             (' (and there is more to do)' if more else ''),
                                             not out, Q.line, P.line, 'more' if more else None))
        return res

    def unmoved(s, L, o):
        """no variable of the loop is changed in this round"""
        return all(k[0] != 'acc' or v in o.vals and o.vals[v] == mk(k[1], L.tag, k[2]) for v, k in L.mode.items())

    def looksat(s, T):
        """atoms in the conditions of these paths and of the rounds of their loops"""
        at, seen = set(), set()

        def facts(fs):
            for f in [(0, f) for f in fs.itv] + [(0, f) for f in fs.neq] + [sub(A(i), v) for i, v in fs.sub.items()]:
                at.update(atoms_in(f))

        def clause(c):
            for f, subalts, _ in c:
                facts(f)
                for d in subalts:
                    clause(d)

        def path(t):
            facts(t.facts)
            for c in t.alts:
                clause(c)
            for e in t.events:
                if e[0] == 'loop' and e[1].uid not in seen:
                    seen.add(e[1].uid)
                    for outs in e[1].parts.values():
                        for o in outs:
                            path(o.st)
        for t in T:
            path(t)
        return at

    def skips(s, t, u, ru, vals):
        """the code leaves out the loops of this path, on conditions that the contract looks at too, and keeps nothing of it for later"""
        if not any(e[0] == 'loop' for e in t.events) or any(e[0] == 'loop' for e in u.events) or not vals:
            return False
        k = (id(u.facts), ru.key)
        if k not in s.skipmemo:
            at = set()
            for i in s.looksat([u]):
                x = ru(A(i))
                if s.foreign(x):
                    at = {-1}
                    break
                at |= atoms_in(x)
            s.skipmemo[k] = at <= s.known, u
        return s.skipmemo[k][0]

    def mentions(s, x, L):
        if isterm(x):
            return any(ATOMS[i][0] in LOOPK + ('it',) and ATOMS[i][1] == L.tag for i in atoms_in(x))
        return isinstance(x, tuple) and (not x or x[0] != 'endloop') and any(s.mentions(y, L) for y in x)

    def acts(s, o, ren, L, T, U, rs, ru):
        """does the round that only one of the loops makes do anything?"""
        F = s.merged(T.facts, U.facts, rs, ru)
        if F is None or s.active(o.st.events, ren, F):
            return True
        if o.moved:
            # a variable changes in the round
            return True
        # with nothing done in it, what matters is whether the loop can only end with the next one
        nx = {(L.tag, k[1], k[2]): ren(o.vals[v]) for v, k in L.mode.items() if k[0] == 'acc' and v in o.vals}
        r = ren.plus(None, nx, {L.tag: ('shift', 1)})
        for y in L.parts.get(o.key, ()):
            if y.kind != 'back' and not any(e[0] != 'endloop' for e in y.st.events):
                continue
            if s.merged(T.facts, U.facts, rs, ru, ((y.st.facts, r),)) is not None:
                return True
        return False

    def goeson(s, o, ren, L, T, U, rs, ru):
        """something was done in the round, and after it another one can do something: not just a loop laid out differently"""
        if not any(e[0] != 'endloop' for e in o.st.events) or any(e[0] == 'loop' for X in (T, U) for e in X.events):
            return False
        nx = {(L.tag, k[1], k[2]): ren(o.vals[v]) for v, k in L.mode.items() if k[0] == 'acc' and v in o.vals}
        r = ren.plus(None, nx, {L.tag: ('shift', 1)})
        for y in L.parts.get(o.key, ()):
            # what is known of the memory does not carry over to the next round
            ev = [e for e in y.st.events if e[0] != 'endloop']
            if not ev or any(e[0] == 'loop' for e in ev):
                continue
            fs = y.st.facts
            at = s.seen(y.st)
            if any(s.changing(ATOMS[i], L, nx) for i in at):
                continue
            F = s.merged(T.facts, U.facts, rs, ru, ((fs, r),))
            if F is not None and s.feas(F, s.altlist(T, rs, 0) + s.altlist(U, ru, 1) + s.altlist(y.st, r, 2), ()):
                return True
        return False

    def changes(s, o, ren, L, T, U, rs, ru):
        """can a variable of the loop change again in the round after this one?"""
        if any(e[0] == 'loop' for X in (T, U) for e in X.events):
            return False
        nx = {(L.tag, k[1], k[2]): ren(o.vals[v]) for v, k in L.mode.items() if k[0] == 'acc' and v in o.vals}
        now = dict(o.key)
        new = frozenset(ATOMS[a][2] for v in o.moved if v in now for a in atoms_in(now[v]) if ATOMS[a][0] == 'prev' and ATOMS[a][1] == L.tag)
        r = ren.plus(None, nx, {L.tag: ('shift', 1, new)})
        for y in L.parts.get(o.key, ()):
            if not y.moved or any(e[0] == 'loop' for e in y.st.events):
                continue
            if any(s.changing(ATOMS[i], L, nx) and not (ATOMS[i][0] == 'prev' and ATOMS[i][3] == 0) for i in s.seen(y.st)):
                continue
            F = s.merged(T.facts, U.facts, rs, ru, ((y.st.facts, r),))
            if F is not None and s.feas(F, s.altlist(T, rs, 0) + s.altlist(U, ru, 1) + s.altlist(y.st, r, 2), ()):
                return True
        return False

    def seen(s, st):
        """atoms in the conditions of a path"""
        at = set()
        w, cs = [st.facts], list(st.alts)
        while cs:
            for f, sub_, _ in cs.pop():
                w.append(f)
                cs += sub_
        for g in w:
            for f in [(0, f) for f in g.itv] + [(0, f) for f in g.neq] + [sub(A(i), v) for i, v in g.sub.items()]:
                at |= atoms_in(f)
        return at

    def changing(s, t, L, nx):
        k = t[0]
        if k == 'ld' or k in LISTK:
            lab = t[1] if k == 'ld' else t[1] + '#list'
            return lab in L.mods and t[3] > L.ver0.get(lab, 0)
        if k in LOOPK:
            return k != 'n' and (t[1], k, t[2]) not in nx
        return k in ('res', 'outp')

    def idle(s, L, ren):
        """is nothing done in the first round?"""
        tag = ('Z',) + L.tag
        r = ren.plus(over={L.tag: ('fresh', tag)})
        F = None
        quiet = False
        for o in L.parts[L.init]:
            if o.kind != 'back':
                continue
            G = o.st.facts.__class__()
            try:
                G.add_eq(mk('n', tag))
                G.merge(o.st.facts, r)
            except Bad:
                continue
            if s.active(o.st.events, r, G):
                return False
            quiet = True
        return quiet

    def active(s, events, ren, F):
        for e in events:
            if e[0] == 'endloop':
                continue
            if e[0] != 'loop':
                return True
            ls = e[1]
            if not loopmods(ls) and not s.exitevents(ls):
                continue
            tag = ('Z',) + ls.tag
            r = ren.plus(over={ls.tag: ('fresh', tag)})
            for o in ls.parts[ls.init]:
                if o.kind != 'back' and all(x[0] == 'endloop' for x in o.st.events):
                    continue
                G = F.copy()
                try:
                    G.add_eq(mk('n', tag))
                    G.merge(o.st.facts, r)
                except Bad:
                    continue
                if s.active(o.st.events, r, G):
                    return True
                if o.kind == 'back' and o.key != ls.init:
                    return True
        return False

    def exitevents(s, ls):
        return any(o.kind != 'back' and any(x[0] != 'endloop' for x in o.st.events) for outs in ls.parts.values() for o in outs)

    def outside(s, T, U, P, rs, ru):
        """do the conditions for this round relate the variables of the loop to what only one side knows?"""
        for X, rn in ((T, rs), (U, ru)):
            F = X.facts
            own = {e[1].tag for e in X.events if e[0] == 'loop'}
            for fs in ([(0, f) for f in F.itv], [(0, f) for f in F.neq], [sub(A(i), v) for i, v in F.sub.items()]):
                for f in fs:
                    x = rn(f)
                    at = atoms_in(x)
                    if any(ATOMS[i][0] in LOOPK and ATOMS[i][1] in own for i in at):
                        continue        # of an inner loop of this very round
                    if (s.foreign(x) or at & s.lone) and any(ATOMS[i][0] in LOOPK + ('it',) and ATOMS[i][1] == P.tag for i in at):
                        return True
        return False

    def silreach(s, P, key):
        r, w = set(), [key]
        while w:
            k = w.pop()
            if k in r:
                continue
            r.add(k)
            for o in P.parts[k]:
                if o.kind == 'back':
                    w.append(o.key)
        return r

    def accupd(s, P, Q, o, x, rs, ru, mp, T, U, firm, kept):
        res = []
        if not mp:
            return res
        for rs2, ru2, F, exits, _, ins in s.ways(T, U, rs, ru):
            skip = not ins and s.skips(T, U, ru2, kept)

            def cmpf(G):
                d = []
                for k, (t, v, w, off) in mp.items():
                    a, b = G.norm(add(rs2(o.vals[w]), off)), G.norm(ru2(x.vals[v]))
                    if a == b and a != G.norm(t):
                        firm.add(k)
                    if not s.eqval(a, b, G):
                        d.append(Diff('update', '*', 'a loop variable becomes %s, should be %s' % (show(b), show(a)), not s.foreign(sub(a, b)), Q.line, P.line,
                                      'skip' if skip and not s.foreign(sub(a, b)) and b == G.norm(t) else k))
                return d
            if cmpf(F):
                res += s.refine(F, s.altlist(T, rs2, 0) + s.altlist(U, ru2, 1), cmpf, [s.MAXALT], exits)
        return res

    # ------------------------------------------------------------ effects of one path
    def items(s, tr, ren, F, side, ins=()):
        r = []
        evs = [(e, ren) for e in tr.events]
        for sd, ls, o, rn in ins:
            if sd == side:
                # the round that the other side made part of leaving the loop
                k = [j for j, (e, _) in enumerate(evs) if e[0] == 'loop' and e[1] is ls]
                if k:
                    evs[k[-1] + 1:k[-1] + 1] = [(e, rn) for e in o.st.events]
        for e, ren in evs:
            it = Item()
            it.done = False
            it.old = None
            it.ls = None
            it.rn = ren
            k = e[0]
            if k == 'endloop':
                continue
            it.k = k
            if k == 'st':
                if s.ignore(e[1]):
                    continue
                it.lab, it.path, it.v, it.ln = e[1], tuple(F.norm(ren(x)) for x in e[2]), F.norm(ren(e[3])), e[4]
                it.old = None if e[5] is None else F.norm(ren(e[5]))
                it.mods, it.refs = frozenset([it.lab]), frozenset()
                it.name = 'store'
            elif k == 'cop':
                it.lab, it.path, it.v, it.ln = e[2], tuple(F.norm(ren(x)) for x in e[3]), tuple(F.norm(ren(x)) for x in e[4]), e[6]
                it.mods, it.refs = frozenset(e[5]), frozenset(e[5])
                it.name = e[1]
            elif k == 'call':
                it.name, it.v, it.ln = e[1], tuple(F.norm(ren(x)) for x in e[2]), e[6]
                it.lab, it.path = e[1], ()
                it.mods, it.refs = e[4], e[5]
                it.old = None if e[3] is None else F.norm(ren(e[3]))
                if it.name == '_M_check':
                    # (std::bitset::test: the bits asked for are those of a domain, C09)
                    continue
                if it.name == 'delete':
                    j = single(it.v[0])
                    if j is None or ATOMS[j][0] == 'new' or it.v[0] == ZERO:
                        continue    # what the function made itself: no one else has it
            elif k == 'out':
                it.name, it.lab, it.path, it.ln = 'out', '#out', (F.norm(ren(e[1])),), e[3]
                it.v = tuple(tuple(F.norm(ren(y)) if isterm(y) else y for y in p) for p in e[2])
                it.mods, it.refs = frozenset(['#out']), frozenset()
            elif k == 'loop':
                if s.onlyout(e):
                    continue
                it.ls = e[1]
                it.name, it.lab, it.path, it.v, it.ln = 'loop', 'loop', (), (), e[1].line
                it.mods, it.refs = loopmods(e[1]), e[1].refs
            if s.noout and it.k != 'loop' and it.k in ('out', 'call') and it.mods <= QUIET:
                continue
            r.append(it)
        gone = {single(it.v[0]) for it in r if it.k == 'call' and '::~' in it.name and len(it.v) == 1}
        if gone and not any(it.k == 'loop' for it in r):
            # made and destroyed, and nothing was put in it or did hold it
            for j in gone:
                if j is None or ATOMS[j][0] != 'new':
                    continue
                w = [it for it in r if any(isterm(x) and j in atoms_in(x) for x in it.path + it.v)]
                if all(it.k == 'call' and it.v[0] == A(j) and it.name.split('::~')[-1].split('::')[-1] == it.name.split('::')[0] for it in w):
                    r = [it for it in r if it not in w]
        r = s.simplify(r, F)
        return r

    def simplify(s, r, F):
        """drop dead and no-op stores, join output"""
        out = []
        for k, it in enumerate(r):
            if it.k == 'st':
                dead = False
                for jt in r[k + 1:]:
                    if jt.k == 'st' and jt.lab == it.lab:
                        if jt.path == it.path:
                            dead = True
                            break
                        continue
                    if it.lab in jt.refs or it.lab in jt.mods:
                        break
                if dead:
                    # the later store replaces it; what was there before is older
                    continue
            out.append(it)
        # olds after removal of dead stores: the first store's old value is the value before
        last = {}
        for it in out:
            if it.k == 'st' and it.old is not None and it.v == it.old:
                it.done = True
        out = [it for it in out if not it.done]
        res = []
        for it in out:
            if it.k == 'out' and res:
                j = None
                for q in reversed(res):
                    if q.k == 'out' and q.path == it.path:
                        j = q
                        break
                    if '#out' in q.mods:
                        break
                if j is not None:
                    j.v = joinpieces(j.v + it.v)
                    continue
                it.v = joinpieces(it.v)
            elif it.k == 'out':
                it.v = joinpieces(it.v)
            res.append(it)
        return res

    def effects(s, t, u, rs, ru, F, top, sure, ins=(), skip=False):
        a, b = s.items(t, rs, F, 'S', ins), s.items(u, ru, F, 'I', ins)
        if ins:
            # calls made in that round have their results named after another loop
            G = None
            ra, rb = {e.old for e in a if e.k == 'call'}, {e.old for e in b if e.k == 'call'}
            for n in {e.name for e in a if e.k == 'call' and e.old is not None}:
                x, y = [e for e in a if e.k == 'call' and e.name == n], [e for e in b if e.k == 'call' and e.name == n]
                if len(x) != len(y) or any(e.v != f.v for e, f in zip(x, y)):
                    continue
                for e, f in zip(x, y):
                    if e.old != f.old and e.old is not None and f.old is not None and f.old not in ra and e.old not in rb:
                        G = G or F.copy()
                        try:
                            G.add_eq(sub(f.old, e.old))
                        except Bad:
                            return []
            if G is not None:
                F = G
                a, b = s.items(t, rs, F, 'S', ins), s.items(u, ru, F, 'I', ins)
        s.stat['events'] += len(a) + len(b)
        diffs = []
        if top:
            if t.kind != u.kind:
                diffs.append(Diff('end', '#ret', 'the function %s' % {'ret': 'returns where it should not', 'noret': 'ends the program where it should return'}.get(u.kind, u.kind), True))
            elif t.ret is not None or u.ret is not None:
                if t.ret is None or u.ret is None:
                    diffs.append(Diff('ret', '#ret', 'return value missing', True))
                else:
                    x, y = F.norm(rs(t.ret)), F.norm(ru(u.ret))
                    if not s.eqval(x, y, F):
                        diffs.append(s.vdiff('ret', '#ret', 'returns %s, should return %s' % (show(y), show(x)), x, y, None, None))
        # match events
        bi = list(b)
        left = []
        lefts = []
        for e in a:
            j = s.find(e, bi, F)
            if j is None:
                if e.k == 'loop' and not s.active([('loop', e.ls)], e.rn, F):
                    continue
                if e.k == 'call' and e.mods <= {'#scan'} and not any(f.k == 'call' and f.name == e.name for f in bi):
                    continue            # what it read is compared where it is used
                left.append(e)
                diffs.append(s.explain(e, bi, a, F))
                lefts.append((e, diffs[-1]))
                # forget the counterpart too
                c = s.counterpart(e, bi)
                if c is not None:
                    bi.remove(c)
                continue
            bi.pop(j)
        for f in bi:
            if f.k == 'call' and not (f.mods - {'#time', '#scan'}):
                continue
            if f.k == 'loop':
                if s.active([('loop', f.ls)], f.rn, F):
                    diffs.append(Diff('loops', '*', 'the loop at line %s is run where it should not' % f.ln, s.alone(f, left), f.ln, None))
                continue
            diffs.append(Diff('extra', f.lab, 'extra %s' % s.desc(f), not any(s.foreign(x) for x in f.path) and f.k != 'loop', f.ln, None))
        if skip and not any(f.k != 'call' or f.mods - {'#time', '#scan'} for f in bi):
            for e, d in lefts:
                if d.kind == 'missing' and d.sure and s.lasting(e):
                    d.slot = 'skip'
        if any(d.kind == 'loops' for d in diffs):
            # the rest is judged without what that loop does
            for d in diffs:
                if d.kind != 'loops':
                    d.sure = False
        if not sure:
            for d in diffs:
                d.sure = False
        for d in diffs:
            if d.slot == 'skip':
                d.sure = True
        return diffs

    def lasting(s, e):
        """something that is seen after the path"""
        if any(isterm(x) and any(ATOMS[i][0] in ('al', 'new') for i in atoms_in(x)) for x in e.path):
            return False
        return e.k == 'out' or bool(e.mods - QUIET - {'#lib', '#scan', '#rand'})

    def vdiff(s, kind, lab, msg, x, y, ln, sln):
        d = sub(x, y)
        return Diff(kind, lab, msg, not s.foreign(d), ln, sln)

    def eqval(s, x, y, F):
        if x == y:
            return True
        if F.decide('eq', sub(x, y)) is True:
            return True
        # boolean values: split
        bs = [i for i in sorted(atoms_in(x) ^ atoms_in(y)) if RNG.get(i) == (0, 1) and ATOMS[i][0] in ('cmp', 'and', 'or', 'fcmp')]
        top = {i for i, _ in x[1]} | {i for i, _ in y[1]}
        for i in bs:
            if i in top:
                for v in (True, False):
                    G = F.copy()
                    try:
                        G.assume(A(i), v)
                    except Bad:
                        continue
                    if not s.eqval(G.norm(x), G.norm(y), G):
                        return False
                return True
        return False

    def same(s, e, f, F):
        if e.k != f.k or e.name != f.name:
            return False
        if e.k == 'loop':
            return True
        p, q = e.path, f.path
        if e.lab != f.lab or abs(len(p) - len(q)) > (1 if e.k == 'st' and p and q else 0):
            return False
        if len(p) < len(q):
            p = (p[0], ZERO) + p[1:]     # the first of an array of objects goes without its index
        elif len(q) < len(p):
            q = (q[0], ZERO) + q[1:]
        if any(not s.eqval(x, y, F) for x, y in zip(p, q)):
            return False
        if e.k == 'st':
            return s.eqval(e.v, f.v, F)
        if e.k == 'out':
            if len(e.v) != len(f.v):
                return False
            for p, q in zip(e.v, f.v):
                if p[0] != q[0] or len(p) != len(q):
                    return False
                for x, y in zip(p[1:], q[1:]):
                    if x != y and not (isterm(x) and isterm(y) and s.eqval(x, y, F)):
                        return False
            return True
        if len(e.v) != len(f.v):
            return False
        return all(s.eqval(x, y, F) for x, y in zip(e.v, f.v))

    def indep(s, e, f, F):
        """can the two events change places?"""
        if e.k == f.k == 'call' and e.name == f.name and ('::~' in e.name or e.name == 'delete'):
            # of two objects, or the same one is destroyed twice in either order
            return True
        for l in e.mods & f.mods:
            if e.k == 'st' and f.k == 'st':
                if s.distinct(e.path, f.path, F):
                    continue
            if e.k == 'cop' and f.k == 'cop' and e.path and f.path and s.distinct(e.path, f.path, F):
                continue
            return False
        if (e.mods & f.refs and not (e.k == f.k == 'cop')) or (f.mods & e.refs and not (e.k == f.k == 'cop')):
            return False
        return True

    def distinct(s, p, q, F):
        return len(p) == len(q) and any(F.decide('eq', sub(x, y)) is False for x, y in zip(p, q)) or differentobjs(p[0], q[0])

    def alone(s, e, others):
        """nothing else changes what the loop changes"""
        m = e.mods - QUIET - {'#lib', '#scan', '#rand'}
        return bool(m) and not any(f is not e and f.mods & m for f in others)

    def find(s, e, bi, F):
        for j, f in enumerate(bi):
            if s.same(e, f, F):
                if all(s.indep(f, g, F) for g in bi[:j]):
                    return j
                return None
        return None

    def counterpart(s, e, bi):
        for f in bi:
            if f.k == e.k and f.name == e.name and (e.k == 'call' or f.lab == e.lab and f.path == e.path):
                return f
        for f in bi:
            if f.k == e.k and f.name == e.name and f.lab == e.lab:
                return f
        return None

    def explain(s, e, bi, a, F):
        c = s.counterpart(e, bi)
        lab = e.lab
        if e.k == 'loop':
            return Diff('loops', '*', 'the loop at line %s of the contract is not run' % e.ln, s.alone(e, bi), None, e.ln)
        if c is None:
            if e.k == 'call' and not (e.mods - {'#time', '#scan'}):
                return Diff('missing', lab, 'call to %s not made' % e.name, False, None, e.ln)
            # could another event do it instead?
            if any(i in s.lone for x in e.path + (e.v if e.k == 'call' else ()) if isterm(x) for i in atoms_in(x)):
                # the code may keep it in another form
                return Diff('missing', lab, 'missing: %s' % s.desc(e), False, None, e.ln)
            other = any(f.k in ('call', 'loop', 'cop') and (f.mods & e.mods) and not any(g.k == f.k and g.name == f.name for g in a) for f in bi)
            return Diff('missing', lab, 'missing: %s' % s.desc(e), not other, None, e.ln)
        if s.same(e, c, F):
            return Diff('order', lab, '%s in a different order' % s.desc(e), True, c.ln, e.ln)
        xs = list(zip(e.path, c.path)) if e.k != 'call' else []
        if e.k == 'st':
            xs.append((e.v, c.v))
        elif e.k in ('call', 'cop'):
            xs += list(zip(e.v, c.v))
        elif e.k == 'out':
            for p, q in zip(e.v, c.v):
                xs += [(x, y) for x, y in zip(p[1:], q[1:]) if isterm(x) and isterm(y)]
        unk = any(not s.eqval(x, y, F) and s.foreign(sub(x, y)) for x, y in xs)
        if e.k == 'out' and e.path == c.path:
            # a sign that one version prints by itself and the other as part of the number
            v, w = unsigned(e.v), unsigned(c.v)
            unk = unk or len(v) == len(w) and all(
                p[0] == q[0] and len(p) == len(q) and all(x == y or isterm(x) and isterm(y) and s.eqval(x, y, F) for x, y in zip(p[1:], q[1:])) for p, q in zip(v, w))
        return Diff('value', lab, '%s, should be %s' % (s.desc(c), s.desc(e)), not unk, c.ln, e.ln)

    def desc(s, e):
        if e.k == 'st':
            return '%s%s := %s' % (e.lab, [show(x) for x in e.path], show(e.v))
        if e.k == 'call':
            return '%s(%s)' % (e.name, ', '.join(show(x) for x in e.v))
        if e.k == 'cop':
            return '%s %s%s(%s)' % (e.name, e.lab, [show(x) for x in e.path], ', '.join(show(x) for x in e.v))
        if e.k == 'out':
            return 'output ' + ' '.join(repr(p[1]) if p[0] == 's' else show(p[1]) if isterm(p[1]) else str(p[1:]) for p in e.v)
        return 'loop at line %s' % e.ln


class OutT:
    """an Out seen as a path"""
    __slots__ = ('facts', 'events', 'ret', 'kind', 'alts')

    def __init__(s, o):
        s.facts, s.events, s.kind, s.alts = o.st.facts, o.st.events, o.kind, o.st.alts
        s.ret = None


def differentobjs(a, b):
    i, j = single(a), single(b)
    if i is None or j is None or i == j:
        return False
    x, y = ATOMS[i][0], ATOMS[j][0]
    for p, q in ((i, j), (j, i)):
        if ATOMS[p][0] == 'new' and ATOMS[q][0] == 'ld' and ATOMS[q][3] == 0 and not any(ATOMS[k][0] in ('new', 'prev', 'phi', 'chain', 'acc', 'outp', 'res') or ATOMS[k][0] == 'ld' and ATOMS[k][3] for k in inner(q)):
            # what was in memory from the start is older than the object
            return True
    return x in ('al', 'new', 'g') and y in ('al', 'new', 'g', 'arg') or y in ('al', 'new', 'g') and x in ('al', 'new', 'g', 'arg')


def unsigned(v):
    """output pieces with the sign in front of a number made part of it"""
    r = []
    for p in v:
        if p[0] == 'v' and isterm(p[1]) and r and r[-1][0] == 's' and r[-1][1].endswith('-'):
            r[-1] = ('s', r[-1][1][:-1])
            p = ('v', neg(p[1])) + p[2:]
        r.append(p)
    return joinpieces(r)


def joinpieces(v):
    r = []
    for p in v:
        if p[0] == 'v' and isk(p[1]):
            p = ('s', str(p[1][0]))
        if p[0] == 's' and r and r[-1][0] == 's':
            r[-1] = ('s', r[-1][1] + p[1])
        elif p == ('s', ''):
            continue
        else:
            r.append(p)
    return tuple(r)


def loopmods(ls):
    r = ls.lm
    if r is None:
        m, rf = set(), set()

        def walk(l):
            for outs in l.parts.values():
                for o in outs:
                    for e in o.st.events:
                        if o.kind != 'back' and e[0] != 'x':
                            pass
                        if e[0] == 'st':
                            m.add(e[1])
                        elif e[0] == 'call':
                            m.update(e[4])
                        elif e[0] == 'cop':
                            m.update(e[5])
                        elif e[0] == 'out':
                            m.add('#out')
                        elif e[0] == 'loop':
                            walk(e[1])
        walk(ls)
        r = ls.lm = frozenset(m)
    return r


def dedupe(ds):
    seen, r = set(), []
    for d in ds:
        k = (d.kind, d.label, d.msg, d.sure, d.line)
        if k not in seen:
            seen.add(k)
            r.append(d)
    return r
