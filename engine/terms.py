"""Terms (linear forms over interned atoms) and the fact domain.

A term is a pair (c, ((atom, coef), ...)): an integer linear form.  Pointers are
linear forms too (base atom + byte offset).  Facts is an abstract domain of
solved equalities, intervals over linear forms, difference bounds and
disequalities: joins are never needed (traces are partitioned), transfer
functions only ever add a constraint.
"""
from math import gcd

_ids = {}
ATOMS = []
RNG = {}            # atom id -> (lo, hi)   intrinsic range
INF = float('inf')
STAT = {'queries': 0}


def atom(*t):
    i = _ids.get(t)
    if i is None:
        i = len(ATOMS)
        _ids[t] = i
        ATOMS.append(t)
        if t[0] in ('cmp', 'fcmp', 'and', 'or', 'peq'):
            RNG[i] = (0, 1)
        elif t[0] in ('n', 'size'):
            RNG[i] = (0, INF)
    return i


def K(c):
    return (c, ())


def A(i):
    return (0, ((i, 1),))


def mk(*t):
    return A(atom(*t))


ZERO = K(0)
ONE = K(1)


def add(a, b, kb=1):
    if not b[1]:
        return (a[0] + kb * b[0], a[1])
    d = dict(a[1])
    for i, c in b[1]:
        v = d.get(i, 0) + kb * c
        if v:
            d[i] = v
        else:
            d.pop(i, None)
    return (a[0] + kb * b[0], tuple(sorted(d.items())))


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    if k == 0:
        return ZERO
    return (a[0] * k, tuple((i, c * k) for i, c in a[1]))


def neg(a):
    return scale(a, -1)


def addk(a, k):
    return (a[0] + k, a[1])


def isk(a):
    return not a[1]


def single(a):
    """atom id when the term is exactly one atom"""
    if a[0] == 0 and len(a[1]) == 1 and a[1][0][1] == 1:
        return a[1][0][0]
    return None


def divk(a, k):
    """exact division or None"""
    if a[0] % k or any(c % k for _, c in a[1]):
        return None
    return (a[0] // k, tuple((i, c // k) for i, c in a[1]))


def isterm(x):
    return (isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], tuple)
            and all(isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], int) and isinstance(y[1], int) for y in x[1]))


def mapatom(t, f):
    """rebuild atom tuple t mapping f over the terms nested in it"""
    if isterm(t):
        return f(t)
    if isinstance(t, tuple):
        return tuple(mapatom(x, f) if isinstance(x, tuple) else x for x in t)
    return t


_nest = {}


def nested(i):
    """(terms nested directly in atom i, does the closure of i contain boolean atoms)"""
    r = _nest.get(i)
    if r is None:
        l = []

        def walk(t):
            if isterm(t):
                l.append(t)
            elif isinstance(t, tuple):
                for x in t:
                    if isinstance(x, tuple):
                        walk(x)
        t = ATOMS[i]
        for x in t:
            if isinstance(x, tuple):
                walk(x)
        l = tuple(x for x in l if x[1])
        b = t[0] == 'cmp' or any(nested(j)[1] for x in l for j, _ in x[1])
        r = _nest[i] = (l, b)
    return r


def hasbool(a):
    for i, _ in a[1]:
        n = _nest.get(i)
        if n is None:
            n = nested(i)
        if n[1]:
            return True
    return False


_sub_cache = {}


def atoms_in(a, acc=None):
    """all atom ids occurring in term a, nested ones included"""
    acc = set() if acc is None else acc
    for i, _ in a[1]:
        if i not in acc:
            acc.add(i)
            s = _sub_cache.get(i)
            if s is None:
                s = set()

                def walk(t):
                    if isterm(t):
                        atoms_in(t, s)
                    elif isinstance(t, tuple):
                        for x in t:
                            if isinstance(x, tuple):
                                walk(x)
                for x in ATOMS[i]:
                    if isinstance(x, tuple):
                        walk(x)
                _sub_cache[i] = frozenset(s)
            acc |= s
    return acc


def inner(i):
    """atoms that occur inside atom i"""
    atoms_in((0, ((i, 1),)))
    return _sub_cache[i]


def form(e):
    """(form, const, sign): e = sign*(form) + const with form normalised (gcd 1, leading coef > 0)"""
    g = 0
    for _, c in e[1]:
        g = gcd(g, abs(c))
    s = g if e[1][0][1] > 0 else -g
    return tuple((i, c // s) for i, c in e[1]), e[0], s


class Bad(Exception):
    """contradiction"""


def mkcmp(op, e):
    """truth term of e op 0; op in eq, le.  Constants are folded."""
    if isk(e):
        return ONE if (e[0] == 0 if op == 'eq' else e[0] <= 0) else ZERO
    f, c, s = form(e)
    if op == 'eq':
        if c % s:
            return ZERO
        # 0/1 valued atoms compare to themselves
        if len(f) == 1 and RNG.get(f[0][0]) == (0, 1):
            k = -c // s
            if k == 1:
                return A(f[0][0])
            if k == 0:
                return (1, ((f[0][0], -1),))
            return ZERO
        return mk('cmp', 'eq', (c // s, f))
    if len(f) == 1 and RNG.get(f[0][0]) == (0, 1):
        # s*x + c <= 0
        t0, t1 = c <= 0, s + c <= 0
        if t0 and t1:
            return ONE
        if not t0 and not t1:
            return ZERO
        return A(f[0][0]) if t1 else (1, ((f[0][0], -1),))
    # s*f + c <= 0  <=>  sign(s)*f <= floor(-c/|s|)
    b = (-c) // abs(s)
    if s > 0:
        return mk('cmp', 'le', (-b, f))          # f - b <= 0
    # -f <= b  <=> f >= -b  <=> not (f <= -b-1)
    return sub(ONE, mk('cmp', 'le', (b + 1, f)))


STRP = {}


def strpred(i):
    """a comparison of a string with a constant: (string, constant, length or None), or None"""
    if i in STRP:
        return STRP[i]
    t = ATOMS[i]
    r = None
    if t[0] == 'pure' and t[1] in ('strcmp', 'strncmp'):
        ps, n = t[2], None
        if t[1] == 'strncmp':
            ps, n = ps[:2], ps[2]
        if len(ps) == 2 and (n is None or isk(n)):
            cs = [strconst(x) for x in ps]
            if (cs[0] is None) != (cs[1] is None):
                k = 0 if cs[0] is not None else 1
                c = cs[k]
                n = None if n is None or n[0] > len(c) else n[0]
                r = (ps[1 - k], c if n is None else c[:n], n)
    STRP[i] = r
    return r


def strconst(x):
    i = single(x)
    if i is not None and ATOMS[i][0] == 'mem':
        i = single(ATOMS[i][1])
    return ATOMS[i][1] if i is not None and ATOMS[i][0] == 'str' else None


class Facts:
    __slots__ = ('sub', 'itv', 'neq', '_m', '_b', '_g', 'lk')

    def __init__(s, o=None):
        if o is None:
            s.sub, s.itv, s.neq = {}, {}, {}
            s.lk = ()                # comparisons replaced by another boolean
        else:
            s.sub, s.itv, s.neq = dict(o.sub), dict(o.itv), dict(o.neq)
            s.lk = o.lk
        s._m = {}
        s._b = {}
        s._g = None

    def copy(s):
        r = Facts(s)
        # replaced, never cleared, when a fact is added: can be shared
        r._m = s._m
        r._b = s._b
        r._g = s._g
        return r

    # -- normalisation
    def norm(s, a):
        ts = a[1]
        if not ts:
            return a
        r = s._m.get(a)
        if r is not None:
            return r
        r = s._b.get(a)
        if r is not None:
            return r
        ch = False
        vs = []
        for i, c in ts:
            v = s.natom(i)
            vs.append(v)
            if not ch and (v[0] or len(v[1]) != 1 or v[1][0] != (i, 1)):
                ch = True
        if not ch:
            r = a
        else:
            r = K(a[0])
            for (i, c), v in zip(ts, vs):
                r = add(r, v, c)
        for i, c in ts:
            if i in s._b:
                s._b[a] = r
                break
        else:
            s._m[a] = r
        return r

    def natom(s, i):
        r = s._m.get(i)
        if r is not None:
            return r
        r = s._b.get(i)
        if r is not None:
            return r
        ns, bo = nested(i)
        v = s.sub.get(i)
        if v is not None:
            r = s.norm(v)
            bo = bo or v in s._b
        else:
            r = None
            for x in ns:
                if s.norm(x) != x:
                    r = rebuild(mapatom(ATOMS[i], s.norm))
                    j = single(r)
                    if j is not None:
                        if i in RNG and j not in RNG:
                            RNG[j] = RNG[i]
                        if j in s.sub:
                            r = s.norm(s.sub[j])
                    bo = True
                    break
            else:
                r = A(i)
            for x in ns:
                if x in s._b:
                    bo = True
            if bo:
                j = single(r)
                if j is not None and ATOMS[j][0] == 'cmp':
                    d = s.decide(ATOMS[j][1], ATOMS[j][2])
                    if d is not None:
                        r = ONE if d else ZERO
            j = single(r)
            if j is not None and ATOMS[j][0] == 'pure' and ATOMS[j][1].startswith('llvm.abs'):
                bo = True
                x = ATOMS[j][2][0]
                if s.decide('le', neg(x)) is True:
                    r = s.norm(x)
                elif s.decide('le', x) is True:
                    r = s.norm(neg(x))
        if bo:
            s._b[i] = r
        else:
            s._m[i] = r
        return r

    # -- queries
    def strfact(s, i):
        """is string comparison i zero? decided from the comparisons known to be zero"""
        p = STRP[i] if i in STRP else strpred(i)
        if p is None:
            return None
        x, c, n = p
        for j, v in s.sub.items():
            if j == i or v != ZERO:
                continue
            q = STRP[j] if j in STRP else strpred(j)
            if q is None or q[0] != x:
                continue
            _, d, m = q
            if m is None:               # the string is d
                return d == c if n is None else d[:n] == c
            if n is None:               # the string starts with d
                if c[:m] != d:
                    return False
            elif c[:m] != d[:n]:
                return False
            elif n <= m:
                return True
        return None

    def atombounds(s, i):
        lo, hi = s.itv.get(((i, 1),), (-INF, INF))
        r = RNG.get(i)
        if r:
            lo, hi = max(lo, r[0]), min(hi, r[1])
        return lo, hi

    def graph(s):
        if s._g is None:
            g = {}
            tg = g[0.5] = set()
            for f, (lo, hi) in s.itv.items():
                if len(f) == 2 and f[0][1] == 1 and f[1][1] == -1:
                    x, y = f[0][0], f[1][0]
                    # x - y <= hi ; y - x <= -lo
                    if hi < INF:
                        g.setdefault(y, []).append((x, hi))
                        tg.add(x)
                    if lo > -INF:
                        g.setdefault(x, []).append((y, -lo))
                        tg.add(y)
            s._g = g
        return s._g

    def diffub(s, x, y):
        """upper bound of x - y (x or y may be None = zero)"""
        g = s.graph()
        if y not in g and (x not in g[0.5] or len(g) == 1):
            return INF              # no difference bound is involved
        best = {}
        start = y
        # dist[v] = ub of v - y
        if start is None:
            work = [(None, 0)]
        else:
            work = [(start, 0)]
        best[start] = 0
        steps = 0
        nodes = set(g)
        nodes.discard(0.5)
        while work and steps < 4000:
            steps += 1
            u, d = work.pop()
            if best.get(u, INF) < d:
                continue
            edges = list(g.get(u, ())) if u is not None else []
            if u is None:
                # v - 0 <= hi(v)
                for v in list(nodes | ({x} if x is not None else set())):
                    hi = s.atombounds(v)[1]
                    if hi < INF:
                        edges.append((v, hi))
            else:
                lo = s.atombounds(u)[0]
                if lo > -INF:
                    edges.append((None, -lo))
            for v, w in edges:
                nd = d + w
                if nd < best.get(v, INF):
                    best[v] = nd
                    work.append((v, nd))
        return best.get(x, INF)

    def bounds(s, e):
        """interval of an already normalised term"""
        STAT['queries'] += 1
        if not e[1]:
            return e[0], e[0]
        f, c, k = form(e)
        lo, hi = s.itv.get(f, (-INF, INF))
        # sum of atom intervals
        l2 = h2 = 0
        for i, co in f:
            al, ah = s.atombounds(i)
            if co > 0:
                l2 += co * al
                h2 += co * ah
            else:
                l2 += co * ah
                h2 += co * al
            if l2 != l2:
                l2 = -INF
            if h2 != h2:
                h2 = INF
        lo, hi = max(lo, l2), min(hi, h2)
        if len(f) == 2 and f[0][1] == 1 and f[1][1] == -1:
            x, y = f[0][0], f[1][0]
            hi = min(hi, s.diffub(x, y))
            lo = max(lo, -s.diffub(y, x))
        elif len(f) == 1 and f[0][1] == 1:
            hi = min(hi, s.diffub(f[0][0], None))
            lo = max(lo, -s.diffub(None, f[0][0]))
        ne = s.neq.get(f)
        if ne:
            while lo in ne:
                lo += 1
            while hi in ne:
                hi -= 1
        if k > 0:
            return k * lo + c, k * hi + c
        return k * hi + c, k * lo + c

    def decide(s, op, e):
        e = s.norm(e)
        if not e[1]:
            return e[0] == 0 if op == 'eq' else e[0] <= 0
        if op == 'eq' and not e[0] and len(e[1]) == 1 and ATOMS[e[1][0][0]][0] == 'pure':
            r = s.strfact(e[1][0][0])
            if r is not None:
                return r
        lo, hi = s.bounds(e)
        if op == 'le':
            if hi <= 0:
                return True
            if lo > 0:
                return False
            return None
        if lo > 0 or hi < 0:
            return False
        f, c, k = form(e)
        if c % k:
            return False
        if -c // k in s.neq.get(f, ()):
            return False
        if lo == hi == 0:
            return True
        return None

    # -- adding facts
    def _dirty(s):
        s._m = {}
        s._b = {}
        s._g = None

    def _dirtyb(s):
        s._b = {}
        s._g = None

    def add_le(s, e):
        e = s.norm(e)
        if not e[1]:
            if e[0] > 0:
                raise Bad()
            return
        f, c, k = form(e)
        lo, hi = s.itv.get(f, (-INF, INF))
        if k > 0:
            hi = min(hi, (-c) // k)
        else:
            lo = max(lo, -((-c) // (-k)))
        s._set(f, lo, hi)

    def _set(s, f, lo, hi):
        ne = s.neq.get(f)
        if len(f) == 1 and f[0][1] == 1:
            r = RNG.get(f[0][0])
            if r:
                lo, hi = max(lo, r[0]), min(hi, r[1])
        if ne:
            while lo in ne:
                lo += 1
            while hi in ne:
                hi -= 1
        if lo > hi:
            raise Bad()
        s.itv[f] = (lo, hi)
        s._dirtyb()
        l2, h2 = s.bounds((0, f))
        if l2 > h2:
            raise Bad()
        if l2 == h2:
            s.add_eq((-l2, f))
        elif len(f) == 2 and f[0][1] == 1 and f[1][1] == -1 or len(f) == 1:
            # negative cycle check is implied by l2 > h2
            pass

    def add_eq(s, e):
        e = s.norm(e)
        if not e[1]:
            if e[0] != 0:
                raise Bad()
            return
        lo, hi = s.bounds(e)
        if lo > 0 or hi < 0:
            raise Bad()
        if not e[0] and len(e[1]) == 1 and ATOMS[e[1][0][0]][0] == 'pure' and s.strfact(e[1][0][0]) is False:
            raise Bad()
        f, c, k = form(e)
        if c % k:
            raise Bad()
        if -c // k in s.neq.get(f, ()):
            raise Bad()
        # choose an atom with unit coefficient to eliminate
        cand = [(i, co) for i, co in e[1] if abs(co) == 1]
        if not cand:
            s.itv[f] = (-c // k, -c // k)
            s._dirty()
            return
        best = None
        for i, co in cand:
            # do not eliminate an atom that occurs inside another one of e
            rest = add(e, (0, ((i, co),)), -1)
            if i in atoms_in(rest):
                continue
            pr = PRI.get(ATOMS[i][0], 5)
            if best is None or (pr, i) > best[0]:
                best = ((pr, i), i, co, rest)
        if best is None:
            s.itv[f] = (-c // k, -c // k)
            s._dirty()
            return
        _, i, co, rest = best
        val = scale(rest, -co)
        s.sub[i] = val
        if not isk(val) and ATOMS[i][0] in ('cmp', 'and', 'or'):
            s.lk += (i,)
        s._dirty()
        oi, on = s.itv, s.neq
        # ranges of the eliminated atom pass to its value
        if i in RNG:
            lo, hi = RNG[i]
            if isk(val):
                if not lo <= val[0] <= hi:
                    raise Bad()
            else:
                if lo > -INF:
                    s.add_le(sub(K(lo), val))
                if hi < INF:
                    s.add_le(sub(val, K(hi)))
        oi, on = s.itv, s.neq
        s.itv, s.neq = {}, {}
        s._dirty()
        for f, st in on.items():
            for v in st:
                s.add_ne((-v, f))
        for f, (lo, hi) in oi.items():
            if lo == hi:
                nf = s.norm((0, f))
                if isk(nf):
                    if nf[0] != lo:
                        raise Bad()
                    continue
            if hi < INF:
                s.add_le((-hi, f))
            if lo > -INF:
                s.add_le(neg((-lo, f)))
        t = ATOMS[i]
        if isk(val) and t[0] in ('cmp', 'and', 'or', 'fcmp', 'peq'):
            s.assume_atom(t, val[0] != 0)
        # what is known of an atom holds of the same atom written with the value of i
        for j in [j for j in s.sub if j != i and i in inner(j)]:
            if j in s.sub and any(s.norm(x) != x for x in nested(j)[0]):
                e = sub(rebuild(mapatom(ATOMS[j], s.norm)), s.sub[j])
                if s.norm(e) != ZERO:
                    s.add_eq(e)

    def assume_atom(s, t, truth):
        if t[0] == 'cmp':
            if t[1] == 'eq':
                if truth:
                    s.add_eq(t[2])
                else:
                    s.add_ne(t[2])
            else:
                if truth:
                    s.add_le(t[2])
                else:
                    s.add_le(sub(ONE, t[2]))
        elif t[0] == 'and' and truth or t[0] == 'or' and not truth:
            for x in t[1:]:
                s.assume(x, truth)
        elif t[0] == 'fcmp' and t[1] == 'lt' and truth:
            o = atom('fcmp', 'lt', t[3], t[2])
            if s.norm(A(o)) == ONE:
                raise Bad()
            if o not in s.sub:
                s.add_eq(A(o))

    def add_ne(s, e):
        e = s.norm(e)
        if not e[1]:
            if e[0] == 0:
                raise Bad()
            return
        lo, hi = s.bounds(e)
        if lo == hi == 0:
            raise Bad()
        if not e[0] and len(e[1]) == 1 and ATOMS[e[1][0][0]][0] == 'pure' and s.strfact(e[1][0][0]) is True:
            raise Bad()
        f, c, k = form(e)
        if c % k:
            return
        if len(f) == 2 and RNG.get(f[0][0]) == (0, 1) and RNG.get(f[1][0]) == (0, 1):
            # two booleans: different is opposite
            (i, a), (j, b) = e[1]
            if c == 0 and a == -b:
                return s.add_eq(addk(add(A(i), A(j)), -1))
            if c == -a and a == b:
                return s.add_eq(sub(A(i), A(j)))
        v = -c // k
        s.neq[f] = s.neq.get(f, frozenset()) | {v}
        l, h = s.itv.get(f, (-INF, INF))
        if len(f) == 1 and f[0][1] == 1:
            r = RNG.get(f[0][0])
            if r:
                l, h = max(l, r[0]), min(h, r[1])
        l2, h2 = s.bounds((0, f))
        l, h = max(l, l2), min(h, h2)
        if v in (l, h):
            s._set(f, l, h)
        else:
            s._dirtyb()

    def links(s):
        """comparisons replaced by another boolean that are decided by now"""
        todo = True
        while todo:
            todo = False
            for i in s.lk:
                v = s.norm(s.sub[i])
                t = ATOMS[i]
                if t[0] == 'cmp':
                    d = s.decide(t[1], t[2])
                else:
                    d = [s.truth(x) for x in t[1:]]
                    e = t[0] == 'or'
                    d = e if e in d else not e if None not in d else None
                if isk(v):
                    if d is None:
                        s.lk = tuple(j for j in s.lk if j != i)
                        s.assume_atom(t, v[0] != 0)
                        todo = True
                        break
                    if d != (v[0] != 0):
                        raise Bad()
                elif d is not None:
                    s.add_eq(addk(v, -int(d)))
                    todo = True

    def assume(s, t, truth):
        s.assume1(t, truth)
        if s.lk:
            s.links()

    def assume1(s, t, truth):
        """assume boolean term t has the given truth; raises Bad when impossible"""
        t = s.norm(t)
        if not t[1]:
            if (t[0] != 0) != truth:
                raise Bad()
            return
        if len(t[1]) == 1 and t[1][0][1] == -1 and t[0] == 1:
            return s.assume1(A(t[1][0][0]), not truth)
        i = single(t)
        if i is not None:
            a = ATOMS[i]
            if a[0] == 'cmp':
                s.assume_atom(a, truth)
                return
            if RNG.get(i) == (0, 1):
                s.add_eq(addk(t, -1) if truth else t)
                return
        if truth:
            s.add_ne(t)
        else:
            s.add_eq(t)

    def truth(s, t):
        t = s.norm(t)
        if not t[1]:
            return t[0] != 0
        if len(t[1]) == 1 and t[1][0][1] == -1 and t[0] == 1:
            r = s.truth(A(t[1][0][0]))
            return None if r is None else not r
        i = single(t)
        if i is not None:
            a = ATOMS[i]
            if a[0] == 'cmp':
                return s.decide(a[1], a[2])
            if a[0] == 'and':
                v = [s.truth(x) for x in a[1:]]
                return False if False in v else (True if None not in v else None)
            if a[0] == 'or':
                v = [s.truth(x) for x in a[1:]]
                return True if True in v else (False if None not in v else None)
            if a[0] == 'pure':
                r = s.strfact(i)
                if r is not None:
                    return not r
        lo, hi = s.bounds(t)
        if lo == hi == 0:
            return False
        if lo > 0 or hi < 0:
            return True
        f, c, k = form(t)
        if c % k == 0 and -c // k in s.neq.get(f, ()):
            return True
        return None

    def merge(s, o, ren=None):
        """conjunction with another Facts (renamed); raises Bad if contradictory"""
        ren = ren or (lambda t: t)
        for i, v in o.sub.items():
            a = ren(A(i))
            b = ren(v)
            if a is None or b is None:
                continue
            s.add_eq(sub(a, b))
            # boolean atoms carry more than their value
            t = ATOMS[i]
            if isk(v) and t[0] in ('and', 'or'):
                s.assume(a, v[0] != 0)
        for f, (lo, hi) in o.itv.items():
            a = ren((0, f))
            if a is None:
                continue
            if hi < INF:
                s.add_le(addk(a, -hi))
            if lo > -INF:
                s.add_le(neg(addk(a, -lo)))
        for f, st in o.neq.items():
            a = ren((0, f))
            if a is None:
                continue
            for v in st:
                s.add_ne(addk(a, -v))
        if s.lk:
            s.links()

    def consts(s):
        return s.sub

    def subst(s, fn):
        """the facts with fn mapped over every term"""
        r = Facts()
        r.merge(s, fn)
        return r


# elimination priority when solving an equality: the higher goes first
PRI = {'n': 2, 'arg': 1, 'ld': 4, 'cmp': 9, 'and': 9, 'or': 9, 'fcmp': 9, 'phi': 8, 'prev': 7, 'chain': 6,
       'new': 0, 'al': 0, 'res': 6, 'own': 0, 'vbuf': 0, 'size': 3, 'new#': 10}


def mkbop(op, a, b):
    """bitwise operation, operands of the commutative ones in order"""
    if isk(a) and isk(b):
        x, y = a[0], b[0]
        if op == 'and':
            return K(x & y)
        if op == 'or':
            return K(x | y)
        if op == 'xor':
            return K(x ^ y)
        if op == 'shl' and 0 <= y < 64:
            return K(x << y)
    if op in ('and', 'or', 'xor'):
        if a == b:
            return ZERO if op == 'xor' else a
        if isk(a):
            a, b = b, a
        if isk(b):
            if b == ZERO:
                return ZERO if op == 'and' else a
            if b == K(-1) and op != 'xor':
                return a if op == 'and' else b
        a, b = sorted((a, b))
        return boolean(op, a, b)
    return mk('bop', op, a, b)


_bools = {}


def table(t, lv):
    """t as a function of its parts: a bit for each choice of the bits in lv, which is extended"""
    if t[0] == -1 and len(t[1]) == 1 and t[1][0][1] == -1:
        f = table(A(t[1][0][0]), lv)
        return f and (lambda v: not f(v))
    i = single(t)
    if i is not None and ATOMS[i][0] == 'bop' and ATOMS[i][1] in ('and', 'or', 'xor'):
        f, g = table(ATOMS[i][2], lv), table(ATOMS[i][3], lv)
        return {'and': lambda v: f(v) and g(v), 'or': lambda v: f(v) or g(v), 'xor': lambda v: f(v) != g(v)}[ATOMS[i][1]]
    lv.setdefault(t, len(lv))
    return lambda v: v[t]


def boolean(op, a, b):
    """a bitwise expression: the same function of the same words is the same term"""
    lv = {}
    f, g = table(a, lv), table(b, lv)
    ls = sorted(lv)
    if len(ls) > 5:
        return mk('bop', op, a, b)
    h = {'and': lambda v: f(v) and g(v), 'or': lambda v: f(v) or g(v), 'xor': lambda v: f(v) != g(v)}[op]

    def bits(ls):
        fix = {x: False for x in lv}
        return tuple(bool(h({**fix, **{x: bool(n >> k & 1) for k, x in enumerate(ls)}})) for n in range(1 << len(ls)))
    w = bits(ls)
    for x in list(ls):
        k = ls.index(x)
        if all(w[n] == w[n ^ (1 << k)] for n in range(len(w))):
            ls.remove(x)
            w = bits(ls)
    if not ls:
        return K(-1) if w[0] else ZERO
    neg1 = lambda t: addk(scale(t, -1), -1)
    if len(ls) == 1:
        return neg1(ls[0]) if w[0] else ls[0]
    inv = w[0]
    if inv:
        w = tuple(not x for x in w)
    key = (tuple(ls), w)
    r = _bools.get(key)
    if r is None:
        r = mk('bop', op, a, b)
        r = _bools[key] = neg1(r) if inv else r
    return neg1(r) if inv else r


def mkrem(a, b):
    i = single(a)
    if i is not None and ATOMS[i][0] == 'rem' and ATOMS[i][2] == b:
        return a
    if isk(a) and isk(b) and b[0]:
        m = abs(a[0]) % abs(b[0])
        return K(m if a[0] >= 0 else -m)
    return mk('rem', a, b)


def rebuild(t):
    """re-normalise an atom whose nested terms changed"""
    if t[0] == 'bop':
        return mkbop(t[1], t[2], t[3])
    if t[0] == 'cmp':
        return mkcmp(t[1], t[2])
    if t[0] == 'and':
        v = [x for x in t[1:] if x != ONE]
        if ZERO in v:
            return ZERO
        if not v:
            return ONE
        if len(v) == 1:
            return v[0]
        t = ('and',) + tuple(sorted(v))
    if t[0] == 'or':
        v = [x for x in t[1:] if x != ZERO]
        if ONE in v:
            return ONE
        if not v:
            return ZERO
        if len(v) == 1:
            return v[0]
        t = ('or',) + tuple(sorted(v))
    if t[0] == 'prod':
        r = ONE
        for x in t[1]:
            r = mul(r, x)
        return r
    if t[0] == 'ext':
        return ext(t[1], t[2], t[3])
    if t[0] == 'rem':
        return mkrem(t[1], t[2])
    if t[0] == 'fop' and t[1] in ('fadd', 'fmul'):
        t = t[:2] + (tuple(sorted(t[2])),)
    if t[0] == 'fcmp' and t[1] == 'eq':
        t = t[:2] + tuple(sorted(t[2:]))
    return A(atom(*t))


def mul(a, b):
    if isk(a):
        return scale(b, a[0])
    if isk(b):
        return scale(a, b[0])
    # distribute over single atoms so that products are canonical
    r = ZERO
    if len(a[1]) == 1 and a[0] == 0 and len(b[1]) == 1 and b[0] == 0:
        (i, c), (j, d) = a[1][0], b[1][0]
        x = []
        for q in (i, j):
            t = ATOMS[q]
            x += list(t[1]) if t[0] == 'prod' else [A(q)]
        return scale(A(atom('prod', tuple(sorted(x)))), c * d)
    la = [((i, 1),) for i, _ in a[1]]
    for i, c in a[1]:
        for j, d in b[1]:
            r = add(r, scale(mul(A(i), A(j)), c * d))
    if a[0]:
        r = add(r, scale((0, b[1]), a[0]))
    if b[0]:
        r = add(r, scale((0, a[1]), b[0]))
    return add(r, K(a[0] * b[0]))


def ext(v, off, w):
    """w bits of v from bit offset off"""
    i = single(v)
    if i is not None and off == 0 and RNG.get(i) == (0, 1):
        return v
    if i is not None and ATOMS[i][0] == 'cat':
        for o, pw, pv in ATOMS[i][1]:
            if o == off and pw == w:
                return pv
            if o <= off and off + w <= o + pw:
                return ext(pv, off - o, w)
    if i is not None and ATOMS[i][0] == 'ext' and off + w <= ATOMS[i][3]:
        return ext(ATOMS[i][1], ATOMS[i][2] + off, w)
    if isk(v):
        x = (v[0] >> off) & ((1 << w) - 1)
        if x >> (w - 1) and w > 1 and w != 8:
            x -= 1 << w
        return K(x)
    return mk('ext', v, off, w)


def show(a, depth=0):
    if not isterm(a):
        return str(a)
    if not a[1]:
        return str(a[0])
    s = []
    for i, c in a[1]:
        x = showatom(i, depth)
        s.append(x if c == 1 else '-' + x if c == -1 else '%d*%s' % (c, x))
    if a[0]:
        s.append(str(a[0]))
    return ' + '.join(s).replace('+ -', '- ')


def showatom(i, depth=0):
    t = ATOMS[i]
    if depth > 8:
        return '#%d' % i
    k = t[0]
    d = depth + 1
    if k == 'ld':
        lab, path, ver = t[1], t[2], t[3]
        v = "'%d" % ver if ver else ''
        own = show(path[0], d)
        ix = ''.join('[%s]' % show(x, d) for x in path[1:])
        lab = lab.split('.', 1)[-1] if '.' in lab else lab
        if '[]' in lab and ix:
            parts = lab.split('[]')
            o = ''
            q = list(path[1:])
            for n, p in enumerate(parts):
                o += p
                if n < len(parts) - 1:
                    o += '[%s]' % show(q.pop(0), d) if q else '[]'
            return '%s->%s%s' % (own, o, v)
        return '%s->%s%s%s' % (own, lab, ix, v)
    if k == 'arg':
        return 'arg%d' % t[1]
    if k == 'cmp':
        return '(%s %s 0)' % (show(t[2], d), '==' if t[1] == 'eq' else '<=')
    if k == 'n':
        return 'it' + str(t[1])

    def sh(x):
        if isterm(x):
            return show(x, d)
        if isinstance(x, tuple):
            return '(' + ','.join(sh(y) for y in x) + ')'
        return str(x)
    if k == 'prod':
        return '*'.join(show(x, d) for x in t[1])
    return k + '(' + ', '.join(sh(x) for x in t[1:]) + ')'
