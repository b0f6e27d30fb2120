"""Trace-partitioned abstract interpretation of the exported IR.

analyse(fn) gives the effect summary of a function: a finite set of traces,
each with the facts under which it is taken and the effects (stores, calls,
container operations, output, nested loop summaries) in order.  Loops are never
unrolled: a loop is summarised by one generic iteration (inferred induction
variables, havoc of what the loop may write, a finite partition over flags).
"""
import heapq
import json
import re
import sys
from terms import *

sys.setrecursionlimit(20000)


class Fork(Exception):
    def __init__(s, cond):
        s.cond = cond


class Imprecise(Exception):
    pass


class State:
    __slots__ = ('env', 'cells', 'log', 'facts', 'events', 'cnt', 'ctx', 'alts')

    def copy(s):
        r = State()
        r.alts = s.alts
        r.env = dict(s.env)
        r.cells = {k: dict(v) for k, v in s.cells.items()}
        r.log = dict(s.log)
        r.facts = s.facts.copy()
        r.events = s.events
        r.cnt = dict(s.cnt)
        r.ctx = s.ctx
        return r


class Out:
    """end of a path through a region"""
    __slots__ = ('kind', 'st', 'blk', 'prev', 'val', 'key', 'vals', 'moved')

    def __init__(s, kind, st, blk=None, prev=None, val=None):
        s.kind, s.st, s.blk, s.prev, s.val = kind, st, blk, prev, val
        s.key = None
        s.vals = None
        s.moved = ()


class LoopSum:
    __slots__ = ('refs', 'mode', 'phinit', 'tag', 'header', 'line', 'parts', 'init', 'mods', 'fn', 'silent', 'nvars', 'desc', 'step', 'L', 'interp', 'mk', 'uid', 'lm', 'ver0')
    count = 0

    def __init__(s):
        LoopSum.count += 1
        s.uid = LoopSum.count
        s.lm = None


class Trace:
    __slots__ = ('facts', 'events', 'ret', 'kind', 'line', 'alts')


STDOBJ = re.compile(r'(basic_string|basic_ofstream|basic_ifstream|basic_fstream|set|map|basic_stringstream|basic_ostringstream|basic_istringstream|unordered_\w+|_Rb_tree\w*|timeval|_List_iterator|_List_const_iterator|reverse_iterator|_Bit_iterator\w*|_Bit_reference)\b')


class Module:
    def __init__(s, path, tag):
        d = json.load(open(path))
        s.tag = tag
        s.types = d['types']
        s.globals = {g['name']: g for g in d['globals']}
        s.fns = {}
        s.byname = {}
        for f in d['functions']:
            s.fns[f['name']] = f
            if 'blocks' in f:
                f['bl'] = [{i['id']: i for i in b} for b in f['blocks']]
                s.byname.setdefault(f['sn'], []).append(f)
        s.byty = {}
        for k, t in enumerate(s.types):
            if t.get('m') is not None and t['n']:
                if t['n'] not in s.byty or len(t['m']) > len(s.types[s.byty[t['n']]]['m']):
                    s.byty[t['n']] = k

    # -- debug type helpers
    def tsize(s, t):
        if t < 0:
            return 1
        x = s.types[t]
        return x['s'] or 1

    def pointee(s, t):
        if t is None or t < 0:
            return None
        x = s.types[t]
        if x['t'] in ('DW_TAG_pointer_type', 'DW_TAG_reference_type', 'DW_TAG_rvalue_reference_type'):
            return x.get('b', -1)
        return None

    def isclass(s, t):
        return t is not None and t >= 0 and s.types[t].get('m') is not None

    def kind(s, t):
        """repo class / vec / list / std / scalar / ptr / arr"""
        if t is None or t < 0:
            return 'void'
        x = s.types[t]
        tg = x['t']
        if tg in ('DW_TAG_pointer_type', 'DW_TAG_reference_type', 'DW_TAG_rvalue_reference_type'):
            return 'ptr'
        if tg == 'DW_TAG_array_type':
            return 'arr'
        if x.get('m') is None:
            return 'scalar'
        n = x['n']
        if n.startswith('vector<bool'):
            return 'std'
        if n.startswith('vector<'):
            return 'vec'
        if n.startswith('list<'):
            return 'list'
        if STDOBJ.match(n):
            return 'std'
        return 'class'

    def leaves(s, t, pre=''):
        """[(offset, bits, suffix, type)] of the scalar leaves of type t"""
        k = s.kind(t)
        if k in ('scalar', 'ptr', 'void'):
            return [(0, s.tsize(t) * 8, pre, t)]
        if k == 'arr':
            b = s.types[t]['b']
            n = s.types[t]['s'] // s.tsize(b)
            r = []
            for j in range(n):
                for o, w, p, ty in s.leaves(b, ''):
                    r.append((o + j * s.tsize(b), w, (pre + '[]' + p, j), ty))
            return r
        if k == 'class':
            r = []
            for nm, off, ty in s.types[t]['m']:
                if nm == '<base>':
                    sub_ = s.leaves(ty, pre)
                else:
                    sub_ = s.leaves(ty, pre + '.' + nm)
                r += [(o + off, w, p, y) for o, w, p, y in sub_]
            return r
        return [(0, s.tsize(t) * 8, pre, t)]


ALINFO = {}
INJ = {'Formula.VARLIST[]', 'Formula.CLAUSELIST[]'}
# container labels whose elements are only ever appended: their old elements are immutable
APPEND = {'Formula.VARLIST[]', 'Formula.CLAUSELIST[]', 'Clause.ATOM_LIST[].VAR', 'Clause.ATOM_LIST[].VAL',
          'Clause.ATOM_LIST[].EQUAL', 'Variable.ATOMRECPOS[][]', 'Variable.ATOMRECNEG[][]'}
LABRNG = {'Variable.ATOMASSIGN[]': (-1, 1), 'Clause.LEVEL': (-1, INF), 'Variable.VAL': (-1, INF),
          'Variable.DOMAINSIZE': (0, INF), 'Formula.UNITCLAUSE': (-2, INF), 'Clause.NumUnAss': (0, INF)}
PURE = {'strcmp', 'strlen', 'strspn', 'atoi', 'strncmp', 'strcspn', 'strchr', 'strstr', 'strtol', 'atol', 'isdigit', 'isspace',
        'abs', 'pow', 'sqrt', 'floor', 'ceil', 'log2', 'log', 'llvm.abs.i32', 'llvm.fabs.f64', 'strrchr', 'stoi', 'isalpha',
        'llvm.smax.i32', 'llvm.smin.i32', 'llvm.umax.i64', 'llvm.umin.i64', 'llvm.pow.f64', 'llvm.sqrt.f64'}


def simp(dn):
    """demangled name without template arguments, return type and parameters"""
    s = dn
    for a, b in (('operator<<', 'operator@S'), ('operator>>', 'operator@R'), ('operator<=', 'operator@LE'), ('operator>=', 'operator@GE'),
                 ('operator->', 'operator@A'), ('operator<', 'operator@L'), ('operator>', 'operator@G'), ('operator()', 'operator@C')):
        s = s.replace(a, b)
    o, d = '', 0
    for c in s:
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            o += c
    k = o.find('(')
    if k > 0:
        o = o[:k]
    if ' ' in o.strip() and 'operator' not in o.split(' ')[0]:
        i = o.find('operator')
        if i >= 0:
            h = o[:i]
            o = h[h.rfind(' ') + 1:] + o[i:]
        else:
            o = o[o.rfind(' ') + 1:]
    for a, b in (('@S', '<<'), ('@R', '>>'), ('@LE', '<='), ('@GE', '>='), ('@A', '->'), ('@L', '<'), ('@G', '>'), ('@C', '()')):
        o = o.replace(a, b)
    return o.strip()


def same_facts(a, b):
    return a.sub == b.sub and a.itv == b.itv and a.neq == b.neq


def join_facts(fs):
    """the facts that hold in all of fs"""
    r = Facts()
    a = fs[0]
    lost = []
    for i, v in a.sub.items():
        if all(f.norm(A(i)) == f.norm(v) for f in fs[1:]):
            r.sub[i] = v
        else:
            lost.append((i, v))
    forms = {}
    for f in fs:
        for k in f.itv:
            forms[k] = 1
        for k in f.neq:
            forms[k] = 1
        for i, v in f.sub.items():
            if i in r.sub and r.sub[i] == v:
                continue
            if ATOMS[i][0] in ('cmp', 'and', 'or'):
                continue
            e = sub(A(i), v)
            if e[1]:
                forms[form(e)[0]] = 1
    for k in forms:
        e = r.norm((0, k))
        if not e[1]:
            continue
        lo, hi, ne = INF, -INF, None
        cs = set()
        for f in fs:
            t = f.norm(e)
            l, h = f.bounds(t) if t[1] else (t[0], t[0])
            lo, hi = min(lo, l), max(hi, h)
            if t[1]:
                k2, c2, s2 = form(t)
                n = frozenset(s2 * v + c2 for v in f.neq.get(k2, ()))
            else:
                n = None
                cs.add(t[0])
            if n is not None:
                ne = n if ne is None else ne & n
        try:
            if lo > -INF:
                r.add_le(sub(K(lo), e))
            if hi < INF:
                r.add_le(sub(e, K(hi)))
            for v in ne or ():
                if lo < v < hi and v not in cs:
                    r.add_ne(addk(e, -v))
        except Bad:
            pass
    return r


class Interp:
    MAXSTEPS = 400000
    MAXPART = 40

    def __init__(s, mod, assume=None, modsrc=None, budget=None):
        s.m = mod
        s.assume = assume or []        # list of fn(interp, fnjson, state) adding facts
        s.base = {}                    # atom id -> base info
        s.sums = {}                    # (function name, mode) -> traces
        s.mods = {}                    # short name -> (mods, refs)
        s.never = set()                # functions that never return
        s.modsrc = modsrc              # short name -> (mods, refs) given from outside
        s.progress = {}
        s.notes = []
        s.excl = False                 # a contract that leaves some inputs out
        s.ntag = 0
        s.ldconst = {}                 # label -> constant assumed
        s.f = s.L = s.loops = s.refs = s.alloc = s.blkloop = s.memo = None
        s.steps = 0
        s.selfcall = False
        s.frees = None                 # name -> {argument: conditions}: watch what is used after it was freed
        s.curln = None
        if budget:
            s.MAXSTEPS = budget

    # ------------------------------------------------------------ functions
    def analyse(s, f):
        key = f['name']
        if key in s.sums:
            return s.sums[key]
        s.sums[key] = None
        approx = (frozenset(), frozenset())
        for _ in range(4):
            s.progress[f['sn']] = approx
            tr, mods, refs = s.run_function(f)
            new = (frozenset(mods), frozenset(refs))
            if new == approx or not s.selfcall:
                break
            approx = new
        s.progress.pop(f['sn'], None)
        s.mods[f['sn']] = new
        s.sums[key] = tr
        if not any(x.kind == 'ret' for x in tr):
            s.never.add(f['sn'])
        return tr

    def modref(s, sn, f):
        if s.modsrc and sn in s.modsrc:
            return s.modsrc[sn]
        if sn in s.mods:
            return s.mods[sn]
        if sn in s.progress:
            s.selfcall = True
            return s.progress[sn]
        g = s.m.fns.get(f)
        if g is None or 'blocks' not in g:
            raise Imprecise('call to unknown function ' + sn)
        sv = s.save()
        s.analyse(g)
        s.restore(sv)
        return s.mods[sn]

    def save(s):
        return (s.f, s.L, s.loops, s.refs, s.steps, s.selfcall, s.alloc, s.notes, s.blkloop, s.memo)

    def restore(s, v):
        (s.f, s.L, s.loops, s.refs, s.steps, s.selfcall, s.alloc, s.notes, s.blkloop, s.memo) = v

    def setup(s, f):
        s.f = f
        s.refs = set()
        s.steps = 0
        s.selfcall = False
        s.alloc = {}
        s.memo = {}
        s.loops = {l['h']: l for l in f['loops']}
        for l in f['loops']:
            l['set'] = frozenset(l['b'])
        # innermost loop of a block
        s.blkloop = {}
        for l in sorted(f['loops'], key=lambda l: -len(l['b'])):
            for b in l['b']:
                s.blkloop[b] = l['h']

    def sigmap(s, f):
        """LLVM arg index -> (debug type, part) following the declared parameters"""
        r = {}
        pty = f.get('pty', [])[1:]
        k = 0
        args = f['args']
        if args and args[0].get('sret'):
            r[0] = (f['pty'][0], 'sret')
            k = 1
        for t in pty:
            kd = s.m.kind(t)
            if k >= len(args):
                break
            if kd in ('class', 'vec', 'list', 'std') and args[k]['ty'] != 'ptr':
                n = max(1, (s.m.tsize(t) + 7) // 8)
                for j in range(n):
                    r[k + j] = (t, j)
                k += n
            else:
                r[k] = (t, 'byval' if kd in ('class', 'vec', 'list', 'std') else None)
                k += 1
        return r

    def tyname(s, t):
        n = 0
        while t is not None and t >= 0 and s.m.pointee(t) is not None:
            t = s.m.pointee(t)
            n += 1
        return (s.m.types[t]['n'] if t is not None and t >= 0 else 'void') + '*' * n

    def argatom(s, k):
        f = s.f
        if '_args' not in f:
            sm = s.sigmap(f)
            r = []
            for j, a in enumerate(f['args']):
                t, part = sm.get(j, (None, None))
                r.append(atom('arg', j, (s.tyname(t) if t is not None else '?') + ('' if part is None else ':' + str(part))))
            f['_args'] = r
        return f['_args'][k]

    def entry(s, f):
        st = State()
        st.env, st.cells, st.log, st.events, st.cnt = {}, {}, {}, (), {}
        st.alts = ()
        st.facts = Facts()
        st.ctx = ('top', f['sn'])
        sm = s.sigmap(f)
        for k, a in enumerate(f['args']):
            i = s.argatom(k)
            t, part = sm.get(k, (None, None))
            if t is not None and a['ty'] == 'ptr':
                p = t if part in ('byval', 'sret') else s.m.pointee(t)
                s.setptr(i, p)
            elif t is not None and t >= 0 and s.m.types[t]['n'] == 'bool':
                RNG[i] = (0, 1)
            elif isinstance(part, int) and s.m.kind(t) == 'class':
                # a lone flag in this part of an object passed by value
                ms = [x for x in s.m.types[t]['m'] if 8 * part <= x[1] < 8 * part + 8]
                if len(ms) == 1 and ms[0][1] == 8 * part and s.m.types[ms[0][2]]['n'] == 'bool':
                    RNG[i] = (0, 1)
            elif t is not None and t >= 0:
                s.enumrng(i, t)
        for fn in s.assume:
            fn(s, f, st)
        return st

    def setptr(s, i, p):
        """debug info for pointer atom i with pointee type p"""
        if p is None:
            return
        if s.m.kind(p) == 'class':
            s.base[i] = ('obj', p)
        elif s.m.kind(p) in ('vec', 'list', 'std'):
            s.base[i] = ('cont', s.m.types[p]['n'].split('<')[0], p)
        else:
            n = s.m.types[p]['n'] if p >= 0 else ''
            s.base[i] = ('arr', (n or 'ptr') + '[]', (A(i),), p)

    def enumrng(s, i, t):
        x = s.m.types[t]
        if x.get('en'):
            v = [e[1] for e in x['en']]
            RNG[i] = (min(v), max(v))
        elif x['n'] == 'bool':
            RNG[i] = (0, 1)
        elif x['n'].startswith('unsigned') or x['n'] in ('size_t',):
            RNG.setdefault(i, (0, INF))

    def run_function(s, f):
        s.setup(f)
        st = s.entry(f)
        outs = s.run(st, 0, None, None)
        traces = []
        mods, refs = set(), s.refs
        for o in outs:
            t = Trace()
            t.facts, t.events, t.kind, t.alts = o.st.facts, o.st.events, o.kind, o.st.alts
            t.ret = o.st.facts.norm(o.val) if o.val is not None else None
            t.line = None
            traces.append(t)
            s.collect_mods(t.events, mods, refs)
        return traces, mods, refs

    def collect_mods(s, events, mods, refs):
        for e in events:
            if e[0] == 'st':
                mods.add(e[1])
            elif e[0] == 'loop':
                for outs in e[1].parts.values():
                    for o in outs:
                        s.collect_mods(o.st.events, mods, refs)
            elif e[0] == 'call':
                mods |= e[4]
                refs |= e[5]
            elif e[0] == 'cop':
                mods |= set(e[5])
            elif e[0] == 'out':
                mods.add('#out')

    # ------------------------------------------------------------ regions
    def run(s, st, blk, prev, L):
        """L: loop header being iterated (None at top level).  Returns Outs.

        Blocks are visited in topological order (loops are single nodes), so that
        paths that come back together in the same state are joined."""
        outs = []
        rpo = s.flow()[0]
        lset = s.loops[L]['set'] if L is not None else None
        pend = []          # states at the start of a block
        work = []          # states inside a block
        seq = 0

        class Push:
            def append(_, x):
                nonlocal seq
                if x[4]:
                    seq += 1
                    heapq.heappush(pend, (rpo[x[1]], seq, x))
                else:
                    work.append(x)
        push = Push()
        back = []
        start = True
        push.append((st, blk, prev, 0, True))
        while work or pend:
            if not work:
                q = [heapq.heappop(pend)[2]]
                blk = q[0][1]
                while pend and pend[0][2][1] == blk:
                    q.append(heapq.heappop(pend)[2])
                if L is not None and blk == L and not start:
                    back += q
                    continue
                if L is not None and blk not in lset:
                    for x in q:
                        outs.append(Out('exit', x[0], blk, x[2]))
                    continue
                if blk in s.loops and blk != L:
                    for x in s.joined(q, blk, True):
                        for o in s.summarise(blk, x[0], x[2]):
                            if o.kind == 'ret' or o.kind == 'noret':
                                outs.append(o)
                            else:
                                push.append((o.st, o.blk, o.prev, 0, True))
                    continue
                if start and prev is None:
                    start = False
                    work.append(q[0])
                else:
                    start = False
                    for x in q:
                        nv = {}
                        for i in s.f['blocks'][blk]:
                            if i['op'] != 'phi':
                                break
                            for b, v in i['in']:
                                if b == x[2]:
                                    nv[i['id']] = s.val(x[0], v)
                        x[0].env.update(nv)
                    work += s.joined(q, blk, False)
                continue
            st, blk, prev, pos, first = work.pop()
            bl = s.f['blocks'][blk]
            n = len(bl)
            while pos < n:
                i = bl[pos]
                s.steps += 1
                if s.steps > s.MAXSTEPS:
                    raise Imprecise('step budget exceeded in ' + s.f['sn'])
                op = i['op']
                if op == 'phi':
                    pos += 1
                    continue
                if op == 'br':
                    if len(i['sc']) == 1:
                        push.append((st, i['sc'][0], blk, 0, True))
                    else:
                        c = s.val(st, i['o'][0])
                        s.branch(st, c, i['sc'], blk, push)
                    break
                if op == 'switch':
                    c = s.val(st, i['o'][0])
                    st2 = st
                    for v, b in i['cs']:
                        x = st2.copy()
                        try:
                            x.facts.add_eq(addk(c, -v))
                            push.append((x, b, blk, 0, True))
                        except Bad:
                            pass
                    try:
                        x = st.copy()
                        for v, b in i['cs']:
                            x.facts.add_ne(addk(c, -v))
                        push.append((x, i['def'], blk, 0, True))
                    except Bad:
                        pass
                    break
                if op == 'ret':
                    outs.append(Out('ret', st, None, None, s.val(st, i['o'][0]) if i['o'] else None))
                    break
                if op == 'unreachable':
                    if pos == 0 and s.m.tag == 'S':
                        s.excl = True
                        break           # excluded by the contract
                    outs.append(Out('noret', st, i.get('ln')))
                    break
                try:
                    r = s.instr(st, i)
                except Fork as fk:
                    for tr in (True, False):
                        x = st.copy()
                        try:
                            x.facts.assume(fk.cond, tr)
                            push.append((x, blk, prev, pos, False))
                        except Bad:
                            pass
                    break
                if r == 'noret':
                    outs.append(Out('noret', st, i.get('ln')))
                    break
                pos += 1
                if op == 'invoke':
                    push.append((st, i['nx'], blk, 0, True))
                    break
        for x in s.joined(back, L, True):
            outs.append(Out('back', x[0], L, x[2]))
        return s.joinouts(outs)

    def flow(s):
        """(reverse postorder, live-in ids) of the current function"""
        f = s.f
        if '_flow' in f:
            return f['_flow']
        bl = f['blocks']
        succ = []
        for b in bl:
            i = b[-1]
            t = []
            if i['op'] == 'br':
                t = list(i['sc'])
            elif i['op'] == 'switch':
                t = [c[1] for c in i['cs']] + [i['def']]
            elif i['op'] == 'invoke':
                t = [i['nx']]
            succ.append(t)
        seen, order = set(), []
        # depth first, loop exits before loop bodies, so that a loop precedes what follows it
        hs = s.loops
        stack = [(0, iter(s.dfsorder(0, succ[0])))]
        seen.add(0)
        while stack:
            u, it = stack[-1]
            for v in it:
                if v not in seen:
                    seen.add(v)
                    stack.append((v, iter(s.dfsorder(v, succ[v]))))
                    break
            else:
                order.append(u)
                stack.pop()
        order.reverse()
        rpo = {b: k for k, b in enumerate(order)}
        for k in range(len(bl)):
            rpo.setdefault(k, len(bl) + k)
        # liveness of SSA values
        use, dfn, phiuse = [], [], {}
        for k, b in enumerate(bl):
            u, d = set(), set()
            for i in b:
                if i['op'] == 'phi':
                    for p, v in i['in']:
                        if v[0] == 'i':
                            phiuse.setdefault((p, k), set()).add(v[1])
                else:
                    for o in s.operands(i):
                        if o[0] == 'i' and o[1] not in d:
                            u.add(o[1])
                d.add(i['id'])
            use.append(u)
            dfn.append(d)
        live = [set(u) for u in use]
        ch = True
        while ch:
            ch = False
            for k in range(len(bl) - 1, -1, -1):
                o = set()
                for v in succ[k]:
                    o |= live[v] | phiuse.get((k, v), set())
                n = use[k] | (o - dfn[k])
                if n != live[k]:
                    live[k] = n
                    ch = True
        f['_flow'] = (rpo, live, phiuse)
        return f['_flow']

    def celllive(s):
        """block -> set of (alloca instruction id, byte) whose content may be read before it is written"""
        f = s.f
        if '_clive' in f:
            return f['_clive']
        bl = f['blocks']
        ptr = {}
        size = {}
        for b in bl:
            for i in b:
                if i['op'] == 'alloca':
                    ptr[i['id']] = (i['id'], 0)
                    size[i['id']] = i['sz']
        ch = True
        while ch:
            ch = False
            for b in bl:
                for i in b:
                    if i['id'] in ptr:
                        continue
                    if i['op'] == 'getelementptr' and i['ok'] and not i['vo'] and i['o'][0][0] == 'i' and i['o'][0][1] in ptr:
                        a, o = ptr[i['o'][0][1]]
                        ptr[i['id']] = (a, o + i['co'])
                        ch = True
                    elif i['op'] == 'bitcast' and i['o'][0][0] == 'i' and i['o'][0][1] in ptr:
                        ptr[i['id']] = ptr[i['o'][0][1]]
                        ch = True

        def acc(b):
            r = []
            for i in b:
                def P(o):
                    return ptr.get(o[1]) if o[0] == 'i' else None
                op = i['op']
                if op == 'load':
                    q = P(i['o'][0])
                    if q:
                        r.append(('u', q[0], q[1], q[1] + i['w'] // 8))
                    continue
                if op == 'store':
                    q = P(i['o'][0])
                    if q:
                        r.append(('u', q[0], 0, size[q[0]]))
                        r.append(('esc', q[0]))
                    q = P(i['o'][1])
                    if q:
                        r.append(('d', q[0], q[1], q[1] + i['sw'] // 8))
                    continue
                if op in ('getelementptr', 'bitcast') and i['id'] in ptr:
                    continue
                if op == 'call' and i.get('fn', '').startswith('llvm.lifetime'):
                    q = P(i['o'][1])
                    if q:
                        r.append(('d', q[0], 0, size[q[0]]))
                    continue
                if op == 'call' and i.get('fn', '').startswith('llvm.memcpy') and i['o'][2][0] == 'c':
                    q = P(i['o'][1])
                    n = i['o'][2][1]
                    if q:
                        r.append(('u', q[0], q[1], q[1] + n))
                    q = P(i['o'][0])
                    if q:
                        r.append(('d', q[0], q[1], q[1] + n))
                    continue
                ops = list(s.operands(i))
                if op == 'phi':
                    ops = [v for _, v in i['in']]
                for o in ops:
                    q = P(o)
                    if q:
                        r.append(('u', q[0], 0, size[q[0]]))
                        if op not in ('call', 'invoke', 'icmp'):
                            r.append(('esc', q[0]))
            return r
        accs = [acc(b) for b in bl]
        esc = {a[1] for r in accs for a in r if a[0] == 'esc'}
        succ = []
        for b in bl:
            i = b[-1]
            succ.append(list(i['sc']) if i['op'] == 'br' else [c[1] for c in i['cs']] + [i['def']] if i['op'] == 'switch' else [i['nx']] if i['op'] == 'invoke' else [])
        live = [frozenset()] * len(bl)
        ch = True
        while ch:
            ch = False
            for k in range(len(bl) - 1, -1, -1):
                o = set()
                for v in succ[k]:
                    o |= live[v]
                for a in reversed(accs[k]):
                    if a[0] == 'd':
                        o -= {(a[1], x) for x in range(a[2], a[3])}
                    elif a[0] == 'u':
                        o |= {(a[1], x) for x in range(a[2], a[3])}
                if o != live[k]:
                    live[k] = frozenset(o)
                    ch = True
        f['_clive'] = (live, esc, {atom(*s.alname({'id': a})): a for a in size})
        return f['_clive']

    def deadcell(s, blk, al, off, w):
        memo = s.f.setdefault('_dead', {})
        k = (blk, al, off, w)
        r = memo.get(k)
        if r is None:
            live, esc, ids = s.celllive()
            a = ids.get(al)
            r = memo[k] = False if a is None or a in esc else not any((a, x) in live[blk] for x in range(off, off + w // 8))
        return r

    def dfsorder(s, u, t):
        # visit successors outside the innermost loop of u first: they come later in the order
        h = s.blkloop.get(u)
        if h is None:
            return t
        ls = s.loops[h]['set']
        return [x for x in t if x not in ls] + [x for x in t if x in ls]

    def operands(s, i):
        for o in i.get('o', ()):
            yield o
        for o, k in i.get('vo', ()):
            yield o

    def fingerprint(s, x, blk, withprev):
        st = x[0]
        rpo, live, phiuse = s.flow()
        lv = live[blk]
        env = []
        for k in lv:
            v = st.env.get(k)
            if v is not None:
                env.append((k, v))
        if withprev:
            for i in s.f['blocks'][blk]:
                if i['op'] != 'phi':
                    break
                for b, v in i['in']:
                    if b == x[2]:
                        env.append(('p', i['id'], s.val(st, v)))
        else:
            for i in s.f['blocks'][blk]:
                if i['op'] != 'phi':
                    break
                env.append((i['id'], st.env.get(i['id'])))
        return s.statefp(st, env, blk)

    def statefp(s, st, env, blk=None):
        cells = []
        for a, c in st.cells.items():
            x = frozenset((o, e) for o, e in c.items() if o == '*' or blk is None or not s.deadcell(blk, a, o, e[0]))
            if x:
                cells.append((a, x))
        cells = frozenset(cells)
        log = frozenset(st.log.items())
        ev = tuple(('loop', e[1].uid) if e[0] == 'loop' else ('endloop', e[1].uid) if e[0] == 'endloop' else
                   e[:4] if e[0] == 'st' else e[:-1] for e in st.events)
        return (frozenset(env), cells, log, ev, frozenset(st.cnt.items()))

    def joined(s, q, blk, withprev):
        """states at the start of a block, the equal ones joined"""
        if len(q) < 2:
            return q
        g = {}
        for x in q:
            g.setdefault(s.fingerprint(x, blk, withprev), []).append(x)
        r = []
        for v in g.values():
            if len(v) > 1:
                v[0] = (s.joinst([x[0] for x in v]),) + v[0][1:]
            r.append(v[0])
        return r

    def joinst(s, sts):
        r = sts[0]
        fs = []
        for x in sts:
            if not any(same_facts(x.facts, y) for y in fs):
                fs.append(x.facts)
        ev = []
        for k, e in enumerate(r.events):
            if e[0] == 'loop':
                o = frozenset().union(*(x.events[k][2] for x in sts))
                e = ('loop', e[1], o)
            elif e[0] == 'st' and e[5] is not None and any(x.events[k][5] != e[5] for x in sts):
                e = e[:5] + (None,)
            ev.append(e)
        n = r.copy()
        n.events = tuple(ev)
        # what all of them have in common of earlier joins
        alts = [a for a in r.alts if all(any(a is b for b in x.alts) for x in sts[1:])]
        if len(fs) > 1:
            n.facts = join_facts(fs)
            nev = [k for k, e in enumerate(r.events) if e[0] == 'loop']
            alts.append(tuple((x.facts, tuple(a for a in x.alts if not any(a is b for b in alts)),
                               tuple((x.events[k][1].uid, x.events[k][2]) for k in nev)) for x in sts))
        n.alts = tuple(alts)
        return n

    def joinouts(s, outs):
        """returns with the same effects are one"""
        g = {}
        r = []
        for o in outs:
            if o.kind not in ('ret', 'noret'):
                r.append(o)
                continue
            fp = (o.kind, o.st.facts.norm(o.val) if o.val is not None else None) + s.statefp(o.st, [])[2:]
            g.setdefault(fp, []).append(o)
        for v in g.values():
            o = v[0]
            if len(v) > 1:
                o.st = s.joinst([x.st for x in v])
            r.append(o)
        return r


    def branch(s, st, c, sc, blk, work):
        t = st.facts.truth(c)
        if t is True:
            work.append((st, sc[0], blk, 0, True))
            return
        if t is False:
            work.append((st, sc[1], blk, 0, True))
            return
        # split composite conditions into their parts
        n = st.facts.norm(c)
        i = single(n)
        negd = False
        if i is None and len(n[1]) == 1 and n[1][0][1] == -1 and n[0] == 1:
            i, negd = n[1][0][0], True
        if i is not None and ATOMS[i][0] in ('and', 'or'):
            x = next((y for y in ATOMS[i][1:] if st.facts.truth(y) is None), None)
            if x is not None:
                for tr in (True, False):
                    y = st.copy()
                    try:
                        y.facts.assume(x, tr)
                        s.branch(y, c, sc, blk, work)
                    except Bad:
                        pass
                return
        for tr, b in ((False, sc[1]), (True, sc[0])):
            x = st.copy()
            try:
                x.facts.assume(c, tr)
                work.append((x, b, blk, 0, True))
            except Bad:
                pass

    # ------------------------------------------------------------ loops
    def summarise(s, h, st, prev):
        L = s.loops[h]
        if (h, s.f['name']) in s.progress_loops():
            raise Imprecise('irreducible loop')
        phis = [i for i in s.f['blocks'][h] if i['op'] == 'phi']
        init = {}
        for i in phis:
            for b, v in i['in']:
                if b == prev:
                    init[('p', i['id'])] = st.facts.norm(s.val(st, v))
        # locals in memory that the loop may write
        wr = s.loop_allocas(L)
        for a in list(st.cells):
            if a in wr:
                for off in [o for o, e in st.cells[a].items() if o != '*' and s.deadcell(h, a, o, e[0])]:
                    st.cells[a] = {o: e for o, e in st.cells[a].items() if o != off}
                for off, (w, v) in st.cells[a].items():
                    init[('c', a, off, w)] = st.facts.norm(v)
        s.ntag += 1
        tag = (s.m.tag, s.ntag)
        n = mk('n', tag)
        m = s.memo.get(h)
        if m:
            mode, mods, invs = dict(m), {}, []
        else:
            mode, mods, invs = {}, {}, []
            for i in phis:
                mode[('p', i['id'])] = s.guess_iv(i, L, prev)
        scanned = s.memo.get(('sc', h), ())
        for v in init:
            if v not in mode and v[0] == 'c' and v[1] in scanned:
                mode[v] = ('acc', 'phi', sum(1 for k in mode.values() if k[0] == 'acc'))
            mode.setdefault(v, ('inv',))
        mode = {v: k for v, k in mode.items() if v in init}
        invs = []
        triedinv = False
        bump = False
        refs0 = s.refs
        s.refs = set()
        for rnd in range(14):
            r = s.explore(h, L, st, tag, n, init, mode, mods, invs)
            if r[0] == 'retry':
                continue
            ls, firstback = r[1], r[2]
            if not triedinv:
                triedinv = True
                cand = s.bound_cands(ls, n, st, tag)
                if cand:
                    invs = cand
                    old = ls
                    continue
            break
        else:
            raise Imprecise('loop summary does not stabilise at %s:%s' % (s.f['sn'], L['ln']))
        s.memo[h] = mode
        ls.refs = frozenset(s.refs)
        s.refs |= refs0
        ls.mode = mode
        ls.phinit = init
        if not any(o.kind == 'back' for outs in ls.parts.values() for o in outs):
            # never repeats: not a loop for this entry state
            res = []
            for o in s.run_header(h, L, st, tag, init, mode, {}, [], ls.init, n, concrete=True):
                if o.kind == 'back':
                    raise Imprecise('loop shape')
                x = o.st
                x.events = st.events + x.events
                x.ctx = st.ctx
                res.append(Out(o.kind, x, o.blk, o.prev, o.val))
            return res
        s.find_silent(ls)
        res = []
        for key, outs in ls.parts.items():
            for k, o in enumerate(outs):
                if o.kind == 'back':
                    continue
                x = o.st.copy()
                x.events = st.events + (('loop', ls, frozenset([(key, k)])),) + o.st.events + (('endloop', ls),)
                x.ctx = st.ctx
                x.cnt = dict(st.cnt)
                x.cnt['loops'] = x.cnt.get('loops', 0) + 1
                res.append(Out(o.kind, x, o.blk, o.prev, o.val))
        return res

    def progress_loops(s):
        return ()

    def guess_iv(s, phi, L, prev):
        """mode of a phi from its update chain: invariant, induction, other"""
        defs = {}
        for b in L['b']:
            for i in s.f['blocks'][b]:
                defs[i['id']] = i
        steps = set()
        for b, v in phi['in']:
            if b not in L['set']:
                continue
            tot = 0
            x = v
            seen = 0
            while True:
                seen += 1
                if x[0] != 'i' or seen > 20:
                    return ('var',)
                if x[1] == phi['id']:
                    break
                d = defs.get(x[1])
                if d is None:
                    return ('var',)
                if d['op'] == 'add' and d['o'][1][0] == 'c':
                    tot += d['o'][1][1]
                    x = d['o'][0]
                elif d['op'] == 'sub' and d['o'][1][0] == 'c':
                    tot -= d['o'][1][1]
                    x = d['o'][0]
                elif d['op'] == 'getelementptr' and not d['vo']:
                    tot += d['co']
                    x = d['o'][0]
                elif d['op'] in ('sext', 'zext', 'trunc'):
                    x = d['o'][0]
                else:
                    return ('var',)
            steps.add(tot)
        if len(steps) != 1:
            return ('var',)
        k = steps.pop()
        return ('iv', k) if k else ('inv',)

    def loop_allocas(s, L):
        """allocas written in the loop"""
        r = set()
        sc = set()
        defs = {}
        for b in s.f['blocks']:
            for i in b:
                defs[i['id']] = i

        def root(o):
            seen = 0
            while o[0] == 'i' and seen < 30:
                seen += 1
                d = defs[o[1]]
                if d['op'] == 'alloca':
                    return atom(*s.alname(d))
                if d['op'] in ('getelementptr', 'bitcast'):
                    o = d['o'][0]
                elif d['op'] == 'phi':
                    return None
                else:
                    return None
            return None
        key = ('la', L['h'])
        if key in s.memo:
            return s.memo[key]
        for b in L['b']:
            for i in s.f['blocks'][b]:
                if i['op'] == 'store':
                    a = root(i['o'][1])
                    if a is not None:
                        r.add(a)
                elif i['op'] in ('call', 'invoke') and 'lifetime' not in i.get('fn', ''):
                    for o in i['o'][:1] if 'memcpy' in i.get('fn', '') else i['o']:
                        a = root(o)
                        if a is not None:
                            r.add(a)
                            if 'scanf' in i.get('fn', ''):
                                sc.add(a)
        s.memo[('sc', L['h'])] = sc
        s.memo[key] = r
        return r

    def header_state(s, h, L, st, tag, init, mode, mods, invs, key, n):
        x = st.copy()
        x.events = ()
        x.ctx = tag
        x.cnt = {k: v for k, v in st.cnt.items() if k == '#freed'}
        vals = {}
        for v, k in mode.items():
            if k[0] == 'inv':
                val = init[v]
            elif k[0] == 'iv':
                val = add(init[v], scale(n, k[1]))
            elif k[0] == 'acc':
                val = mk(k[1], tag, k[2])
                i = single(val)
                b = s.baseof(init[v], st)
                if b is not None and b in s.base and i not in s.base:
                    s.base[i] = s.base[b] if s.base[b][0] == 'obj' else s.base[b]
                if k[1] == 'acc' and len(k) > 3 and k[3] is not None:
                    try:
                        x.facts.add_le(scale(sub(init[v], val), k[3]))
                    except Bad:
                        pass
            else:
                val = key[v]
            vals[v] = val
            if v[0] == 'p':
                x.env[v[1]] = val
            else:
                x.cells[v[1]][v[2]] = (v[3], val)
        for lab, owners in mods.items():
            x.log[lab] = x.log.get(lab, ()) + (('hv', owners),)
        later = bool(mode) and tuple((v, key[v]) for v in mode if mode[v][0] == 'var') != tuple((v, init[v]) for v in mode if mode[v][0] == 'var')
        if invs and later:
            # this state is met only after a round
            try:
                x.facts.add_le(sub(ONE, n))
            except Bad:
                pass
        for e, first in invs:
            try:
                if first or later:
                    x.facts.add_le(e)
            except Bad:
                pass
        return x, vals

    def run_header(s, h, L, st, tag, init, mode, mods, invs, key, n, concrete=False):
        key = dict(key)
        if concrete:
            mode = {v: ('inv',) for v in mode}
        x, vals = s.header_state(h, L, st, tag, init, mode, mods, invs, key, n)
        if concrete:
            x.ctx = st.ctx
            x.cnt = dict(st.cnt)
        outs = s.run(x, h, None, h)
        return outs

    def explore(s, h, L, st, tag, n, init, mode, mods, invs):
        """one attempt: returns ('retry',) after weakening mode/mods, or ('ok', LoopSum, firstback)"""
        ls = LoopSum()
        ls.tag, ls.header, ls.line, ls.fn, ls.L = tag, h, L['ln'], s.f['sn'], L
        ls.parts = {}
        ls.mods = dict(mods)
        ls.ver0 = {lab: sum(1 for e in st.log.get(lab, ()) if e[0] == 'hv') for lab in mods}
        ls.silent = {}
        ls.interp = s
        ls.step = None
        nadd = add(n, ONE)
        varv = [v for v in mode if mode[v][0] == 'var']
        k0 = tuple((v, init[v]) for v in varv)
        ls.init = k0
        work = [k0]
        retry = False
        fixed = set()
        mode0 = dict(mode)
        mods0 = dict(mods)
        while work:
            key = work.pop(0)
            if key in ls.parts:
                continue
            if len(ls.parts) >= s.MAXPART:
                # too many abstract values: give up precision on all flags
                for j, v in enumerate(varv):
                    mode[v] = ('acc', 'phi', j)
                s.notes.append('loop at line %s: flag partition abandoned' % L['ln'])
                return ('retry',)
            x, vals = s.header_state(h, L, st, tag, init, mode, mods, invs, dict(key), n)
            outs = s.splitflags(h, s.run(x, h, None, h), varv)
            ls.parts[key] = outs
            for o in outs:
                if o.kind != 'back':
                    continue
                F = o.st.facts
                # effects
                em = {}
                s.ev_mods(o.st.events, em)
                for lab, ow in em.items():
                    ow = s.generalise_owner(ow, tag, mods, F)
                    cur = mods.get(lab, 'none')
                    if cur == 'none':
                        mods[lab] = ow
                        retry = True
                    elif cur is not None and (ow is None or not ow <= cur):
                        mods[lab] = None if ow is None else cur | ow
                        retry = True
                # variables
                nxt = {}
                o.vals = {}
                for v, k in mode0.items():
                    nv = s.nextval(h, o, v)
                    nv = F.norm(nv)
                    o.vals[v] = nv
                    if k[0] == 'inv':
                        if nv != F.norm(init[v]):
                            d = sub(nv, F.norm(init[v]))
                            if isk(d) and v[0] == 'c' and (mode[v] in (('inv',), ('iv', d[0]))) and v not in fixed:
                                mode[v] = ('iv', d[0])
                            else:
                                mode[v] = ('var',)
                            retry = True
                        else:
                            fixed.add(v)
                            if mode[v][0] == 'iv':
                                mode[v] = ('var',)
                    elif k[0] == 'iv':
                        want = F.norm(add(init[v], scale(nadd, k[1])))
                        if nv != want:
                            mode[v] = ('var',)
                            retry = True
                    elif k[0] == 'var':
                        old = F.norm(vals[v])
                        if nv == old:
                            nxt[v] = vals[v]
                        else:
                            nxt[v] = nv
                if retry:
                    continue
                if varv:
                    nk = s.nextkey(varv, nxt, vals, tag, mods, mode, init, o)
                    if nk is None:
                        retry = True
                        continue
                    o.key = nk
                    if nk not in ls.parts:
                        work.append(nk)
                else:
                    o.key = k0
            if retry:
                if mode != mode0:
                    # what is written is computed again once the variables are known
                    mods.clear()
                    mods.update(mods0)
                return ('retry',)
        return ('ok', ls, None)

    def nextval(s, h, o, v):
        """value of loop variable v at the end of a round"""
        if v[0] == 'p':
            i = next(y for y in s.f['blocks'][h] if y['id'] == v[1])
            nv = None
            for b, q in i['in']:
                if b == o.prev:
                    nv = s.val(o.st, q)
            return nv
        c = o.st.cells.get(v[1], {}).get(v[2])
        return c[1] if c and c[0] == v[3] else s.readcell(o.st, v[1], v[2], v[3])

    def splitflags(s, h, outs, varv):
        """a flag that takes the value of a condition: the two cases, as if it had been branched on"""
        r = []
        work = list(reversed(outs))
        while work:
            o = work.pop()
            if o.kind == 'back' and len(r) + len(work) < 60:
                for v in varv:
                    nv = o.st.facts.norm(s.nextval(h, o, v))
                    if len(nv[1]) == 1 and abs(nv[1][0][1]) == 1 and ATOMS[nv[1][0][0]][0] in ('cmp', 'fcmp', 'and', 'or', 'peq') and RNG.get(nv[1][0][0]) == (0, 1):
                        for tr in (False, True):
                            x = o.st.copy()
                            x.facts = x.facts.copy()
                            try:
                                x.facts.assume(A(nv[1][0][0]), tr)
                            except Bad:
                                continue
                            work.append(Out(o.kind, x, o.blk, o.prev, o.val))
                        break
                else:
                    r.append(o)
            else:
                r.append(o)
        return r

    def nextkey(s, varv, nxt, vals, tag, mods, mode, init, o):
        new = {}
        shapes = set()
        for v in varv:
            nv = nxt[v]
            if nv == vals[v]:
                new[v] = ('keep', nv)
                continue
            ats = atoms_in(nv)
            # refers to the variable's own generic value: an accumulator
            own = {i for i in ats if ATOMS[i][0] in ('prev',) and ATOMS[i][1] == tag}
            d = sub(nv, vals[v])
            selfref = bool(atoms_in(vals[v]) & ats & own) and not isk(vals[v])
            if isk(d) and isk(vals[v]) and isk(nv) and abs(nv[0] - (init[v][0] if isk(init[v]) else 0)) > 2 and s.consthist(v, nv, tag):
                selfref = True
            if isk(d) and d[0] and not isk(vals[v]) and single(nv) is None:
                selfref = True
            if single(nv) is not None and ATOMS[single(nv)][0] == 'prev':
                selfref = False
            if selfref:
                s.make_acc(v, mode, d, vals[v], nv)
                return None
            if v[0] == 'c' and any(ATOMS[i][0] == 'outp' for i in ats):
                # filled in by a library call: nothing is known about it
                mode[v] = ('acc', 'phi', sum(1 for k in mode.values() if k[0] == 'acc'))
                return None
            if s.variant(nv, tag, mods):
                i = single(nv)
                if i is not None and ATOMS[i][0] == 'prev' and ATOMS[i][1] == tag:
                    new[v] = ('old', nv)
                else:
                    if sum(1 for a in own if True) > 2 or depth(nv) > 14:
                        s.make_acc(v, mode, d, vals[v], nv)
                        return None
                    if any(ATOMS[a][0] in ('acc', 'chain', 'phi') and isinstance(ATOMS[a][1], tuple) and ATOMS[a][1][1] > tag[1] for a in ats) and \
                            any(ATOMS[a][0] == 'prev' and ATOMS[a][1] == tag for a in atoms_in(vals[v])):
                        # counted by an inner loop, once more every time round
                        mode[v] = ('acc', 'phi', sum(1 for k in mode.values() if k[0] == 'acc'))
                        return None
                    new[v] = ('new', nv)
                    shapes.add(nv)
            else:
                new[v] = ('keep', nv)
        key = []
        for v in varv:
            k, nv = new[v]
            if k == 'new':
                a = atom('prev', tag, nv, 0)
                if a not in s.base:
                    b = s.baseof(nv, None)
                    if b is not None and s.base.get(b, ('',))[0] == 'obj':
                        s.base[a] = s.base[b]
                j = single(nv)
                if j is not None and j in RNG:
                    RNG[a] = RNG[j]
                nv = A(a)
            else:
                i = single(nv)
                if i is not None and ATOMS[i][0] == 'prev' and ATOMS[i][1] == tag and ATOMS[i][2] in shapes and ATOMS[i][3] < 2:
                    a = atom('prev', tag, ATOMS[i][2], ATOMS[i][3] + 1)
                    if i in RNG:
                        RNG[a] = RNG[i]
                    if i in s.base:
                        s.base[a] = s.base[i]
                    nv = A(a)
            key.append((v, nv))
        return tuple(key)

    def consthist(s, v, nv, tag):
        return True

    def make_acc(s, v, mode, d, old, nv):
        cnt = sum(1 for k in mode.values() if k[0] == 'acc')
        if isk(d):
            mode[v] = ('acc', 'acc', cnt, 1 if d[0] > 0 else -1)
        else:
            mode[v] = ('acc', 'chain', cnt)

    def variant(s, t, tag, mods):
        for i in atoms_in(t):
            a = ATOMS[i]
            k = a[0]
            if k in ('n', 'prev', 'acc', 'chain', 'phi') and len(a) > 1:
                if a[1] == tag or (isinstance(a[1], tuple) and a[1][1] > tag[1]):
                    return True
            elif k in ('res', 'new', 'outp', 'rnd'):
                if tag in a or any(isinstance(y, tuple) and len(y) == 2 and y[0] == tag[0] and isinstance(y[1], int) and y[1] > tag[1] for y in a[1:]):
                    return True
            elif k == 'ld' and a[1] in mods and a[3] > 0:
                return True
            elif k in ('lfront', 'lempty', 'lsize', 'lback') and a[1] + '#list' in mods and a[3] > 0:
                return True
        return False

    def generalise_owner(s, owners, tag, mods, F):
        if owners is None:
            return None
        r = set()
        for o in owners:
            if s.variant(o, tag, mods):
                return None
            r.add(o)
        return frozenset(r)

    def ev_mods(s, events, em):
        def put(lab, owner):
            if owner is None or (lab in em and em[lab] is None):
                em[lab] = None
            else:
                em[lab] = em.get(lab, frozenset()) | {owner}
        for e in events:
            if e[0] == 'st':
                put(e[1], e[2][0])
            elif e[0] == 'call':
                for lab in e[4]:
                    if not lab.startswith('#'):
                        put(lab, None)
            elif e[0] == 'cop':
                for lab in e[5]:
                    put(lab, e[3][0])
            elif e[0] == 'loop':
                for lab, ow in e[1].mods.items():
                    if ow is None:
                        put(lab, None)
                    else:
                        for o in ow:
                            put(lab, o)

    def bound_cands(s, ls, n, st, tag):
        """loop-invariant bounds n <= E, proposed from the conditions of the repeating paths"""
        ni = single(n)
        backs = [o for outs in ls.parts.values() for o in outs if o.kind == 'back']
        if not backs:
            return []
        cand = None
        for o in backs:
            F = o.st.facts
            c = set()
            for f, (lo, hi) in F.itv.items():
                co = dict(f).get(ni)
                if co is None:
                    continue
                rest = tuple((i, k) for i, k in f if i != ni)
                if s.variant((0, rest), tag, ls.mods):
                    continue
                # co*n + rest in [lo,hi]
                if co > 0 and hi < INF:
                    c.add((-hi - co, f))        # co*(n) + rest - hi - co <= 0
                if co < 0 and lo > -INF:
                    c.add((lo + co, tuple((i, -k) for i, k in f)))
            for f, vs in F.neq.items():
                co = dict(f).get(ni)
                if co not in (1, -1):
                    continue
                rest = tuple((i, k) for i, k in f if i != ni)
                if s.variant((0, rest), tag, ls.mods):
                    continue
                for v in vs:
                    e = (-v, f)
                    if co < 0:
                        e = neg(e)
                    c.add(e)                    # n - E <= 0
            cand = c if cand is None else cand & c
        r = []
        for e in cand or ():
            # holds at entry (n = 0)
            e0 = add(e, scale(n, dict(e[1])[ni]), -1)
            r.append((e, bool(st.facts.decide('le', e0))))
        return r if any(b for _, b in r) or r and len(ls.parts) > 1 else []

    def moves(s, ls, key, o):
        """the variables of the loop this round changes (other than its counters, and flags)"""
        if o.kind != 'back':
            return ()
        was, now = dict(key), dict(o.key)
        r = []
        for v, k in ls.mode.items():
            if v not in o.vals:
                continue
            if k[0] == 'acc':
                if o.vals[v] != mk(k[1], ls.tag, k[2]):
                    r.append(v)
            elif k[0] == 'var' and v in now and v in was and o.vals[v] != o.st.facts.norm(was[v]) and \
                    any(ATOMS[a][0] == 'prev' for a in atoms_in(now[v])):
                r.append(v)
        return tuple(r)

    def find_silent(s, ls):
        """partitions in which nothing observable happens any more and no variable changes"""
        for key in ls.parts:
            for o in ls.parts[key]:
                o.moved = s.moves(ls, key, o)
        sil = set(ls.parts)
        ch = True
        while ch:
            ch = False
            for key in list(sil):
                for o in ls.parts[key]:
                    if any(e[0] != 'endloop' for e in o.st.events) or o.kind not in ('back', 'exit') or (o.kind == 'back' and (o.key not in sil or o.moved)):
                        sil.discard(key)
                        ch = True
                        break
        ls.silent = sil

    # ------------------------------------------------------------ values
    def val(s, st, o):
        k = o[0]
        if k == 'i':
            return st.env[o[1]]
        if k == 'c':
            return K(o[1])
        if k == 'a':
            return A(s.argatom(o[1]))
        if k == 'n':
            return ZERO
        if k == 'f':
            return fconst(float(o[1]))
        if k == 'u':
            return mk('undef')
        if k == 'z':
            return ZERO
        if k == 'g':
            g = s.m.globals.get(o[1])
            if g is not None and g.get('const') and g.get('str') is not None:
                txt = g['str']
                if txt.endswith('\0'):
                    txt = txt[:-1]
                i = atom('str', txt)
                s.base.setdefault(i, ('arr', 'str[]', (A(i),), -1))
            else:
                i = atom('g', o[1])
                if i not in s.base and g is not None and g.get('di') is not None and g['di'] >= 0:
                    t = g['di']
                    if s.m.kind(t) == 'class':
                        s.base[i] = ('obj', t)
                    elif s.m.kind(t) in ('vec', 'list', 'std'):
                        s.base[i] = ('cont', 'G', t)
                    else:
                        s.base[i] = ('gcell', g.get('var', o[1]), t)
            return addk(A(i), o[2])
        return mk('opaque', str(o))

    def alname(s, i):
        return ('al', s.m.tag, s.f['name'], i['id'])

    def baseof(s, p, st):
        for i, c in p[1]:
            if c == 1 and i in s.base:
                return i
        return None

    # decode: pointer -> place
    def decode(s, st, p, hint=None):
        p = st.facts.norm(p)
        b = None
        for i, c in p[1]:
            if c == 1 and i in s.base:
                b = i
                break
        if b is None:
            if isk(p):
                raise Imprecise('null dereference')
            # a fresh object typed by its use
            for i, c in p[1]:
                if c == 1 and ATOMS[i][0] in ('new', 'res', 'undef', 'ld', 'opaque', 'prev', 'ext', 'own', 'phi', 'chain') and hint is not None:
                    t = s.m.byty.get(hint)
                    if t is not None:
                        s.base[i] = ('obj', t)
                        b = i
                        break
            if b is None:
                for i, c in p[1]:
                    if c == 1 and ATOMS[i][0] == 'new':
                        s.base[i] = ('arr', 'new[]', (A(i),), -2)
                        b = i
                        break
            if b is None:
                for i, c in p[1]:
                    if c != 1 or ATOMS[i][0] not in ('prev', 'phi', 'chain', 'ld', 'undef', 'ext', 'res', 'own', 'outp', 'opaque'):
                        continue
                    t = ATOMS[i]
                    lab, et = 'raw[]', -2
                    if t[0] == 'prev':
                        q = s.baseof(t[2], st)
                        if q is not None and s.base[q][0] == 'arr':
                            lab, et = s.base[q][1], s.base[q][3]
                    elif t[0] == 'ld' and (t[1].startswith('new[]') or t[1].startswith('raw[]')):
                        lab = t[1] + '[]'
                    s.base[i] = ('arr', lab, (A(i),), et)
                    b = i
                    break
            if b is None:
                raise Imprecise('cannot resolve pointer ' + show(p))
        rest = sub(p, A(b))
        info = s.base[b]
        if info[0] == 'cell':
            if not isk(rest):
                raise Imprecise('indexed scalar local')
            return ('cell', b, rest[0])
        if info[0] == 'obj':
            t = info[1]
            sz = s.m.tsize(t)
            q = None
            if isk(rest) and not 0 <= rest[0] < sz:
                # element of an array of objects
                q, r = rest[0] // sz, rest[0] % sz
                return s.walk(st, t, K(r), s.m.types[t]['n'], (A(b), K(q)))
            if not isk(rest):
                # the same with an index: a multiple of the size of the objects
                r = rest[0] % sz
                q = divk(addk(rest, -r), sz)
                if q is not None:
                    return s.walk(st, t, K(r), s.m.types[t]['n'], (A(b), q))
            return s.walk(st, t, rest, s.m.types[t]['n'], (A(b),))
        if info[0] == 'cont':
            return s.walk(st, info[2], rest, 'L:' + info[1], (A(b),))
        if info[0] == 'gcell':
            t = info[2]
            return s.walk(st, t, rest, 'G:' + info[1], (A(b),))
        # arr
        lab, path, et = info[1:4]
        if len(info) > 4:
            rest = addk(rest, -info[4])
        if et == -2:
            return ('mem', lab, path + (rest,), -1)
        esz = s.m.tsize(et)
        r = rest[0] % esz
        idx = divk(addk(rest, -r), esz)
        if idx is None:
            raise Imprecise('odd offset ' + show(rest))
        return s.walk(st, et, K(r), lab, path + (idx,))

    def walk(s, st, t, off, lab, path):
        m = s.m
        while True:
            k = m.kind(t)
            if k in ('scalar', 'ptr', 'void'):
                return ('mem', lab, path, t)
            if k == 'vec':
                if not isk(off):
                    raise Imprecise('offset in vector')
                return ('vec', lab, path, t, off[0])
            if k in ('list', 'std'):
                return ('obj', lab, path, t, off)
            if k == 'arr':
                b = m.types[t]['b']
                esz = m.tsize(b)
                r = off[0] % esz
                idx = divk(addk(off, -r), esz)
                if idx is None:
                    raise Imprecise('odd offset')
                lab, path, t, off = lab + '[]', path + (idx,), b, K(r)
                continue
            # class: find the member
            c = off[0]
            best = None
            for nm, mo, ty in m.types[t]['m']:
                if nm == '<base>' and not m.types[ty].get('m'):
                    continue
                if mo <= c < mo + m.tsize(ty) or (not isk(off) and mo <= c and m.kind(ty) == 'arr'):
                    best = (nm, mo, ty)
                    if isk(off):
                        break
            if best is None:
                raise Imprecise('no member at %s of %s' % (c, m.types[t]['n']))
            nm, mo, ty = best
            if nm != '<base>':
                lab = lab + '.' + nm
            t, off = ty, addk(off, -mo)

    # distinctness of two places of the same label
    def cmp_owner(s, st, a, b):
        """'same', 'diff' or a term that is zero iff same"""
        F = st.facts
        a, b = F.norm(a), F.norm(b)
        if a == b:
            return 'same'
        i, j = single(a), single(b)
        if i is None or j is None:
            return 'diff'
        x, y = ATOMS[i], ATOMS[j]
        if x[0] == 'ld' and y[0] == 'ld' and x[1] == y[1] and x[1] in INJ and len(x[2]) == len(y[2]):
            if s.cmp_owner(st, x[2][0], y[2][0]) != 'same':
                return 'diff'
            d = F.decide('eq', sub(x[2][1], y[2][1]))
            if d is True:
                return 'same'
            if d is False:
                return 'diff'
            return sub(x[2][1], y[2][1])
        return 'diff'

    def cmp_path(s, st, p, q):
        if len(p) != len(q):
            # the first of an array of objects goes without its index
            if len(p) + 1 == len(q):
                p = (p[0], ZERO) + p[1:]
            elif len(q) + 1 == len(p):
                q = (q[0], ZERO) + q[1:]
            else:
                return 'diff'
        r = s.cmp_owner(st, p[0], q[0])
        if r == 'diff':
            return 'diff'
        unk = r if r != 'same' else None
        for a, b in zip(p[1:], q[1:]):
            d = st.facts.decide('eq', sub(a, b))
            if d is False:
                return 'diff'
            if d is None and unk is None:
                unk = sub(a, b)
        return 'same' if unk is None else unk

    def load(s, st, lab, path, ty):
        """value at a labelled place"""
        s.refs.add(lab)
        F = st.facts
        path = tuple(F.norm(x) for x in path)
        if s.frees is not None and path:
            s.used(st, path[0], 'reads ' + lab)
        ent = st.log.get(lab, ())
        for k in range(len(ent) - 1, -1, -1):
            e = ent[k]
            if e[0] == 'st':
                c = s.cmp_path(st, e[1], path)
                if c == 'same':
                    return F.norm(e[2])
                if c == 'diff':
                    continue
                raise Fork(mkcmp('eq', F.norm(c)))
            if s.hv_hits(st, e, path):
                ver = sum(1 for q in ent[:k + 1] if q[0] == 'hv' and s.hv_hits(st, q, path))
                return s.ldatom(st, lab, path, ver, ty)
        return s.ldatom(st, lab, path, 0, ty)

    def hv_hits(s, st, e, path):
        if e[1] is None:
            return True
        return any(s.cmp_owner(st, o, path[0]) != 'diff' for o in e[1])

    def ldatom(s, st, lab, path, ver, ty):
        if lab in APPEND:
            ver = 0
        if lab in s.ldconst:
            return s.ldconst[lab]
        a = atom('ld', lab, path, ver)
        if a not in RNG:
            if lab in LABRNG:
                RNG[a] = LABRNG[lab]
            elif lab.endswith('#size'):
                RNG[a] = (0, INF)
            elif ty is not None and ty >= 0:
                s.enumrng(a, ty)
        if a not in s.base and ty is not None and ty >= 0 and s.m.kind(ty) == 'ptr':
            p = s.m.pointee(ty)
            if s.m.kind(p) == 'class':
                s.base[a] = ('obj', p)
            else:
                s.base[a] = ('arr', lab + '[]', path, p)
        return st.facts.norm(A(a))

    def store(s, st, lab, path, v, ln=None, quiet=False):
        F = st.facts
        path = tuple(F.norm(x) for x in path)
        if s.frees is not None and path:
            s.used(st, path[0], 'writes ' + lab)
        v = F.norm(v)
        i = single(v)
        if i is not None and ATOMS[i][0] == 'new' and i not in F.sub:
            # an object that gets its home: named by it from now on
            a = atom('own', lab, path, ATOMS[i][2])
            if i in s.base and s.base[i][0] == 'obj':
                s.base[a] = s.base[i]
                v2 = None
            elif i not in s.base:
                s.base[a] = ('arr', lab + '[]', path, -3)
        old = None if quiet else s.peek(st, lab, path)
        ent = st.log.get(lab, ())
        if ent and ent[-1][0] == 'st' and s.cmp_path(st, ent[-1][1], path) == 'same':
            ent = ent[:-1]
        st.log[lab] = ent + (('st', path, v),)
        if not quiet:
            st.events = st.events + (('st', lab, path, v, ln, old),)

    # use after release (only when s.frees is set)
    def used(s, st, t, what):
        for x, ln, by in st.cnt.get('#freed', ()):
            if st.facts.norm(x) == t:
                e = ('uaf', what, t, ln, by, s.curln)
                if e not in st.events:
                    st.events = st.events + (e,)
                return

    def free(s, st, t, ln, by):
        t = st.facts.norm(t)
        if t != ZERO and isterm(t):
            s.used(st, t, 'frees again')
            st.cnt['#freed'] = st.cnt.get('#freed', ()) + ((t, ln, by),)
            st.events = st.events + (('freed', t, ln, by),)

    def callfrees(s, st, rn, args, ln):
        for a in args:
            if isterm(a):
                s.used(st, st.facts.norm(a), 'passes to %s' % rn)
        for k, conds in s.frees.get(rn, {}).items():
            for c in conds:
                # the callee frees the argument when its other arguments have these values
                if all(i < len(args) and (v is None or st.facts.norm(args[i])[1] or st.facts.norm(args[i])[0] in v) for i, v in c.items()):
                    s.free(st, args[k], ln, rn)
                    break

    def peek(s, st, lab, path):
        """the value at a place, None when that depends on aliasing"""
        ent = st.log.get(lab, ())
        for k in range(len(ent) - 1, -1, -1):
            e = ent[k]
            if e[0] == 'st':
                c = s.cmp_path(st, e[1], path)
                if c == 'same':
                    return st.facts.norm(e[2])
                if c != 'diff':
                    return None
            elif s.hv_hits(st, e, path):
                ver = sum(1 for q in ent[:k + 1] if q[0] == 'hv' and s.hv_hits(st, q, path))
                return s.ldatom(st, lab, path, ver, None)
        return s.ldatom(st, lab, path, 0, None)

    # vector parts
    def vecsize(s, st, lab, path):
        return s.load(st, lab + '#size', path, None)

    def vbuf(s, lab, path, t):
        a = atom('vbuf', lab, path)
        if a not in s.base:
            s.base[a] = ('arr', lab + '[]', path, s.m.types[t]['tp'][0])
        return A(a)

    def readplace(s, st, pl, w, ty=None):
        if pl[0] == 'cell':
            return s.readcell(st, pl[1], pl[2], w)
        if pl[0] == 'mem':
            return s.load(st, pl[1], pl[2], pl[3])
        if pl[0] == 'vec':
            _, lab, path, t, off = pl
            path = tuple(st.facts.norm(x) for x in path)
            if off == 0:
                return s.vbuf(lab, path, t)
            if off == 8:
                return add(s.vbuf(lab, path, t), scale(s.vecsize(st, lab, path), s.m.tsize(s.m.types[t]['tp'][0])))
            return mk('cap', lab, path)
        if pl[0] == 'obj':
            return s.load(st, pl[1] + '@', pl[2] + (pl[4],), None)
        raise Imprecise('read of ' + str(pl[0]))

    def readcell(s, st, al, off, w):
        c = st.cells.setdefault(al, {})
        e = c.get(off)
        if e is not None and e[0] == w:
            return e[1]
        for o, (cw, v) in c.items():
            if o == '*':
                continue
            if o <= off and off + w // 8 <= o + cw // 8 and w <= cw:
                return st.facts.norm(ext(v, (off - o) * 8, w))
        parts = sorted((o, cw, v) for o, (cw, v) in c.items() if o != '*' and off <= o and o * 8 + cw <= off * 8 + w)
        if parts:
            if len(parts) == 1 and parts[0][0] == off:
                return parts[0][2]
            return mk('cat', tuple(((o - off) * 8, cw, v) for o, cw, v in parts))
        if '*' in c:
            a = atom('ext', A(c['*'][1]), off * 8, w) if c['*'][0] == 'atom' else None
            if a is not None:
                return A(a)
        return mk('undef')

    def writecell(s, st, al, off, w, v):
        c = st.cells.setdefault(al, {})
        end = off * 8 + w
        for o in list(c):
            if o == '*':
                continue
            cw = c[o][0]
            if o * 8 < end and o * 8 + cw > off * 8 and not (o == off and cw == w):
                if off * 8 <= o * 8 and o * 8 + cw <= end:
                    del c[o]
                else:
                    # split the old cell
                    ov = c.pop(o)[1]
                    if o < off:
                        c[o] = ((off - o) * 8, ext(ov, 0, (off - o) * 8))
                    if o * 8 + cw > end:
                        c[end // 8] = (o * 8 + cw - end, ext(ov, end - o * 8, o * 8 + cw - end))
        c[off] = (w, v)

    # ------------------------------------------------------------ instructions
    def instr(s, st, i):
        op = i['op']
        F = st.facts
        if s.frees is not None:
            s.curln = i.get('iln') or i.get('ln')
        if op == 'getelementptr':
            if not i['ok']:
                raise Imprecise('gep')
            p = addk(s.val(st, i['o'][0]), i['co'])
            for o, k in i['vo']:
                p = add(p, scale(F.norm(s.val(st, o)), k))
            st.env[i['id']] = p
            s.hint(st, i, s.val(st, i['o'][0]))
            return
        if op == 'load':
            p = s.val(st, i['o'][0])
            st.env[i['id']] = s.do_load(st, p, i['w'], i)
            return
        if op == 'store':
            v = s.val(st, i['o'][0])
            p = s.val(st, i['o'][1])
            s.nonnull(st, p)
            pl = s.decode(st, p)
            s.do_store(st, pl, i['sw'], v, i)
            return
        if op == 'alloca':
            a = atom(*s.alname(i))
            st.env[i['id']] = A(a)
            ALINFO[a] = (i.get('var', ''), i['ty'], i['id'])
            if a not in s.base:
                t = i.get('di')
                ty = i['ty']
                if s.cellish(ty) or ((t is None or t < 0) and 0 < i['sz'] <= 16 and ty.startswith('class.std::')) or (t is not None and t >= 0 and s.cellish(s.m.types[t]['n'])):
                    s.base[a] = ('cell',)
                elif t is not None and s.m.kind(t) in ('vec', 'list', 'std'):
                    s.base[a] = ('cont', s.m.types[t]['n'].split('<')[0], t)
                elif t is not None and s.m.kind(t) == 'class' and s.m.tsize(t) > 16:
                    s.base[a] = ('obj', t)
                elif t is not None and s.m.kind(t) == 'arr':
                    s.base[a] = ('arr', 'L[]', (A(a),), s.m.types[t]['b'])
                elif ty.startswith('class.std::') or ty.startswith('struct.std::'):
                    n = ty.split('std::', 1)[1]
                    tt = s.m.byty.get(n)
                    if n.startswith('_Bit') or n.startswith('_List_') or n.startswith('_Rb') or n.startswith('reverse_it') or s.cellish(ty):
                        s.base[a] = ('cell',)
                    else:
                        s.base[a] = ('cont', n, tt) if tt is not None else ('cell',)
                else:
                    s.base[a] = ('cell',)
            return
        if op in ('sext', 'zext', 'bitcast', 'ptrtoint', 'inttoptr', 'fpext', 'fptrunc', 'freeze', 'addrspacecast'):
            v = F.norm(s.val(st, i['o'][0]))
            st.env[i['id']] = v
            return
        if op == 'trunc':
            v = F.norm(s.val(st, i['o'][0]))
            if i['w'] == 1:
                if isk(v):
                    v = K(v[0] & 1)
                else:
                    x = single(v)
                    if x is not None:
                        if RNG.get(x) != (0, 1):
                            if ATOMS[x][0] in ('ext', 'ld', 'res', 'prev', 'phi', 'acc', 'undef'):
                                RNG[x] = (0, 1)
                                F._dirty()
                            else:
                                v = mk('bit0', v)
                                RNG[single(v)] = (0, 1)
            elif i['w'] == 8 and isk(v):
                v = K(((v[0] + 128) & 255) - 128)
            st.env[i['id']] = v
            return
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            a, b = F.norm(s.val(st, i['o'][0])), F.norm(s.val(st, i['o'][1]))
            st.env[i['id']] = s.arith(op, a, b, i['w'], st)
            return
        if op == 'icmp':
            a, b = F.norm(s.val(st, i['o'][0])), F.norm(s.val(st, i['o'][1]))
            pr = i['pr']
            d = sub(a, b)
            if pr in ('eq', 'ne'):
                t = mkcmp('eq', d) if not i.get('op_p') else s.ptreq(st, a, b)
                r = t if pr == 'eq' else sub(ONE, t)
            else:
                if pr[1:] == 'lt':
                    r = mkcmp('le', addk(d, 1))
                elif pr[1:] == 'le':
                    r = mkcmp('le', d)
                elif pr[1:] == 'gt':
                    r = sub(ONE, mkcmp('le', d))
                else:
                    r = sub(ONE, mkcmp('le', addk(d, 1)))
            t = F.truth(r)
            st.env[i['id']] = ONE if t is True else ZERO if t is False else r
            return
        if op == 'fcmp':
            a, b = F.norm(s.val(st, i['o'][0])), F.norm(s.val(st, i['o'][1]))
            pr = i['pr'][1:]
            if pr in ('eq', 'ne'):
                x, y = sorted((a, b))
                r = ONE if a == b else fk('eq', x, y)
                if pr == 'ne':
                    r = sub(ONE, r)
            elif pr == 'lt':
                r = fk('lt', a, b)
            elif pr == 'gt':
                r = fk('lt', b, a)
            elif pr == 'le':
                r = sub(ONE, fk('lt', b, a))
            elif pr == 'ge':
                r = sub(ONE, fk('lt', a, b))
            else:
                r = mk('opaque', pr, a, b)
            r = F.norm(r)
            st.env[i['id']] = r
            return
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'frem'):
            v = [F.norm(s.val(st, o)) for o in i['o']]
            st.env[i['id']] = farith(op, v)
            return
        if op in ('sitofp', 'uitofp'):
            v = F.norm(s.val(st, i['o'][0]))
            st.env[i['id']] = fconst(float(v[0])) if isk(v) else mk('i2f', v)
            return
        if op in ('fptosi', 'fptoui'):
            v = F.norm(s.val(st, i['o'][0]))
            j = single(v)
            if j is not None and ATOMS[j][0] == 'fc':
                st.env[i['id']] = K(int(ATOMS[j][1]))
            elif j is not None and ATOMS[j][0] == 'i2f':
                st.env[i['id']] = ATOMS[j][1]
            else:
                st.env[i['id']] = mk('f2i', v)
            return
        if op == 'select':
            c = s.val(st, i['o'][0])
            t = F.truth(c)
            if t is None:
                raise Fork(F.norm(c))
            st.env[i['id']] = s.val(st, i['o'][1] if t else i['o'][2])
            return
        if op == 'extractvalue':
            v = F.norm(s.val(st, i['o'][0]))
            j = single(v)
            if j is not None and ATOMS[j][0] == 'ovf':
                st.env[i['id']] = ATOMS[j][1] if i['eo'] == 0 else ZERO
            else:
                st.env[i['id']] = F.norm(ext(v, i['eo'] * 8, i['w']))
            return
        if op == 'insertvalue':
            v = F.norm(s.val(st, i['o'][0]))
            w = F.norm(s.val(st, i['o'][1]))
            j = single(v)
            parts = [p for p in ATOMS[j][1] if p[0] != i['eo'] * 8] if j is not None and ATOMS[j][0] == 'cat' else []
            st.env[i['id']] = mk('cat', tuple(sorted(parts + [(i['eo'] * 8, i['iw'], w)])))
            return
        if op in ('call', 'invoke'):
            return s.call(st, i)
        raise Imprecise('instruction ' + op)

    def cellish(s, ty):
        return bool(re.match(r'(class\.|struct\.)?(__gnu_cxx::|std::)?(__normal_iterator|pair<|initializer_list|_List_iterator|_List_const_iterator|_Bit_|_Rb_tree_|reverse_iterator|new_allocator|allocator)', ty))

    def ptreq(s, st, a, b):
        d = sub(a, b)
        if isk(d):
            return ONE if d[0] == 0 else ZERO
        # two different allocated objects, or an object and null
        for x, y in ((a, b), (b, a)):
            i = s.baseof(x, st)
            if i is not None and ATOMS[i][0] in ('new', 'al', 'str', 'g', 'own', 'vbuf'):
                if isk(y) and y[0] == 0 and ATOMS[i][0] != 'vbuf':
                    return ZERO
                j = s.baseof(y, st)
                if j is not None and j != i and ATOMS[j][0] in ('new', 'al', 'str', 'g', 'own', 'vbuf', 'arg'):
                    return ZERO
        # iterators into arrays: compare the element numbers
        i, j = s.baseof(a, st), s.baseof(b, st)
        if i is not None and i == j and s.base[i][0] == 'arr' and s.base[i][3] >= 0:
            e = divk(d, s.m.tsize(s.base[i][3]))
            if e is not None:
                return mkcmp('eq', e)
        return mkcmp('eq', d)

    def arith(s, op, a, b, w, st):
        if op == 'add':
            return add(a, b)
        if op == 'sub':
            return sub(a, b)
        if op == 'mul':
            return mul(a, b)
        if op == 'shl' and isk(b) and w != 1:
            return scale(a, 1 << b[0])
        if op in ('sdiv', 'udiv'):
            if isk(b) and b[0]:
                if isk(a):
                    q = abs(a[0]) // abs(b[0])
                    return K(q if (a[0] < 0) == (b[0] < 0) else -q)
                q = divk(a, b[0])
                if q is not None:
                    return q
            return mk('div', a, b)
        if op in ('srem', 'urem'):
            if isk(a) and isk(b) and b[0]:
                return K(int(abs(a[0]) % abs(b[0])) * (1 if a[0] >= 0 else -1))
            return mkrem(a, b)
        if op == 'xor':
            if w == 1 or (RNGof(a) == (0, 1) and b == ONE):
                if isk(b):
                    return sub(ONE, a) if b[0] & 1 else a
                if isk(a):
                    return sub(ONE, b) if a[0] & 1 else b
                return sub(ONE, mkcmp('eq', sub(a, b)))
            if b == K(-1):
                return sub(K(-1), a)
        if op in ('and', 'or') and (w == 1 or (RNGof(a) == (0, 1) and RNGof(b) == (0, 1))):
            if isk(a) or isk(b):
                c, x = (a, b) if isk(a) else (b, a)
                if op == 'and':
                    return x if c[0] & 1 else ZERO
                return ONE if c[0] & 1 else x
            if a == b:
                return a
            x, y = sorted((a, b))
            return mk(op, x, y)
        if isk(a) and isk(b):
            x, y = a[0], b[0]
            return K({'and': x & y, 'or': x | y, 'xor': x ^ y, 'lshr': (x & ((1 << w) - 1)) >> (y & 63), 'ashr': x >> (y & 63), 'shl': x << (y & 63)}[op])
        return mkbop(op, a, b)

    def hint(s, st, i, p):
        """remember the class of an untyped object from the GEP applied to it"""
        src = i['src']
        if src.startswith('class.') or src.startswith('struct.'):
            nm = src.split('.', 1)[1]
            p = st.facts.norm(p)
            j = single(p)
            if j is not None and j not in s.base and ATOMS[j][0] in ('new', 'res', 'ld', 'prev', 'chain', 'phi', 'ext', 'undef', 'own'):
                t = s.m.byty.get(nm)
                if t is not None and s.m.kind(t) == 'class':
                    s.base[j] = ('obj', t)
        elif src in ('i32', 'double', 'ptr', 'i8', 'i64') or src.startswith('class'):
            pass

    def nonnull(s, st, p):
        """what is dereferenced is not null"""
        p = st.facts.norm(p)
        for a, c in p[1]:
            b = s.base.get(a)
            if c == 1 and b is not None and b[0] == 'obj' and ATOMS[a][0] in ('arg', 'ld', 'prev', 'chain', 'phi', 'res'):
                if RNG.get(a, (-INF,))[0] < 1 and 0 not in st.facts.neq.get(((a, 1),), ()):
                    if ATOMS[a][0] == 'arg' and ATOMS[a][1] == 0:
                        RNG[a] = (1, INF)
                    elif ATOMS[a][0] == 'ld' and ATOMS[a][1] in INJ:
                        RNG[a] = (1, INF)
                    else:
                        try:
                            st.facts.add_ne(A(a))
                        except Bad:
                            pass
                return

    def do_load(s, st, p, w, i):
        p = st.facts.norm(p)
        for a, c in p[1]:
            if c == 1 and ATOMS[a][0] == 'ld' and ATOMS[a][1].endswith('@'):
                return ZERO             # virtual table of a stream: its base object is the stream itself
            if c == 1 and ATOMS[a][0] == 'g' and ATOMS[a][1].startswith('_ZSt') and len(p[1]) == 1:
                return A(atom('ld', 'stream@', p, ()))
        s.nonnull(st, p)
        pl = s.decode(st, p)
        if pl[0] == 'mem' and pl[3] is not None and pl[3] >= 0 and s.m.tsize(pl[3]) * 8 < w and not i.get('p'):
            # one load over several fields
            parts = []
            off = 0
            while off * 8 < w:
                q = s.decode(st, addk(p, off))
                if q[0] != 'mem':
                    raise Imprecise('wide load')
                fw = s.m.tsize(q[3]) * 8
                parts.append((off * 8, fw, s.load(st, q[1], q[2], q[3])))
                off += fw // 8
            return mk('cat', tuple(parts)) if len(parts) > 1 else parts[0][2]
        v = s.readplace(st, pl, w)
        if pl[0] == 'mem' and w == 8 and pl[3] is not None and pl[3] >= 0 and s.m.types[pl[3]]['n'] == 'bool':
            j = single(v)
            if j is not None and j not in RNG:
                RNG[j] = (0, 1)
        if pl[0] == 'cell' and i.get('p') and s.baseof(v, st) is None:
            pass
        return v

    def do_store(s, st, pl, w, v, i):
        v = st.facts.norm(v)
        if pl[0] == 'cell':
            s.writecell(st, pl[1], pl[2], w, v)
        elif pl[0] == 'mem':
            s.store(st, pl[1], pl[2], v, i.get('iln') or i.get('ln'))
        elif pl[0] == 'vec':
            raise Imprecise('store into a vector header')
        elif pl[0] == 'obj':
            s.store(st, pl[1] + '@', pl[2] + (pl[4],), v, i.get('iln') or i.get('ln'), quiet=True)
        else:
            raise Imprecise('store')

    # ------------------------------------------------------------ calls
    def ordinal(s, st, key):
        n = st.cnt.get(key, 0)
        st.cnt[key] = n + 1
        return n

    def cop(s, st, op, lab, path, args, labs, ln):
        """container operation event"""
        path = tuple(st.facts.norm(x) for x in path)
        st.events = st.events + (('cop', op, lab, path, tuple(args), tuple(labs), ln),)

    def havoc(s, st, lab, owner=None):
        st.log[lab] = st.log.get(lab, ()) + (('hv', None if owner is None else frozenset([owner])),)

    def elemleaves(s, t):
        return s.m.leaves(t)

    def vecplace(s, st, p):
        pl = s.decode(st, p)
        if pl[0] != 'vec' or pl[4] != 0:
            raise Imprecise('not a vector: ' + str(pl) + show(p))
        return pl[1], tuple(st.facts.norm(x) for x in pl[2]), pl[3]

    def read_elem(s, st, p, et):
        """leaf values of an element of type et at pointer p"""
        out = []
        for off, w, suf, ty in s.elemleaves(et):
            pl = s.decode(st, addk(p, off))
            if pl[0] == 'cell':
                v = s.readcell(st, pl[1], pl[2], w)
            else:
                v = s.readplace(st, pl, w)
            out.append((suf, st.facts.norm(v)))
        return out

    def call(s, st, i):
        F = st.facts
        dn = i.get('dn')
        if dn is None:
            raise Imprecise('indirect call')
        fn = i['fn']
        ln = i.get('iln') or i.get('ln')
        args = [F.norm(s.val(st, o)) for o in i['o']]
        if fn.startswith('llvm.'):
            return s.intrinsic(st, i, fn, args, ln)
        if i.get('rn'):
            if s.frees is not None:
                s.curln = ln
                r = s.repocall(st, i, args, ln)
                s.callfrees(st, i['rn'], args, ln)
                return r
            return s.repocall(st, i, args, ln)
        name = simp(dn)
        return s.extcall(st, i, name, dn, args, ln)

    def intrinsic(s, st, i, fn, args, ln):
        F = st.facts
        if fn.startswith('llvm.lifetime.end'):
            j = single(args[1])
            if j is not None and j in s.base and s.base[j][0] == 'cell':
                st.cells.pop(j, None)
            return
        if fn.startswith('llvm.lifetime') or fn.startswith('llvm.dbg') or fn.startswith('llvm.assume') or fn.startswith('llvm.stack') or fn.startswith('llvm.experimental'):
            if fn.startswith('llvm.stacksave'):
                st.env[i['id']] = ZERO
            return
        if fn.startswith('llvm.memcpy') or fn.startswith('llvm.memmove'):
            n = args[2]
            if not isk(n):
                raise Imprecise('memcpy of variable size')
            s.memcpy(st, args[0], args[1], n[0], ln)
            return
        if fn.startswith('llvm.memset'):
            n = args[2]
            pl = s.decode(st, args[0])
            if pl[0] == 'cell' and isk(n):
                s.writecell(st, pl[1], pl[2], n[0] * 8, args[1] if args[1] == ZERO else mk('undef'))
                return
            if pl[0] == 'mem':
                return s.opaque_call(st, i, 'memset', args, ln)
            raise Imprecise('memset')
        if 'mul.with.overflow' in fn:
            st.env[i['id']] = mk('ovf', mul(args[0], args[1]))
            return
        if 'add.with.overflow' in fn:
            st.env[i['id']] = mk('ovf', add(args[0], args[1]))
            return
        if 'sub.with.overflow' in fn:
            st.env[i['id']] = mk('ovf', sub(args[0], args[1]))
            return
        if fn in ('llvm.trap',):
            return 'noret'
        if fn == 'llvm.fmuladd.f64':
            st.env[i['id']] = farith('fadd', [farith('fmul', args[:2]), args[2]])
            return
        st.env[i['id']] = mk('pure', fn, tuple(args), 0)

    def memcpy(s, st, dst, src, n, ln):
        d = s.decode(st, dst)
        r = s.decode(st, src)
        if d[0] == 'cell' and r[0] == 'cell':
            sc = st.cells.get(r[1], {})
            items = [(o, cw, v) for o, (cw, v) in sc.items() if o != '*' and o >= r[2] and o < r[2] + n]
            if not items and '*' in sc:
                # copy of an unknown object
                items = [(r[2] + o, w, s.readcell(st, r[1], r[2] + o, w)) for o, w in s.guess_layout(n)]
            for o, cw, v in items:
                s.writecell(st, d[1], d[2] + o - r[2], cw, v)
            return
        t = None
        # typed side gives the layout
        for pl, p in ((d, dst), (r, src)):
            if pl[0] in ('mem', 'vec', 'obj'):
                t = s.layout(st, p, n)
                break
        if t is None:
            raise Imprecise('memcpy layout')
        vals = []
        for off, w in t:
            if r[0] == 'cell':
                vals.append(s.readcell(st, r[1], r[2] + off, w))
            else:
                vals.append(s.readplace(st, s.decode(st, addk(src, off)), w))
        for (off, w), v in zip(t, vals):
            if d[0] == 'cell':
                s.writecell(st, d[1], d[2] + off, w, v)
            else:
                s.store(st, *s.memplace(st, addk(dst, off)), v, ln)

    def guess_layout(s, n):
        return [(0, 32), (4, 32), (8, 8)] if n == 12 else [(0, n * 8)]

    def memplace(s, st, p):
        pl = s.decode(st, p)
        if pl[0] != 'mem':
            raise Imprecise('store place')
        return pl[1], pl[2]

    def layout(s, st, p, n):
        """[(offset, bits)] of the fields in [p, p+n)"""
        r = []
        off = 0
        while off < n:
            try:
                pl = s.decode(st, addk(p, off))
            except Imprecise:
                off += 1        # padding
                continue
            if pl[0] != 'mem':
                raise Imprecise('layout')
            w = s.m.tsize(pl[3])
            r.append((off, w * 8))
            off += w
        return r

    def repocall(s, st, i, args, ln):
        rn = i['rn']
        mods, refs = s.modref(rn, i['fn'])
        g = s.m.fns.get(i['fn'])
        F = st.facts
        s.refs |= set(refs)
        cargs = []
        for k, a in enumerate(args):
            cargs.append(s.argval(st, a, i['aw'][k]))
        # constructors type the object
        if g is not None and g.get('pty'):
            for k, (t, part) in s.sigmap(g).items():
                j = single(args[k]) if k < len(args) else None
                if j is not None and j not in s.base and ATOMS[j][0] == 'new' and t is not None and s.m.pointee(t) is not None and s.m.kind(s.m.pointee(t)) == 'class':
                    s.base[j] = ('obj', s.m.pointee(t))
        res = None
        pure = not mods
        if i['w']:
            if pure:
                # asked again without a change in between, it answers the same
                k = ('cse', rn, tuple(cargs), tuple(sorted((l, len(st.log[l])) for l in refs if st.log.get(l))))
                a = st.cnt.get(k)
                if a is None:
                    a = st.cnt[k] = atom('res', rn, st.ctx, s.ordinal(st, ('res', rn)))
            else:
                a = atom('res', rn, st.ctx, s.ordinal(st, ('res', rn)))
            res = A(a)
            ra = s.modsrc.get('#rets', {}).get(rn) if s.modsrc else None
            if ra is not None and ra < len(args):
                # it returns what it is given
                res = args[ra]
            elif g is not None and g.get('pty') and g['pty'][0] >= 0:
                t = g['pty'][0]
                if s.m.pointee(t) is not None:
                    s.setptr(a, s.m.pointee(t))
                elif s.m.kind(t) == 'scalar':
                    s.enumrng(a, t)
            ra = s.modsrc.get('#range', {}).get(rn) if s.modsrc else None
            if ra is not None:
                RNG[a] = tuple(ra)
            st.env[i['id']] = F.norm(res)
        st.events = st.events + (('call', rn, tuple(cargs), res, frozenset(mods), frozenset(refs), ln),)
        isct = rn.split('::')[0] == rn.split('::')[-1].replace('~', '') if '::' in rn else False
        own = F.norm(args[0]) if isct and args and not i.get('sret') else None
        for lab in mods:
            if lab.startswith('#'):
                continue
            s.havoc(st, lab, own)
        for k, a in enumerate(args):
            j = s.baseof(a, st)
            if all(l[0] == '#' for l in mods):
                break
            if j is not None and s.base[j][0] == 'cell':
                st.cells[j] = {'*': ('atom', atom('outp', rn, st.ctx, st.cnt.get(('res', rn), 0), k))}
        if rn in (s.never if not s.modsrc or '#never' not in s.modsrc else s.modsrc['#never']):
            return 'noret'

    def argval(s, st, a, aw):
        """what a callee sees: a pointer to a scalar local is seen through"""
        j = s.baseof(a, st) if aw == -1 else None
        if j is not None and s.base[j][0] == 'cell':
            c = st.cells.get(j, {})
            return mk('ref', tuple(sorted((o, w, v) for o, (w, v) in c.items() if o != '*')))
        return a

    def out(s, st, stream, pieces, ln):
        st.events = st.events + (('out', stream, tuple(pieces), ln),)

    def streamof(s, st, p):
        return p

    def extcall(s, st, i, name, dn, args, ln):
        F = st.facts
        iid = i['id']
        short = name.replace('std::__cxx11::', 'std::')

        def ret(v):
            st.env[iid] = v
        if short in ('operator new', 'operator new[]'):
            a = atom('new', st.ctx, s.ordinal(st, 'new'))
            RNG.setdefault(a, (1, INF))
            ret(A(a))
            return
        if short in ('operator delete', 'operator delete[]', 'free'):
            st.events = st.events + (('call', 'delete', (args[0],), None, frozenset(['#heap']), frozenset(), ln),)
            if s.frees is not None:
                s.free(st, args[0], ln, 'delete')
            return
        if short == '__gnu_cxx::__normal_iterator::__normal_iterator' and len(args) == 2:
            s.memcpy(st, args[0], args[1], 8, ln)
            return
        # ---- vectors
        if short.startswith('std::vector::'):
            meth = short.split('::')[2]
            if meth in ('reserve', '~vector', 'shrink_to_fit', 'capacity', 'max_size'):
                if i['w']:
                    ret(mk('opaque', 'cap'))
                return
            try:
                lab, path, t = s.vecplace(st, args[0])
            except Imprecise:
                if s.typed_obj(st, args[0], dn):
                    lab, path, t = s.vecplace(st, args[0])
                else:
                    raise
            et = s.m.types[t]['tp'][0]
            if meth == 'vector' and len(args) == 1:
                s.store(st, lab + '#size', path, ZERO, ln)
                return
            if meth == 'vector' and len(args) >= 2 and i['aw'][1] == 64:
                s.store(st, lab + '#size', path, args[1], ln)
                v = ZERO
                if len(args) >= 3 and i['aw'][2] == -1 and s.m.kind(et) in ('scalar', 'ptr'):
                    try:
                        v = s.read_elem(st, args[2], et)[0][1]
                    except Imprecise:
                        v = ZERO
                s.cop(st, 'fill', lab, path, [args[1], v], [lab + '[]'], ln)
                s.havoc(st, lab + '[]', path[0])
                return
            if meth in ('push_back', 'emplace_back'):
                if meth == 'emplace_back' and s.m.kind(et) not in ('scalar', 'ptr') and len(args) != 2:
                    return s.opaque_obj(st, i, name, args, ln, lab, path)
                if s.m.kind(et) in ('vec', 'list', 'std'):
                    j = args[1]
                    s.cop(st, 'push', lab, path, [s.objcontent(st, j)], [lab + '#size'], ln)
                    n = s.vecsize(st, lab, path)
                    s.store(st, lab + '#size', path, addk(n, 1), ln, quiet=True)
                    return
                vals = s.read_elem(st, args[1], et)
                n = s.vecsize(st, lab, path)
                # the element becomes visible at index size
                for suf, v in vals:
                    suf2 = suf[0] if isinstance(suf, tuple) else suf
                    s.store(st, lab + '[]' + suf2, path + (n,), v, ln, quiet=True)
                s.store(st, lab + '#size', path, addk(n, 1), ln, quiet=True)
                s.cop(st, 'push', lab, path, [v for _, v in vals], [lab + '#size'] + [lab + '[]' + (x[0] if isinstance(x, tuple) else x) for x, _ in vals], ln)
                if i['w']:
                    ret(mk('opaque', 'ref'))
                return
            if meth == 'pop_back':
                n = s.vecsize(st, lab, path)
                s.store(st, lab + '#size', path, addk(n, -1), ln, quiet=True)
                s.cop(st, 'pop', lab, path, [], [lab + '#size'], ln)
                return
            if meth == 'clear':
                s.store(st, lab + '#size', path, ZERO, ln, quiet=True)
                s.cop(st, 'clear', lab, path, [], [lab + '#size'], ln)
                return
            if meth == 'erase' and len(args) == 2:
                idx = divk(sub(args[1], s.vbuf(lab, path, t)), s.m.tsize(et))
                if idx is None:
                    # iterator passed in memory
                    raise Imprecise('erase position')
                n = s.vecsize(st, lab, path)
                labs = [lab + '#size'] + [lab + '[]' + (x[2][0] if isinstance(x[2], tuple) else x[2]) for x in s.elemleaves(et)]
                s.cop(st, 'erase', lab, path, [idx], labs, ln)
                for l in labs[1:]:
                    s.havoc(st, l, path[0])
                s.store(st, lab + '#size', path, addk(n, -1), ln, quiet=True)
                if i['w']:
                    ret(args[1])
                return
            if meth in ('resize', 'assign', 'insert', 'erase', 'operator=', 'swap', 'emplace'):
                labs = [lab + '#size'] + [lab + '[]' + (x[2][0] if isinstance(x[2], tuple) else x[2]) for x in s.elemleaves(et)]
                s.cop(st, meth, lab, path, args[1:], labs, ln)
                for l in labs:
                    s.havoc(st, l, path[0])
                if meth == 'resize':
                    s.store(st, lab + '#size', path, args[1], ln, quiet=True)
                if i['w']:
                    ret(mk('opaque', 'it'))
                return
            if meth == 'at':
                return ret(add(s.vbuf(lab, path, t), scale(args[1], s.m.tsize(et))))
            raise Imprecise('vector::' + meth)
        if short.startswith('std::list::'):
            meth = short.split('::')[2]
            if meth in ('~list',):
                return
            pl = s.decode(st, args[0])
            lab, path = pl[1], tuple(F.norm(x) for x in pl[2])
            L = lab + '#list'
            if meth == 'list':
                s.cop(st, 'clear', lab, path, [], [L], ln)
                s.havoc(st, L, path[0])
                return
            if meth in ('push_front', 'push_back'):
                q = s.decode(st, args[1])
                v = s.readplace(st, q, 32)
                s.cop(st, meth, lab, path, [F.norm(v)], [L], ln)
                s.havoc(st, L, path[0])
                return
            if meth in ('pop_front', 'pop_back', 'clear'):
                s.cop(st, meth, lab, path, [], [L], ln)
                s.havoc(st, L, path[0])
                return
            ver = sum(1 for q in st.log.get(L, ()) if q[0] == 'hv')
            s.refs.add(L)
            if meth == 'empty':
                a = atom('lempty', lab, path, ver)
                RNG[a] = (0, 1)
                return ret(F.norm(A(a)))
            if meth == 'size':
                a = atom('lsize', lab, path, ver)
                RNG[a] = (0, INF)
                return ret(A(a))
            if meth in ('front', 'back'):
                a = atom('l' + meth, lab, path, ver)
                if a not in s.base:
                    s.base[a] = ('arr', lab + '.' + meth, (A(a),), s.m.types[pl[3]]['tp'][0])
                return ret(A(a))
            raise Imprecise('list::' + meth)
        # ---- output
        if short in ('std::operator<<',):
            p = args[0]
            j = single(args[1])
            if i['aw'][1] == -1 and j is not None and ATOMS[j][0] == 'str':
                s.out(st, p, [('s', ATOMS[j][1])], ln)
            elif i['aw'][1] == 8 and isk(args[1]):
                s.out(st, p, [('s', chr(args[1][0] & 255))], ln)
            elif i['aw'][1] == -1:
                s.out(st, p, [('t', s.objcontent(st, args[1]))], ln)
            else:
                s.out(st, p, [('v', args[1])], ln)
            return ret(p)
        if short == 'std::ostream::operator<<' or short == 'std::basic_ostream::operator<<':
            p = args[0]
            j = single(args[1])
            if '(std::ostream&' in dn or '(std::basic_ostream' in dn or '(std::ios_base&' in dn:
                if j is not None and ATOMS[j][0] == 'g' and 'endl' in ATOMS[j][1]:
                    s.out(st, p, [('s', '\n')], ln)
                elif j is not None and ATOMS[j][0] == 'g' and 'flush' in ATOMS[j][1]:
                    pass
                else:
                    s.out(st, p, [('v', args[1])], ln)
            elif '(bool)' in dn:
                s.out(st, p, [('b', args[1])], ln)
            else:
                s.out(st, p, [('v', args[1])], ln)
            return ret(p)
        if short in ('std::ostream::put', 'std::ostream::write', 'std::ostream::flush'):
            if short.endswith('put'):
                s.out(st, args[0], [('s', chr(args[1][0] & 255)) if isk(args[1]) else ('v', args[1])], ln)
            elif short.endswith('write'):
                s.out(st, args[0], [('w', args[1], args[2])], ln)
            return ret(args[0])
        if short in ('printf', 'puts', 'putchar', 'fprintf'):
            if short == 'printf' and single(args[0]) is not None and ATOMS[single(args[0])][0] == 'str':
                s.out(st, A(atom('g', '_ZSt4cout')), fmtpieces(ATOMS[single(args[0])][1], args[1:]), ln)
                return ret(mk('opaque', 'printf'))
            if short == 'puts' and single(args[0]) is not None and ATOMS[single(args[0])][0] == 'str':
                s.out(st, A(atom('g', '_ZSt4cout')), [('s', ATOMS[single(args[0])][1] + '\n')], ln)
                return ret(mk('opaque', 'puts'))
        if short in ('std::operator|', 'std::operator&') and len(args) == 2 and i['aw'][0] == i['aw'][1] == 32:
            return ret(K(args[0][0] | args[1][0] if short[-1] == '|' else args[0][0] & args[1][0]) if isk(args[0]) and isk(args[1])
                       else mk('pure', short, tuple(args), 0))
        if short in ('exit', '_exit', 'abort', 'std::terminate', 'quick_exit'):
            st.events = st.events + (('call', short, tuple(args), None, frozenset(['#noreturn']), frozenset(), ln),)
            return 'noret'
        if short in PURE or short in ('std::string::size', 'std::string::length', 'std::string::empty', 'std::string::c_str', 'std::string::data',
                                      'std::basic_string::size', 'std::basic_string::length', 'std::basic_string::empty', 'std::basic_string::c_str',
                                      'std::basic_string::data', 'std::basic_string::operator[]', 'std::string::operator[]', 'std::basic_string::at',
                                      'std::basic_string::back', 'std::basic_string::front', 'std::basic_string::compare', 'std::basic_string::find',
                                      'std::char_traits::length', 'std::char_traits::compare', 'std::operator==', 'std::operator!=',
                                      'std::basic_string::find_first_not_of', 'std::basic_string::find_first_of', 'std::set::size', 'std::set::empty',
                                      'std::set::count', 'std::set::find', 'std::set::begin', 'std::set::end', 'std::set::rbegin', 'std::set::rend'):
            return s.purecall(st, i, short.split('::')[-1], args, ln)
        return s.opaque_call(st, i, short, args, ln)

    def typed_obj(s, st, p, dn):
        """an untyped object whose class is named by the call"""
        p = st.facts.norm(p)
        j = single(p)
        shift = None
        if j is None:
            for a, c in p[1]:
                if c == 1 and ATOMS[a][0] == 'new' and (a not in s.base or s.base[a][0] == 'arr' and s.base[a][3] == -2):
                    j, shift = a, p[0]
            if j is None:
                return False
        m = re.match(r'(std::(?:__cxx11::)?vector<.*>)::', dn)
        if not m:
            return False
        for k, t in enumerate(s.m.types):
            if s.m.kind(k) == 'vec':
                n = t['n'].replace(' ', '')
                x = m.group(1).replace('std::', '').replace('__cxx11::', '').replace(' ', '')
                if n.replace('std::', '') == x or x.startswith(n.replace('std::', '').split(',')[0]):
                    if shift is None:
                        s.base[j] = ('cont', 'vector', k)
                    else:
                        s.base[j] = ('arr', 'new:vector[]', (A(j),), k, shift)
                    return True
        return False

    def objcontent(s, st, p):
        """identity of an object argument: the pointer and how often it was changed"""
        j = single(p)
        lab = 'O'
        return mk('objv', p, s.objver(st, p))

    def objver(s, st, p):
        j = single(p) if single(p) is not None else s.baseof(p, st)
        return sum(1 for q in st.log.get('obj@', ()) if s.hv_hits(st, q, (A(j) if j is not None else p,)))

    def purecall(s, st, i, name, args, ln):
        F = st.facts
        a2 = []
        for k, a in enumerate(args):
            if i['aw'][k] == -1 and not isk(a):
                a2.append(mk('mem', a, s.objver(st, a)))
            else:
                a2.append(a)
        a = atom('pure', name, tuple(a2), 0)
        if name in ('size', 'length', 'strlen', 'strspn'):
            RNG.setdefault(a, (0, INF))
        if name in ('empty', 'operator==', 'operator!='):
            RNG.setdefault(a, (0, 1))
        if i.get('p') and a not in s.base:
            if name in ('operator[]', 'at'):
                # place inside the string buffer
                b = atom('sbuf', args[0])
                s.base.setdefault(b, ('arr', 'char[]', (A(b),), -1))
                st.env[i['id']] = add(A(b), args[1])
                return
            if name in ('c_str', 'data', 'begin'):
                b = atom('sbuf', args[0])
                s.base.setdefault(b, ('arr', 'char[]', (A(b),), -1))
                st.env[i['id']] = A(b)
                return
            s.base[a] = ('arr', 'char[]', (A(a),), -1)
        st.env[i['id']] = F.norm(A(a))

    def opaque_obj(s, st, i, name, args, ln, lab, path):
        raise Imprecise('unmodelled ' + name)

    CTOR = re.compile(r'.*::(basic_\w+|list|set|map|allocator|Init|__new_allocator|vector|pair)$')

    def opaque_call(s, st, i, name, args, ln):
        """a library call without a model: an observable event that may change the objects passed to it"""
        F = st.facts
        nm = name.split('::')[-1]
        if nm.startswith('~') or 'allocator' in nm or 'get_allocator' in nm:
            if i['w']:
                st.env[i['id']] = mk('opaque', nm)
            return
        cargs = []
        for k, a in enumerate(args):
            if i['aw'][k] == -1:
                j = s.baseof(a, st)
                if j is not None and s.base[j][0] == 'cell':
                    if name in ('sscanf', '__isoc23_sscanf', '__isoc99_sscanf', 'std::istream::operator>>', 'gettimeofday') and k >= 1 or nm in ('getline',):
                        cargs.append(mk('outarg', k))
                    else:
                        cargs.append(s.argval(st, a, -1))
                elif j is not None and ATOMS[j][0] in ('str', 'g'):
                    cargs.append(a)
                else:
                    cargs.append(mk('mem', a, s.objver(st, a)) if not isk(a) else a)
            else:
                cargs.append(a)
        o = s.ordinal(st, ('res', nm))
        r = atom('res', nm, st.ctx, o)
        if i['w']:
            if i.get('p') and args and nm in ('open', 'getline', 'operator>>', 'operator=', 'operator+=', 'append', 'assign', 'seekg', 'ignore'):
                st.env[i['id']] = args[0]
            else:
                st.env[i['id']] = A(r)
                if nm in ('operator!', 'operator bool', 'eof', 'fail', 'is_open', 'good', 'bad'):
                    RNG[r] = (0, 1)
                if i.get('p') and r not in s.base:
                    s.base[r] = ('arr', 'res:' + nm + '[]', (A(r),), -1)
        mods = set(['#lib'])
        if nm in ('rand',):
            RNG.setdefault(r, (0, INF))
            mods = set(['#rand'])
        if nm in ('operator!', 'operator bool', 'eof', 'fail', 'is_open', 'good', 'time', 'getenv', 'operator*', 'operator->', 'gettimeofday'):
            mods = set(['#time'])
        if nm in ('sscanf', '__isoc23_sscanf', '__isoc99_sscanf'):
            nm = 'sscanf'
            mods = set(['#scan'])
        st.events = st.events + (('call', nm, tuple(cargs), A(r) if i['w'] else None, frozenset(mods), frozenset(), ln),)
        # effects on the objects passed
        const = dnconst(i.get('dn', ''))
        if nm in ('operator!', 'operator bool', 'eof', 'fail', 'is_open', 'good'):
            return
        for k, a in enumerate(args):
            if i['aw'][k] != -1 or isk(a):
                continue
            if k == 0 and const:
                continue
            j = s.baseof(a, st)
            if j is None:
                continue
            if ATOMS[j][0] in ('str',):
                continue
            b = s.base[j]
            if b[0] == 'cell':
                if k == 0 and nm == 'sscanf':
                    continue
                old = st.cells.get(j, {})
                ad = sub(a, A(j))
                oa = atom('outp', nm, st.ctx, o, k)
                if nm == 'sscanf' and isk(ad):
                    # a conversion may leave its target alone: the result depends on the old value
                    w = {0: 32}.get(ad[0], 32)
                    for off, (cw, v) in list(old.items()):
                        if off != '*' and off == ad[0]:
                            w = cw
                    oldv = old.get(ad[0], (w, mk('undef')))[1]
                    st.cells.setdefault(j, {})[ad[0]] = (w, mk('outp', nm, st.ctx, o, k, oldv))
                else:
                    st.cells[j] = {'*': ('atom', oa)}
            elif ATOMS[j][0] == 'arg' or b[0] == 'obj':
                if nm == 'sscanf' and k == 0:
                    continue
                if nm in ('open', 'basic_string', 'sscanf', 'operator<<', 'append', 'assign', 'operator=', 'operator+=', 'getline') and k > 0:
                    continue
                st.log['obj@'] = st.log.get('obj@', ()) + (('hv', frozenset([A(j)])),)
                if b[0] == 'arr':
                    s.havoc(st, b[1], b[2][0])
            else:
                if nm == 'sscanf' and k == 0:
                    continue
                if nm in ('open', 'basic_string') and k > 0:
                    continue
                st.log['obj@'] = st.log.get('obj@', ()) + (('hv', frozenset([A(j)])),)
                sb = atom('sbuf', a)
                if sb in s.base:
                    s.havoc(st, 'char[]', A(sb))
                if ATOMS[j][0] == 'sbuf':
                    s.havoc(st, 'char[]', A(j))


def dnconst(dn):
    return dn.rstrip().endswith(') const')


def RNGof(a):
    i = single(a)
    if i is not None:
        return RNG.get(i)
    if len(a[1]) == 1 and a[0] == 1 and a[1][0][1] == -1 and RNG.get(a[1][0][0]) == (0, 1):
        return (0, 1)
    if isk(a) and a[0] in (0, 1):
        return (0, 1)
    return None


def depth(t, d=0):
    if d > 20 or not t[1]:
        return d
    r = d
    for i, _ in t[1]:
        for x in ATOMS[i]:
            if isterm(x):
                r = max(r, depth(x, d + 1))
            elif isinstance(x, tuple):
                for y in x:
                    if isterm(y):
                        r = max(r, depth(y, d + 1))
    return r


def fconst(x):
    return mk('fc', repr(x))


def fval(t):
    i = single(t)
    if i is not None and ATOMS[i][0] == 'fc':
        return float(ATOMS[i][1])
    if t == ZERO:
        return 0.0
    return None


def fk(op, a, b):
    x, y = fval(a), fval(b)
    if x is not None and y is not None:
        return ONE if (x < y if op == 'lt' else x == y) else ZERO
    if op == 'eq':
        a, b = sorted((a, b))
    return mk('fcmp', op, a, b)


def farith(op, v):
    c = [fval(x) for x in v]
    if None not in c and op != 'frem':
        try:
            return fconst({'fadd': lambda: c[0] + c[1], 'fsub': lambda: c[0] - c[1], 'fmul': lambda: c[0] * c[1], 'fdiv': lambda: c[0] / c[1], 'fneg': lambda: -c[0]}[op]())
        except ZeroDivisionError:
            pass
    if op == 'fdiv' and c[1] is not None and c[1] != 0 and (1 / c[1]) * c[1] == 1.0 and bin(int(abs(c[1]))).count('1') == 1:
        op, v = 'fmul', [v[0], fconst(1 / c[1])]
    if op == 'fsub' and c[1] is not None:
        op, v = 'fadd', [v[0], fconst(-c[1])]
    if op in ('fadd', 'fmul'):
        v = sorted(v)
    return mk('fop', op, tuple(v))


def fmtpieces(fmt, args):
    out = []
    k = 0
    args = list(args)
    while k < len(fmt):
        if fmt[k] == '%':
            if fmt[k + 1:k + 2] == '%':
                out.append(('s', '%'))
                k += 2
                continue
            m = re.match(r'%[-+ #0-9.]*(hh|h|ll|l|z|j|t)?[diouxXcsfgeEp]', fmt[k:])
            if m and args:
                spec = m.group(0)
                plain = spec in ('%d', '%i', '%u', '%zu', '%ld', '%lu', '%s', '%c')
                a = args.pop(0)
                j = single(a)
                if spec == '%s' and j is not None and ATOMS[j][0] == 'str':
                    out.append(('s', ATOMS[j][1]))
                else:
                    out.append(('v', a) if plain else ('f', spec, a))
                k += len(spec)
                continue
        out.append(('s', fmt[k]))
        k += 1
    return out
