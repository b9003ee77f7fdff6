"""Path-sensitive, finite-domain dataflow over the analysed IR.

Abstract state at a program point
  env   SSA value -> abstract value
  mem   (base, offset) -> value last stored by this function
  memo  (base, offset) -> value loaded (not stored) from memory that existed at entry
  syms  symbol -> (lo, hi, excluded constants)   facts learned from branches
  own   symbol -> (status, family, allocation instruction)
        O owned here   F released   C handed over   R reference dropped   B borrowed
  gh    ghost facts used by single rules
Abstract values
  ('i', n)  ('s', symbol, offset|None)  ('g', global, offset)  ('a', alloca, offset)
  ('u',) uninitialised   ('c', pred, v, v) comparison   ('n', v) negation

All joins are disjunctive (sets of states); loops converge because symbols are named by
the instruction that creates them, constants leaving {-1,0,1} at a loop head are widened,
and dead symbols are garbage collected at every block edge.  Nothing is executed and no
solver is involved.
"""
import heapq
import time

INF = 1 << 66
INT_MAX = 2147483647


class Budget(Exception):
    pass


def wrap(n, bits):
    n &= (1 << bits) - 1
    if n >> (bits - 1):
        n -= 1 << bits
    return n


NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt',
       'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle',
        'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}


class St:
    __slots__ = ('env', 'mem', 'memo', 'syms', 'own', 'gh', 'tr')

    def copy(self):
        s = St()
        s.env = dict(self.env)
        s.mem = dict(self.mem)
        s.memo = dict(self.memo)
        s.syms = dict(self.syms)
        s.own = dict(self.own)
        s.gh = dict(self.gh)
        s.tr = self.tr
        return s

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.mem.items()), frozenset(self.memo.items()),
                frozenset(self.syms.items()), frozenset(self.own.items()), frozenset(self.gh.items()))


class FnInfo:
    """CFG, liveness and loop heads of one function"""

    def find_tops(self, fn):
        """upper bounds worth keeping when a counter is widened: sizes of the local arrays"""
        t = {-2, -1, 0, 1, INT_MAX - 1, INT_MAX, INF}
        for b in fn.blocks.values():
            for i in b:
                if i.op == 'alloca' and i.ty[0] == 'arr' and 2 < i.ty[1] < INT_MAX - 1:
                    t |= {i.ty[1] - 1, i.ty[1]}
        self.tops = sorted(t)

    def top(self, n):
        return min(t for t in self.tops if t >= n)

    def __init__(self, fn):
        self.fn = fn
        self.find_tops(fn)
        self.succ = {}
        self.pred = {b: [] for b in fn.blocks}
        for b, ins in fn.blocks.items():
            t = ins[-1]
            if t.op == 'br':
                s = [t.a[0]]
            elif t.op == 'cbr':
                s = list(dict.fromkeys(t.x))
            elif t.op == 'switch':
                s = list(dict.fromkeys([t.x[0]] + [c[1] for c in t.x[1]]))
            else:
                s = []
            self.succ[b] = s
        for b, ss in self.succ.items():
            for s in ss:
                self.pred[s].append(b)
        # reverse postorder
        entry = fn.order[0]
        seen = {entry}
        order = []
        stack = [(entry, iter(self.succ[entry]))]
        onst = {entry}
        self.backedges = set()
        while stack:
            b, it = stack[-1]
            adv = False
            for s in it:
                if s in onst:
                    self.backedges.add((b, s))
                if s not in seen:
                    seen.add(s)
                    onst.add(s)
                    stack.append((s, iter(self.succ[s])))
                    adv = True
                    break
            if not adv:
                stack.pop()
                onst.discard(b)
                order.append(b)
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        self.heads = {h for _, h in self.backedges}
        # liveness of SSA names (phi uses belong to the edge)
        use = {}
        de = {}
        phiuse = {}   # (pred, succ) -> names
        for b, ins in fn.blocks.items():
            u = set()
            d = set()
            for i in ins:
                if i.op == 'phi':
                    d.add(i.res)
                    for v, pb in zip(i.a, i.x):
                        if v[0] == 'v':
                            phiuse.setdefault((pb, b), set()).add(v[1])
                    continue
                for v in i.a:
                    if isinstance(v, tuple) and v and v[0] == 'v' and v[1] not in d:
                        u.add(v[1])
                if i.res:
                    d.add(i.res)
            use[b] = u
            de[b] = d
        livein = {b: set() for b in fn.blocks}
        liveout = {b: set() for b in fn.blocks}
        ch = True
        bl = list(reversed(order))
        while ch:
            ch = False
            for b in bl:
                o = set()
                for s in self.succ[b]:
                    o |= livein[s]
                    o |= phiuse.get((b, s), set())
                i = use[b] | (o - de[b])
                if o != liveout[b] or i != livein[b]:
                    liveout[b] = o
                    livein[b] = i
                    ch = True
        # blocks from which no return can be reached (failed assertions, abort)
        alive = {b for b in fn.blocks if fn.blocks[b][-1].op == 'ret'}
        work = list(alive)
        while work:
            b = work.pop()
            for p in self.pred[b]:
                if p not in alive:
                    alive.add(p)
                    work.append(p)
        # blocks that loop for ever are kept: only those ending in 'unreachable' are dropped
        dead = {b for b in fn.blocks if fn.blocks[b][-1].op == 'unreachable'}
        work = list(dead)
        doomed = set(dead)
        ch2 = True
        while ch2:
            ch2 = False
            for b in fn.blocks:
                if b not in doomed and b not in alive and self.succ[b] and all(s in doomed for s in self.succ[b]):
                    doomed.add(b)
                    ch2 = True
        self.doomed = doomed
        self.livein = livein
        self.phidefs = {b: [i for i in fn.blocks[b] if i.op == 'phi'] for b in fn.blocks}
        self.body = {b: [i for i in fn.blocks[b] if i.op != 'phi'] for b in fn.blocks}
        self.defs = {}
        for b in fn.blocks:
            for i in fn.blocks[b]:
                if i.res:
                    self.defs[i.res] = i
        self.byid = {}
        for b in fn.blocks:
            for i in fn.blocks[b]:
                self.byid[i.id] = i


class Engine:
    """Analyses one function. Subclass hooks implement the rules."""
    max_states = 60000
    max_time = 120

    def __init__(self, prog, fname, spec):
        self.prog = prog
        self.mod = prog.mod
        self.fn = prog.mod.funcs[fname]
        self.fname = fname
        self.spec = spec            # contracts
        self.info = FnInfo(self.fn)
        self.events = {}
        self.nstates = 0
        self.exits = 0
        self.meta = {}              # instr id -> origin of symbols it creates
        self.stats = {'calls': 0, 'allocs': 0, 'frees': 0, 'derefs': 0}
        self.sites = {'alloc': set(), 'free': set(), 'call': set(), 'deref': set()}
        self.unknown = set()
        self.zloc = {}
        self.contract = spec.own_contract(fname)
        self.vstruct = spec.di.var_structs(self.fn)

    # ------------------------------------------------------------ events
    def where(self, ins):
        l = self.mod.loc(ins.dbg) if ins is not None else []
        return l

    # rules that rely on remembered contents of memory, which coarsening gives up
    needs_memory = ('overwrite', 'incomplete', 'partial')

    def ev(self, kind, ins, msg, st=None, **kw):
        if kind in self.needs_memory and st is not None and 'coarse' in st.gh:
            return
        loc = self.where(ins)
        k = (kind, loc[0] if loc else None, msg)
        if k in self.events:
            return
        self.events[k] = dict(kind=kind, func=self.fname, loc=loc, msg=msg, trace=self.trace(st), **kw)

    def trace(self, st):
        out = []
        t = st.tr if st is not None else None
        while t is not None and len(out) < 60:
            out.append(t[0])
            t = t[1]
        out.reverse()
        return out

    # ------------------------------------------------------------ symbols
    def fresh(self, st, tag):
        """new symbol for creation point `tag`, reusing the smallest free index"""
        k = 0
        used = st.gh.get('_u')
        while (tag, k) in st.own or self.sym_used(st, (tag, k)):
            k += 1
            if k >= 3:
                self.summarise(st, (tag, 0))
                k = 0
                break
        sid = (tag, k)
        st.syms.pop(sid, None)
        self.drop_elts(st, None, sid)
        return sid

    def sym_used(self, st, sid):
        for d in (st.env, st.mem, st.memo):
            for v in d.values():
                if v[0] == 's' and v[1] == sid:
                    return True
                if v[0] == 'c' and self.cmp_uses(v, sid):
                    return True
        for k in st.mem:
            if k[0] == sid:
                return True
        return False

    def cmp_uses(self, v, sid):
        if v[0] == 's':
            return v[1] == sid
        if v[0] == 'c':
            return self.cmp_uses(v[2], sid) or self.cmp_uses(v[3], sid)
        if v[0] == 'n':
            return self.cmp_uses(v[1], sid)
        return False

    def summarise(self, st, sid):
        new = ('x', sid[0])
        self.subst(st, sid, ('s', new, 0))
        st.own.pop(sid, None)
        st.syms.pop(sid, None)
        for d in (st.mem, st.memo):
            for k in [k for k in d if k[0] == sid]:
                v = d.pop(k)
                self.release_into_unknown(st, v)

    def release_into_unknown(self, st, v):
        if v[0] == 's' and v[1] in st.own and st.own[v[1]][0] == 'O':
            st.own.pop(v[1])

    def subst(self, st, sid, val):
        """replace symbol by value everywhere (offset-adding)"""
        def rep(v):
            if v[0] == 's' and v[1] == sid:
                if val[0] == 'i':
                    return ('i', val[1] + v[2]) if v[2] is not None else ('u',)
                if val[0] in ('s', 'g', 'a'):
                    o = None if (v[2] is None or val[2] is None) else val[2] + v[2]
                    return (val[0], val[1], o)
                return val
            if v[0] == 'c':
                a = rep(v[2])
                b = rep(v[3])
                if a is not v[2] or b is not v[3]:
                    return ('c', v[1], a, b)
            if v[0] == 'n':
                a = rep(v[1])
                if a is not v[1]:
                    return ('n', a)
            return v
        self.drop_elts(st, None, sid)
        for d in (st.env, st.mem, st.memo):
            for k, v in d.items():
                if v[0] in 'scn':
                    nv = rep(v)
                    if nv is not v:
                        d[k] = nv
        for k, v in st.gh.items():
            if k[0] == 'fr' and isinstance(v, tuple) and v[0][0] == 's' and v[0][1] == sid:
                st.gh[k] = (rep(v[0]),) + v[1:]
        if val[0] == 's':
            for d in (st.mem, st.memo):
                for k in [k for k in d if k[0] == sid]:
                    nk = (val[1], k[1])
                    if nk not in d:
                        d[nk] = d[k]
                    del d[k]
        else:
            for d in (st.mem, st.memo):
                for k in [k for k in d if k[0] == sid]:
                    del d[k]

    def facts(self, st, sid):
        return st.syms.get(sid, (-INF, INF, frozenset()))

    def setfacts(self, st, sid, lo, hi, ne):
        """returns False if infeasible"""
        while lo in ne:
            lo += 1
        while hi in ne:
            hi -= 1
        if lo > hi:
            return False
        ne = frozenset(x for x in ne if lo < x < hi)
        old = self.facts(st, sid)
        if (lo, hi, ne) == old:
            return True
        if lo == hi:
            self.on_const(st, sid, lo)
            self.subst(st, sid, ('i', lo))
            st.syms.pop(sid, None)
            st.own.pop(sid, None)
            return True
        st.syms[sid] = (lo, hi, ne)
        self.on_facts(st, sid, old, (lo, hi, ne))
        return True

    # rule hooks
    def on_const(self, st, sid, c):
        pass

    def on_facts(self, st, sid, old, new):
        pass

    def rng(self, st, v):
        """interval of an integer-like abstract value"""
        if v[0] == 'i':
            return v[1], v[1]
        if v[0] == 's':
            lo, hi, ne = self.facts(st, v[1])
            if v[2] is None:
                return -INF, INF
            return (lo + v[2] if lo > -INF else -INF), (hi + v[2] if hi < INF else INF)
        if v[0] in ('c', 'n'):
            return 0, 1
        return -INF, INF

    def nonnull(self, st, v):
        if v[0] in ('g', 'a'):
            return True
        if v[0] == 'i':
            return v[1] != 0
        if v[0] == 's':
            lo, hi, ne = self.facts(st, v[1])
            return lo > 0 or hi < 0 or 0 in ne or bool(v[2])
        return False

    def isnull(self, v):
        return v == ('i', 0)

    # ------------------------------------------------------------ conditions
    def decide(self, st, pred, a, b):
        """True/False/None"""
        if a[0] == 'i' and b[0] == 'i':
            x, y = a[1], b[1]
            if pred[0] == 'u':
                x &= (1 << 64) - 1
                y &= (1 << 64) - 1
            return {'eq': x == y, 'ne': x != y, 'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y,
                    'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[pred]
        if a[0] == b[0] and a[0] in 'sga' and a[1] == b[1]:
            if a[2] is not None and b[2] is not None:
                if a[2] == b[2]:
                    return pred in ('eq', 'sle', 'sge', 'ule', 'uge')
                if pred in ('eq', 'ne'):
                    return pred == 'ne'
                if a[0] in 'ga' or True:
                    d = a[2] < b[2]
                    return d if pred in ('slt', 'sle', 'ult', 'ule') else not d
            return None
        if pred in ('eq', 'ne'):
            if a[0] in 'ga' and b[0] in 'ga' and a[:2] != b[:2]:
                return pred == 'ne'
            if a[0] in 'ga' and b[0] == 'i':
                return pred == 'ne'
            if b[0] in 'ga' and a[0] == 'i':
                return pred == 'ne'
            if a[0] == 'a' and b[0] == 's' or a[0] == 's' and b[0] == 'a':
                return pred == 'ne'
            # freshly allocated objects differ from anything else
            if a[0] == 's' and b[0] == 's' and a[1] != b[1]:
                if self.is_alloc(a[1]) and self.is_alloc(b[1]) and (self.nonnull(st, a) or self.nonnull(st, b)):
                    return pred == 'ne'
        if a[0] in ('c', 'n') and b[0] == 'i':
            if pred in ('eq', 'ne'):
                return pred == 'ne' if b[1] not in (0, 1, -1) else None
            # a truth value is 0 or 1
            t = [self.decide(st, pred, ('i', x), b) for x in (0, 1)]
            return t[0] if t[0] == t[1] else None
        if a[0] in 's' or b[0] in 's':
            l1, h1 = self.rng(st, a)
            l2, h2 = self.rng(st, b)
            if a[0] in 'ga':
                l1, h1 = 1, INF
            if b[0] in 'ga':
                l2, h2 = 1, INF
            if pred == 'eq' or pred == 'ne':
                r = None
                if h1 < l2 or h2 < l1:
                    r = False
                elif a[0] == 's' and b[0] == 'i' and a[2] is not None and \
                        (b[1] - a[2]) in self.facts(st, a[1])[2]:
                    r = False
                elif b[0] == 's' and a[0] == 'i' and b[2] is not None and \
                        (a[1] - b[2]) in self.facts(st, b[1])[2]:
                    r = False
                if r is None:
                    return None
                return r if pred == 'eq' else not r
            if pred[0] == 'u':
                if l1 < 0 or l2 < 0:
                    # x <u 0 is impossible
                    if pred == 'ult' and b == ('i', 0):
                        return False
                    if pred == 'uge' and b == ('i', 0):
                        return True
                    return None
                pred = 's' + pred[1:]
            if pred == 'slt':
                return True if h1 < l2 else False if l1 >= h2 else None
            if pred == 'sle':
                return True if h1 <= l2 else False if l1 > h2 else None
            if pred == 'sgt':
                return True if l1 > h2 else False if h1 <= l2 else None
            if pred == 'sge':
                return True if l1 >= h2 else False if h1 < l2 else None
        return None

    def is_alloc(self, sid):
        m = self.meta.get(sid[0])
        return m is not None and m[0] == 'alloc'

    def assume(self, st, v, truth):
        """refine st by (v == truth); False if infeasible"""
        if v[0] == 'i':
            return bool(v[1]) == truth
        if v[0] == 'n':
            return self.assume(st, v[1], not truth)
        if v[0] == 'c':
            return self.assume_cmp(st, v[1] if truth else NEG[v[1]], v[2], v[3])
        if v[0] == 's':
            if truth:
                return self.assume_cmp(st, 'ne', v, ('i', 0))
            return self.assume_cmp(st, 'eq', v, ('i', 0))
        if v[0] in 'ga':
            return truth
        return True

    def assume_cmp(self, st, pred, a, b):
        if a[0] in ('c', 'n') and b[0] == 'i' and pred in ('eq', 'ne'):
            if b[1] == 0:
                return self.assume(st, a, pred == 'ne')
            if b[1] in (1, -1):
                return self.assume(st, a, pred == 'eq')
            return pred == 'ne'
        if b[0] in ('c', 'n') and a[0] == 'i':
            return self.assume_cmp(st, SWAP[pred], b, a)
        d = self.decide(st, pred, a, b)
        if d is not None:
            return d
        rk = ('rel', a, b)
        if None in a[2:] or None in b[2:]:
            return True             # the values are not known well enough to relate them
        known = st.gh.get(rk)
        if known is not None:
            r = self.implied(known, pred)
            if r is not None:
                return r
            pred = self.both(known, pred)
        known = st.gh.get(('rel', b, a))
        if known is not None:
            r = self.implied(known, SWAP[pred])
            if r is not None:
                return r
            pred = SWAP[self.both(known, SWAP[pred])]
        ok = True
        if a[0] == 's' and b[0] == 's':
            ok = self.refine_ss(st, pred, a, b)
            if ok and pred in ('eq', 'ne', 'slt', 'sge', 'sgt', 'sle', 'ult', 'uge', 'ugt', 'ule'):
                st.gh[rk] = pred
            if ok and pred == 'eq' and a[2] == 0 and b[2] == 0:
                self.on_eq(st, a, b)
            return ok
        if a[0] == 's' and a[2] is not None and b[0] == 'i':
            return self.refine(st, pred, a[1], b[1] - a[2], b[1])
        if b[0] == 's' and b[2] is not None and a[0] == 'i':
            return self.refine(st, SWAP[pred], b[1], a[1] - b[2], a[1])
        if a[0] == 's' and b[0] in 'ga' and pred in ('eq', 'ne'):
            st.gh[rk] = pred
            if pred == 'eq':
                return self.refine(st, 'ne', a[1], 0, 0)
        return True

    def on_eq(self, st, a, b):
        pass

    def both(self, known, pred):
        if known[1:] in ('le', 'ge'):
            if pred == 'ne':
                return known[0] + known[1] + 't'
            if pred == known[0] + {'le': 'ge', 'ge': 'le'}[known[1:]]:
                return 'eq'
            if pred[0] != known[0] or pred[1:] == known[1:]:
                return pred
        return pred

    def implied(self, known, pred):
        """does `a known b` decide `a pred b`?"""
        if known == pred:
            return True
        if NEG[known] == pred:
            return False
        strict = {'slt', 'sgt', 'ult', 'ugt'}
        if known == 'eq':
            return pred in ('sle', 'sge', 'ule', 'uge')
        if known in strict:
            if pred == 'ne':
                return True
            if pred == 'eq':
                return False
            if pred[0] == known[0]:
                if known[1:] == 'lt':
                    return {'le': True, 'gt': False, 'ge': False}.get(pred[1:])
                return {'ge': True, 'lt': False, 'le': False}.get(pred[1:])
        return None

    def refine(self, st, pred, sid, c, craw):
        lo, hi, ne = self.facts(st, sid)
        if pred == 'eq':
            if c < lo or c > hi or c in ne:
                return False
            return self.setfacts(st, sid, c, c, frozenset())
        if pred == 'ne':
            return self.setfacts(st, sid, lo, hi, ne | {c})
        if pred == 'slt':
            return self.setfacts(st, sid, lo, min(hi, c - 1), ne)
        if pred == 'sle':
            return self.setfacts(st, sid, lo, min(hi, c), ne)
        if pred == 'sgt':
            return self.setfacts(st, sid, max(lo, c + 1), hi, ne)
        if pred == 'sge':
            return self.setfacts(st, sid, max(lo, c), hi, ne)
        off = craw - c
        if pred == 'ult' and craw >= 0:
            return self.setfacts(st, sid, max(lo, -off), min(hi, c - 1), ne)
        if pred == 'ule' and craw >= 0:
            return self.setfacts(st, sid, max(lo, -off), min(hi, c), ne)
        if pred == 'ugt' and craw >= 0:
            if lo + off >= 0:
                return self.setfacts(st, sid, max(lo, c + 1), hi, ne)
            if craw == 0:
                return self.setfacts(st, sid, lo, hi, ne | {c})
        if pred == 'uge' and craw >= 0:
            if lo + off >= 0:
                return self.setfacts(st, sid, max(lo, c), hi, ne)
            if craw == 1:
                return self.setfacts(st, sid, lo, hi, ne | {c - 1})
        return True

    def refine_ss(self, st, pred, a, b):
        if a[2] is None or b[2] is None:
            return True
        l1, h1 = self.rng(st, a)
        l2, h2 = self.rng(st, b)
        if pred == 'eq':
            lo, hi = max(l1, l2), min(h1, h2)
            for v in (a, b):
                l, h, ne = self.facts(st, v[1])
                if not self.setfacts(st, v[1], max(l, lo - v[2]), min(h, hi - v[2]), ne):
                    return False
            return True
        if pred[0] == 'u':
            if l1 < 0 or l2 < 0:
                if pred == 'ult' and l1 >= 0:
                    # a <u b: b is not 0
                    l, h, ne = self.facts(st, b[1])
                    return self.setfacts(st, b[1], l, h, ne | {-b[2]})
                if pred == 'ugt' and l2 >= 0:
                    l, h, ne = self.facts(st, a[1])
                    return self.setfacts(st, a[1], l, h, ne | {-a[2]})
                return True
            pred = 's' + pred[1:]
        if pred in ('sgt', 'sge'):
            a, b, l1, h1, l2, h2 = b, a, l2, h2, l1, h1
            pred = {'sgt': 'slt', 'sge': 'sle'}[pred]
        d = 1 if pred == 'slt' else 0
        if pred in ('slt', 'sle'):
            l, h, ne = self.facts(st, a[1])
            if h2 < INF and not self.setfacts(st, a[1], l, min(h, h2 - d - a[2]), ne):
                return False
            l, h, ne = self.facts(st, b[1])
            if l1 > -INF and not self.setfacts(st, b[1], max(l, l1 + d - b[2]), h, ne):
                return False
        return True

    # ------------------------------------------------------------ evaluation
    def val(self, st, v):
        if v[0] == 'v':
            return st.env.get(v[1], ('u',))
        if v[0] in ('i', 'g', 'u'):
            return v
        return ('s', ('k', 'opaque'), None)

    def base_of(self, v):
        """memory base key and offset of a pointer value, or None"""
        if v[0] == 's':
            return v[1], v[2]
        if v[0] in 'ag':
            return (v[0], v[1]), v[2]
        return None

    def run(self):
        t0 = time.time()
        fn = self.fn
        st = St()
        st.env = {}
        st.mem = {}
        st.memo = {}
        st.syms = {}
        st.own = {}
        st.gh = {}
        st.tr = None
        self.params = {}
        for n, (t, name) in enumerate(fn.args):
            sid = ('p', n)
            self.params[n] = sid
            st.env[name] = ('s', sid, 0)
            self.meta['p'] = ('param',)
            if name in self.vstruct:
                st.memo[(sid, 'T')] = ('t', 'struct.' + self.vstruct[name])
        self.init_state(st)
        seen = {}
        heap = []
        cnt = 0
        entry = fn.order[0]
        for s0 in self.init_split(st):
            cnt += 1
            heapq.heappush(heap, (0, cnt, entry, s0))
        while heap:
            _, _, b, st = heapq.heappop(heap)
            self.nstates += 1
            if self.nstates > self.max_states or (self.nstates & 255) == 0 and time.time() - t0 > self.max_time:
                raise Budget('%s: %d states, %.0fs' % (self.fname, self.nstates, time.time() - t0))
            for succ, ns in self.block(b, st):
                sb = seen.setdefault(succ, set())
                if len(sb) > self.coarse1 and succ in self.info.heads:
                    self.coarsen(ns, 1 if len(sb) < self.coarse2 else 2)
                k = ns.key()
                if k in sb:
                    continue
                sb.add(k)
                cnt += 1
                heapq.heappush(heap, (self.info.rpo[succ], cnt, succ, ns))
        self.finish()
        self.wall = time.time() - t0

    def init_state(self, st):
        pass

    coarse1 = 200
    coarse2 = 900

    def coarsen(self, st, level):
        """forget remembered loads and relations (loop heads with many states)"""
        used = set()
        for v in st.env.values():
            if v[0] == 's':
                used.add(v[1])
        for k in [k for k, v in st.memo.items() if k[1] != 'T' and not (v[0] == 's' and (v[1] in st.own))]:
            del st.memo[k]
        for k in [k for k in st.gh if k[0] in ('rel', 'kept')]:
            del st.gh[k]
        st.gh.pop('fail', None)
        st.gh['errno'] = 1          # no longer known
        st.gh['coarse'] = 1
        # objects that only one memory cell refers to are named after that cell
        refs = {}
        for d in (st.env, st.mem, st.memo):
            for k, v in d.items():
                if v[0] == 's':
                    refs.setdefault(v[1], []).append(k if d is st.mem else ('env', k) if d is st.env else None)
                elif v[0] in 'cn':
                    tmp = set()
                    self.cmp_syms(v, tmp)
                    for x in tmp:
                        refs.setdefault(x, []).append(None)
        for k, v in st.gh.items():
            if k[0] == 'fr' and isinstance(v, tuple) and v[0][0] == 's':
                refs.setdefault(v[0][1], []).append(None)
        for x, o in list(st.own.items()):
            r = refs.get(x, [None])
            if o[0] == 'O' and len(r) == 1 and r[0] is not None and isinstance(r[0][1], int) and x[0] != 'z' and \
                    r[0][0] != 'env' and \
                    st.mem[r[0]][2] == 0 and not any(k[0] == x for d in (st.mem, st.memo) for k in d):
                z = ('z', r[0])
                self.meta.setdefault('z', ('obj',))
                self.zloc.setdefault(z, o[2])
                del st.own[x]
                st.own[z] = ('O', o[1], None)
                st.mem[r[0]] = ('s', z, 0)
                f = st.syms.pop(x, None)
                if f is not None:
                    st.syms[z] = f
                else:
                    st.syms.pop(z, None)
        inner = set()
        for v in refs:
            if v[0] == 'e':
                self.expr_syms(v, inner)
        for x, r in refs.items():
            if len(r) != 1 or r[0] is None or x in st.own or x in inner or not isinstance(x[0], int) or \
                    self.meta.get(x[0], ('',))[0] not in ('load', 'expr', 'opaque') or \
                    any(k[0] == x for d in (st.mem, st.memo) for k in d):
                continue
            d, k = (st.env, r[0][1]) if r[0][0] == 'env' else (st.mem, r[0])
            if d is st.mem and not isinstance(k[1], int):
                continue
            z = ('zv', r[0])
            d[k] = ('s', z, d[k][2])
            f = st.syms.pop(x, None)
            if f is not None:
                st.syms[z] = f
            else:
                st.syms.pop(z, None)
        if level > 1:
            for k in [k for k in st.memo if k[1] == 'T' and k[0] not in st.own]:
                del st.memo[k]
            for x, (lo, hi, ne) in list(st.syms.items()):
                if x not in st.own:
                    st.syms[x] = (-INF if lo < 0 else 0, hi if hi > 1 and hi in self.info.tops else INF, frozenset([0]) if 0 in ne or lo > 0 else frozenset())
        live = used | {v[1] for d in (st.mem, st.memo) for v in d.values() if v[0] == 's'} | set(st.own)
        live |= {k[0] for d in (st.mem, st.memo) for k in d}
        ex = [x for x in live if x[0] == 'e']
        while ex:
            x = ex.pop()
            for y in x[2:]:
                if isinstance(y, tuple) and y and y[0] == 's' and y[1] not in live:
                    live.add(y[1])
                    if y[1][0] == 'e':
                        ex.append(y[1])
        for v in st.env.values():
            self.cmp_syms(v, live)
        for x in [x for x in st.syms if x not in live and x[0] != 'p']:
            del st.syms[x]

    def expr_syms(self, x, out):
        for y in x[2:]:
            if isinstance(y, tuple) and y and y[0] == 's':
                out.add(y[1])
                if y[1][0] == 'e':
                    self.expr_syms(y[1], out)

    def cmp_syms(self, v, out):
        if v[0] == 's':
            out.add(v[1])
        elif v[0] == 'c':
            self.cmp_syms(v[2], out)
            self.cmp_syms(v[3], out)
        elif v[0] == 'n':
            self.cmp_syms(v[1], out)

    def init_split(self, st):
        return [st]

    def finish(self):
        pass

    def block(self, b, st):
        """yields (successor, state)"""
        body = self.info.body[b]
        work = [(st, 0)]
        out = []
        while work:
            st, i = work.pop()
            dead = False
            while i < len(body):
                ins = body[i]
                op = ins.op
                if op in ('br', 'cbr', 'switch', 'ret', 'unreachable'):
                    break
                r = self.step(st, ins)
                if r is not None:
                    # list of alternative states (possibly empty)
                    for s2 in r[1:]:
                        work.append((s2, i + 1))
                    if not r:
                        dead = True
                        break
                    st = r[0]
                i += 1
            if dead:
                continue
            ins = body[-1]
            if ins.op == 'br':
                self.edge(b, ins.a[0], st, out)
            elif ins.op == 'cbr':
                c = self.val(st, ins.a[0])
                t, f = ins.x
                if t == f:
                    self.edge(b, t, st, out)
                    continue
                s2 = st.copy()
                line = self.mod.loc(ins.dbg)
                ln = line[0][1] if line else 0
                if self.assume(st, c, True):
                    if c[0] != 'i':
                        st.tr = ('%s:T' % ln, st.tr)
                    self.edge(b, t, st, out)
                if self.assume(s2, c, False):
                    if c[0] != 'i':
                        s2.tr = ('%s:F' % ln, s2.tr)
                    self.edge(b, f, s2, out)
            elif ins.op == 'switch':
                v = self.val(st, ins.a[0])
                bits = ins.ty[1]
                line = self.mod.loc(ins.dbg)
                ln = line[0][1] if line else 0
                dflt = st.copy()
                dok = True
                for cv, lab in ins.x[1]:
                    s2 = st.copy()
                    if self.assume_cmp(s2, 'eq', v, ('i', cv)):
                        s2.tr = ('%s:case %d' % (ln, cv), s2.tr)
                        self.edge(b, lab, s2, out)
                    if dok and not self.assume_cmp(dflt, 'ne', v, ('i', cv)):
                        dok = False
                if dok:
                    dflt.tr = ('%s:default' % ln, dflt.tr)
                    self.edge(b, ins.x[0], dflt, out)
            elif ins.op == 'ret':
                self.exits += 1
                rv = self.val(st, ins.a[0]) if ins.a else None
                self.at_exit(st, ins, rv)
            elif ins.op == 'unreachable':
                pass
        return out

    def edge(self, b, s, st, out):
        if s in self.info.doomed:
            return
        # phis read their operands simultaneously
        new = {}
        head = s in self.info.heads
        back = (b, s) in self.info.backedges
        for p in self.info.phidefs[s]:
            v = None
            for a, pb in zip(p.a, p.x):
                if pb == b:
                    v = a
                    break
            new[p.res] = self.val(st, v)
        env = {n: v for n, v in st.env.items() if n in self.info.livein[s]}
        st.env = env
        if head:
            self.drop_elts(st)
        widen = []
        for p in self.info.phidefs[s]:
            v = new[p.res]
            if head and back:
                w = self.widen(st, p, v)
                if w != v and p.ty[0] == 'int' and (v[0] == 'i' or v[2] is not None):
                    # counters kept in memory that advance with this one stay equal to it
                    for k, x in list(st.mem.items()):
                        if x == v and isinstance(k[1], int):
                            st.mem[k] = w
                v = w
            env[p.res] = v
        if back:
            self.widen_mem(st)
        self.at_edge(st, b, s, back)
        self.gc(st, b, s)
        out.append((s, st))

    def at_edge(self, st, b, s, back):
        pass

    def widen(self, st, p, v):
        if p.ty[0] == 'int' and p.ty[1] > 1:
            if v[0] == 'i' and not (-1 <= v[1] <= 1) and v[1] != INT_MAX:
                sid = ('w', p.id)
                self.meta[sid[0]] = ('widen',)
                self.move_rels(st, sid, None)
                st.syms[sid] = (2, self.info.top(v[1]), frozenset()) if v[1] > 1 else (-INF, -2, frozenset())
                return ('s', sid, 0)
            if v[0] == 's' and (v[2] is None or v[2] != 0 or v[1][0] == 'e'):
                lo, hi = self.rng(st, v)
                sid = ('w', p.id)
                self.move_rels(st, sid, v, lo)
                lo = max([t for t in (-INF, -1, 0, 1, 2, INT_MAX) if t <= lo], default=-INF)
                hi = min([t for t in self.info.tops if t >= hi], default=INF)
                if lo <= -INF and hi >= INF:
                    st.syms.pop(sid, None)
                else:
                    st.syms[sid] = (lo, hi, frozenset())
                return ('s', sid, 0)
        if p.ty[0] == 'ptr' and v[0] in 'sga' and v[2]:
            d = self.info.defs.get(p.res)
            if abs(v[2]) > 0:
                return (v[0], v[1], None)
        return v

    def move_rels(self, st, sid, v, lo=None):
        """symbol sid takes the value v: what was known about the old sid goes, upper bounds of v stay"""
        new = []
        if v is not None and v[2] is not None and lo >= 0 and v[2] <= 1:
            b = ('s', v[1], 0)
            for k, r in st.gh.items():
                if k[0] == 'rel' and b in k[1:3]:
                    y = k[2]
                    if k[1] != b:
                        y, r = k[1], SWAP[r]
                    if r[1:] in ('lt', 'le') and y != b:
                        n = v[2] + (r[1:] == 'le')
                        if n <= 1:
                            new.append((y, r[0] + ('le' if n == 1 else 'lt')))
            if v[2] < 0 and v[1] != sid:
                new.append((b, 'ult'))
        for k in [k for k in st.gh if k[0] == 'rel' and any(self.mentions(x, sid) for x in k[1:3])]:
            del st.gh[k]
        for y, r in new:
            if not self.mentions(y, sid):
                st.gh[('rel', ('s', sid, 0), y)] = r

    def mentions(self, v, sid):
        return v[0] == 's' and (v[1] == sid or v[1][0] == 'e' and
                                any(isinstance(y, tuple) and self.mentions(y, sid) for y in v[1][2:]))

    def widen_mem(self, st):
        for x, (lo, hi, ne) in list(st.syms.items()):
            if lo > 2 and lo not in (INT_MAX,) or (-INF < lo < -1):
                lo = max(t for t in (-INF, -1, 0, 1, 2, INT_MAX) if t <= lo)
            if (1 < hi < INF and hi not in self.info.tops) or -INF < hi < -2:
                hi = min(t for t in self.info.tops if t >= hi)
            if len(ne) > 3:
                ne = frozenset(n for n in ne if n in (0, 1, INT_MAX))
            st.syms[x] = (lo, hi, ne)
        for k, v in list(st.mem.items()):
            if not isinstance(k[1], int):
                continue
            if v[0] == 'i' and not (-1 <= v[1] <= 1) and v[1] != INT_MAX and k[0][0] == 'a':
                sid = ('wm', k)
                self.meta['wm'] = ('widen',)
                st.syms[sid] = (2, self.info.top(v[1]), frozenset()) if v[1] > 1 else (-INF, -2, frozenset())
                st.mem[k] = ('s', sid, 0)
            elif v[0] == 's' and v[2] and (k[0][0] == 'a' or v[2] not in (1, -1)):
                st.mem[k] = ('s', v[1], None)

    # ------------------------------------------------------------ garbage collection
    def gc(self, st, b=None, s=None, roots=()):
        reach = set()
        work = []

        def addv(v):
            if v[0] == 's':
                x = v[1]
                if x not in reach:
                    reach.add(x)
                    work.append(x)
            elif v[0] == 'a':
                x = ('a', v[1])
                if x not in reach:
                    reach.add(x)
                    work.append(x)
            elif v[0] == 'c':
                addv(v[2])
                addv(v[3])
            elif v[0] == 'n':
                addv(v[1])
        for v in st.env.values():
            addv(v)
        live_env = set(reach)
        for r in roots:
            addv(r)
        if b is not None:
            for k, v in st.gh.items():
                if k[0] == 'xref':
                    addv(v)
        for n, sid in self.params.items():
            if not self.param_consumed(n):
                if sid not in reach:
                    reach.add(sid)
                    work.append(sid)
        live_env |= {sid for sid in self.params.values()}
        live_env |= self.keep_live(st)
        idx = {}
        for k, v in st.mem.items():
            if k[0][0] == 'g':
                addv(v)
            elif v[0] == 's' and k[0] not in reach and v[1] in st.own and st.own[v[1]][0] == 'O' and \
                    self.foreign(st, k[0]):
                reach.add(k[0])
                work.append(k[0])
            idx.setdefault(k[0], []).append(v)
        # loads through memory we do not own are only remembered for objects still at hand
        xs = [(k, v) for k, v in st.memo.items() if isinstance(k[1], tuple) and k[1][0] == 'X']
        if xs:
            held = {v[1] for k, v in st.memo.items() if v[0] == 's' and k[0] in live_env}
            for k, v in xs:
                if k[0] in held and v[0] == 's':
                    live_env |= {k[0], v[1]}
        drop = [k for k, v in st.memo.items()
                if k[0] not in live_env and k[0][0] != 'g' and not (v[0] == 's' and v[1] in st.own)
                and not (k[0] in st.own)]
        for k in drop:
            del st.memo[k]
        for k, v in st.memo.items():
            if k[0][0] == 'g':
                addv(v)
            if isinstance(k[1], tuple) and k[1][0] == 'X' and v[0] == 's' and st.own.get(v[1], '-')[0] == 'O':
                continue        # remembering where an object was found does not hold it
            idx.setdefault(k[0], []).append(v)
        while work:
            x = work.pop()
            if x[0] == 'e':
                for y in x[2:]:
                    if isinstance(y, tuple):
                        addv(y)
            if x in st.own and st.own[x][0] == 'F' and not self.is_deep_keep(x):
                continue
            for v in idx.get(x, ()):
                addv(v)
        # leaks: owned objects nobody can reach any more
        for sid, o in list(st.own.items()):
            if sid not in reach:
                if o[0] == 'O':
                    self.on_unreachable(st, sid, o, b, s)
                del st.own[sid]
        for d in (st.mem, st.memo):
            for k in [k for k in d if k[0] not in reach and k[0][0] != 'g' or
                      isinstance(k[1], tuple) and k[1][0] == 'X' and d[k][0] == 's' and d[k][1] not in reach]:
                del d[k]
        for sid in [x for x in st.syms if x not in reach]:
            del st.syms[sid]
        for k in [k for k in st.gh if k[0] in ('rel', 'kept')]:
            for v in k[1:]:
                if v[0] == 's' and v[1] not in reach and not (v[1][0] == 'e' and k[0] == 'rel' and
                                                              self.leaves_live(v[1], reach)):
                    del st.gh[k]
                    break
        for k in [k for k in st.gh if k[0] in ('fr', 'fre') and k[1] not in reach and k[1][0] != 'g']:
            del st.gh[k]
        return reach

    def leaves_live(self, x, reach):
        for y in x[2:]:
            if isinstance(y, tuple) and y and y[0] == 's' and y[1] not in reach and \
                    not (y[1][0] == 'e' and self.leaves_live(y[1], reach)):
                return False
        return True

    def keep_live(self, st):
        return set()

    def foreign(self, st, base):
        """memory that existed before and outlives this function (found by loading a pointer)"""
        if base in st.own or not isinstance(base[0], int):
            return False
        m = self.meta.get(base[0])
        return m is not None and m[0] in ('load', 'call')

    def is_deep_keep(self, sid):
        return False

    def param_consumed(self, n):
        return False

    def on_unreachable(self, st, sid, o, b, s):
        pass

    # ------------------------------------------------------------ instructions
    def step(self, st, ins):
        r = self.step1(st, ins)
        if ins.res in self.vstruct:
            for s in ([st] if r is None else r):
                v = s.env.get(ins.res)
                if v is not None and v[0] == 's' and v[2] == 0 and (v[1], 'T') not in s.memo:
                    s.memo[(v[1], 'T')] = ('t', 'struct.' + self.vstruct[ins.res])
        return r

    def step1(self, st, ins):
        op = ins.op
        if op == 'load':
            st.env[ins.res] = self.do_load(st, ins, self.val(st, ins.a[0]))
        elif op == 'store':
            self.do_store(st, ins, self.val(st, ins.a[0]), self.val(st, ins.a[1]))
        elif op == 'gep':
            st.env[ins.res] = self.do_gep(st, ins)
        elif op == 'call':
            return self.do_call(st, ins)
        elif op == 'icmp':
            a = self.val(st, ins.a[0])
            b = self.val(st, ins.a[1])
            st.env[ins.res] = self.do_icmp(st, ins, a, b)
        elif op == 'bin':
            st.env[ins.res] = self.do_bin(st, ins, self.val(st, ins.a[0]), self.val(st, ins.a[1]))
        elif op == 'cast':
            st.env[ins.res] = self.do_cast(st, ins, self.val(st, ins.a[0]))
        elif op == 'select':
            c = self.val(st, ins.a[0])
            s2 = st.copy()
            r = []
            if self.assume(st, c, True):
                st.env[ins.res] = self.val(st, ins.a[1])
                r.append(st)
            if self.assume(s2, c, False):
                s2.env[ins.res] = self.val(s2, ins.a[2])
                r.append(s2)
            return r
        elif op == 'alloca':
            st.env[ins.res] = ('a', ins.res, 0)
            st.mem[(('a', ins.res), 'D')] = ('u',)
        elif op == 'opaque':
            if ins.res:
                st.env[ins.res] = self.newsym(st, ins, ('opaque',))
        else:
            raise Exception('step ' + op)
        return None

    def newsym(self, st, ins, origin):
        self.meta[ins.id] = origin
        return ('s', self.fresh(st, ins.id), 0)

    def do_icmp(self, st, ins, a, b):
        d = self.decide(st, ins.x, a, b)
        if d is not None:
            return ('i', 1 if d else 0)
        if a[0] == 'u' or b[0] == 'u':
            return ('u',)
        if a[0] == b[0] and a[0] in 'sga' and a[1] == b[1] and ins.ty[0] == 'ptr':
            # a pointer compared with base + index: the same as comparing the index with zero
            ia = self.gep_index(st, ins.a[0])
            ib = self.gep_index(st, ins.a[1])
            if b[2] is None and a[2] is not None and ib is not None and ib[0] == a:
                return ('c', ins.x, ('i', 0), ib[1])
            if a[2] is None and b[2] is not None and ia is not None and ia[0] == b:
                return ('c', ins.x, ia[1], ('i', 0))
        return ('c', ins.x, a, b)

    def gep_index(self, st, op):
        d = self.info.defs.get(op[1]) if op[0] == 'v' else None
        if d is None or d.op != 'gep' or d.x[0] is not None or len(d.x[3]) != 1:
            return None
        return self.val(st, d.a[0]), self.val(st, d.x[3][0])

    def do_gep(self, st, ins):
        off, sty, fld, idx = ins.x
        v = self.val(st, ins.a[0])
        if v[0] == 'i':
            if v[1] == 0:
                self.on_null_use(st, ins, v, 'gep')
                if off:
                    return ('i', off)
            return v if not off else ('i', v[1] + (off or 0))
        if v[0] not in 'sga':
            return v
        o = off
        if o is None:
            # dynamic indices that are constants here
            o = self.dyn_off(st, sty, idx)
        if fld is not None and v[0] == 's' and v[2] == 0 and sty[0] == 'named':
            t = st.memo.get((v[1], 'T'))
            if t is None or 'anon' in t[1] and 'anon' not in sty[1]:
                st.memo[(v[1], 'T')] = ('t', sty[1])
        if o is None or v[2] is None:
            return (v[0], v[1], None)
        return (v[0], v[1], v[2] + o)

    def dyn_off(self, st, sty, idx):
        from irparse import gep_off
        r = []
        for ix in idx:
            x = self.val(st, ix)
            if x[0] != 'i':
                return None
            r.append(x)
        return gep_off(self.mod.types, sty, r)[0]

    def do_bin(self, st, ins, a, b):
        op = ins.x
        bits = ins.ty[1] if ins.ty[0] == 'int' else 64
        if a[0] == 'u' or b[0] == 'u':
            return ('u',)
        if a[0] == 'i' and b[0] == 'i' and ins.ty[0] == 'int':
            x, y = a[1], b[1]
            ux, uy = x & ((1 << bits) - 1), y & ((1 << bits) - 1)
            try:
                if op == 'add':
                    r = x + y
                elif op == 'sub':
                    r = x - y
                elif op == 'mul':
                    r = x * y
                elif op == 'and':
                    r = ux & uy
                elif op == 'or':
                    r = ux | uy
                elif op == 'xor':
                    r = ux ^ uy
                elif op == 'shl':
                    r = ux << uy
                elif op == 'lshr':
                    r = ux >> uy
                elif op == 'ashr':
                    r = x >> uy
                elif op == 'udiv':
                    r = ux // uy
                elif op == 'urem':
                    r = ux % uy
                elif op == 'sdiv':
                    r = int(x / y)
                else:
                    r = x - y * int(x / y)
                if bits == 1:
                    return ('i', r & 1)
                return ('i', wrap(r, bits))
            except (ZeroDivisionError, ValueError, OverflowError):
                return self.newsym(st, ins, ('expr',))
        if op == 'xor' and b == ('i', 1) and bits == 1 or op == 'xor' and a[0] in ('c', 'n') and b == ('i', 1):
            return ('n', a)
        if op == 'add' and b[0] == 'i' and a[0] in 'sga':
            return (a[0], a[1], None if a[2] is None else a[2] + b[1])
        if op == 'add' and a[0] == 'i' and b[0] in 'sga':
            return (b[0], b[1], None if b[2] is None else b[2] + a[1])
        if op == 'sub' and b[0] == 'i' and a[0] in 'sga':
            return (a[0], a[1], None if a[2] is None else a[2] - b[1])
        if op == 'sub' and a[0] == b[0] and a[0] in 'sga' and a[1] == b[1] and a[2] is not None \
                and b[2] is not None:
            return ('i', a[2] - b[2])
        if op in ('and', 'mul') and (a == ('i', 0) or b == ('i', 0)):
            return ('i', 0)
        if op == 'mul' and b == ('i', 1):
            return a
        if op == 'or' and a == ('i', 0):
            return b
        if op == 'or' and b == ('i', 0):
            return a
        if bits == 1 and op in ('and', 'or') and (a[0] == 'i' or b[0] == 'i'):
            k, o = (a, b) if a[0] == 'i' else (b, a)
            if op == 'and':
                return o if k[1] else ('i', 0)
            return ('i', 1) if k[1] else o
        # structural symbol: same operands give the same symbol
        sid = ('e', op, a, b)
        if self.depth(sid) > 4 or a[0] not in 'si' or b[0] not in 'si':
            return self.newsym(st, ins, ('expr', op))
        self.meta['e'] = ('expr',)
        if sid not in st.syms:
            l1, h1 = self.rng(st, a)
            l2, h2 = self.rng(st, b)
            lo, hi = -INF, INF
            if op == 'add':
                lo = l1 + l2 if l1 > -INF and l2 > -INF else -INF
                hi = h1 + h2 if h1 < INF and h2 < INF else INF
            elif op == 'sub':
                lo = l1 - h2 if l1 > -INF and h2 < INF else -INF
                hi = h1 - l2 if h1 < INF and l2 > -INF else INF
            elif op == 'and':
                m = [v[1] for v in (a, b) if v[0] == 'i' and v[1] >= 0]
                if m:
                    lo, hi = 0, min(m)
            elif op == 'mul' and l1 >= 0 and l2 >= 0:
                lo = l1 * l2
                hi = h1 * h2 if h1 < INF and h2 < INF else INF
            elif op == 'lshr' or op in ('udiv', 'urem'):
                if l1 >= 0:
                    lo, hi = 0, h1
            if lo > -INF or hi < INF:
                st.syms[sid] = (max(lo, -INF), min(hi, INF), frozenset())
                if lo == hi:
                    st.syms.pop(sid)
                    return ('i', lo)
        return ('s', sid, 0)

    def depth(self, x):
        if not isinstance(x, tuple) or not x:
            return 0
        if x[0] == 'e':
            return 1 + max(self.depth(x[2]), self.depth(x[3]))
        if x[0] == 's':
            return self.depth(x[1])
        return 0

    def do_cast(self, st, ins, a):
        op, t1 = ins.x
        if a[0] == 'u':
            return a
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'sext'):
            if op == 'sext' and a[0] in ('c', 'n'):
                return self.newsym(st, ins, ('expr',))
            return a
        if op == 'zext':
            if a[0] in ('c', 'n'):
                return a
            if a[0] == 'i':
                return ('i', a[1] & ((1 << t1[1]) - 1))
            if a[0] == 's':
                lo, hi = self.rng(st, a)
                if lo >= 0:
                    return a
                if t1[1] == 1:
                    return a
                if a[2] == 0 and self.is_u(a[1]):
                    return a
                sid = ('e', 'zext%d' % t1[1], a, ('i', 0))
                if self.depth(sid) > 4:
                    return self.newsym(st, ins, ('expr',))
                self.meta['e'] = ('expr',)
                if sid not in st.syms:
                    st.syms[sid] = (0, (1 << t1[1]) - 1, frozenset())
                return ('s', sid, 0)
            return a
        if op == 'trunc':
            bits = ins.ty[1]
            if a[0] in ('c', 'n'):
                return a
            if a[0] == 'i':
                return ('i', a[1] & 1) if bits == 1 else ('i', wrap(a[1], bits))
            if a[0] == 's':
                lo, hi = self.rng(st, a)
                if bits == 1 and a[2] == 0 and (lo < 0 or hi > 1):
                    # only booleans, which are 0 or 1, are narrowed to one bit
                    _, _, ne = self.facts(st, a[1])
                    ne = frozenset(x for x in ne if 0 <= x <= 1)
                    if not ne and hi >= 1 and lo <= 0:
                        self.setfacts(st, a[1], 0, 1, frozenset())
                if bits == 1 or (lo >= -(1 << (bits - 1)) and hi < (1 << (bits - 1))):
                    return a
                if a[2] == 0 and a[1][0] == 'e' and a[1][1].startswith('zext'):
                    return a[1][2]
                sid = ('e', 'trunc%d' % bits, a, ('i', 0))
                if self.depth(sid) > 4:
                    return self.newsym(st, ins, ('expr',))
                self.meta['e'] = ('expr',)
                return ('s', sid, 0)
            return a
        return self.newsym(st, ins, ('expr',))

    def is_u(self, sid):
        return False

    # ------------------------------------------------------------ memory
    def do_load(self, st, ins, p):
        b = self.deref(st, ins, p, 'load')
        if b is None:
            return self.newsym(st, ins, ('load', None, None))
        base, off = b
        org = self.org_of(st, ins.a[0], base, off)
        if base[0] == 'g':
            v = self.load_global(st, ins, base[1], off)
            if v is not None:
                return v
        if off is None:
            v = self.load_unknown_off(st, ins, base)
            if v is not None:
                return v
            key = self.elt_key(st, ins, base)
            if key is not None and key in st.memo:
                return st.memo[key]
            v = self.newsym(st, ins, ('load',) + org + (base,))
            if key is not None:
                st.memo[key] = v
            return v
        v = st.mem.get((base, off))
        if v is not None:
            return v
        v = st.memo.get((base, off))
        if v is not None:
            return v
        d = st.mem.get((base, 'D'))
        if d is not None:
            if d == ('i', 0):
                return ('i', 0)
            if d == ('u',):
                self.on_uninit(st, ins, base, off)
                return ('u',)
        v = self.newsym(st, ins, ('load',) + org + (base,))
        self.load_facts(st, ins, v, org)
        st.memo[(base, off)] = v
        return v

    def elt_key(self, st, ins, base):
        """memo key of an element read at a symbolic index: the same index gives the same element until a write"""
        if ins.ty[0] != 'ptr' or base[0] in ('a', 'g'):
            return None
        sig = []
        op = ins.a[0]
        while True:
            if op[0] != 'v':
                return None
            d = self.info.defs.get(op[1])
            if d is None or d.op != 'gep' or len(sig) > 3:
                return None
            sig.append((d.x[0],) + tuple(self.val(st, x) for x in d.x[3]) if d.x[0] is None else (d.x[0],))
            v = self.val(st, d.a[0])
            if v[0] != 's':
                return None
            if v[2] is not None:
                sig.append((v[2],))
                break
            op = d.a[0]
        syms = set()
        for g in sig:
            for x in g[1:]:
                if x[0] == 's':
                    self.leaf_syms(x[1], syms)
                elif x[0] != 'i':
                    return None
        return (base, ('X', frozenset(syms), tuple(sig)))

    def leaf_syms(self, sid, out):
        out.add(sid)
        if sid[0] == 'e':
            for y in sid[2:]:
                if isinstance(y, tuple) and y[0] == 's':
                    self.leaf_syms(y[1], out)

    def drop_elts(self, st, base=None, sid=None):
        for k in [k for k in st.memo if isinstance(k[1], tuple) and k[1][0] == 'X']:
            if base is not None and k[0] != base or sid is not None and sid not in k[1][1]:
                continue
            del st.memo[k]

    def load_facts(self, st, ins, v, org):
        t = ins.ty
        if t[0] == 'int' and t[1] == 8 and self.spec.is_bool(org):
            st.syms[v[1]] = (0, 1, frozenset())
        elif t[0] == 'int' and t[1] >= 32 and self.spec.is_unsigned(org):
            st.syms[v[1]] = (0, INF, frozenset())
        elif t[0] == 'ptr' and org[0] and 'yaml_node_s' in org[0] and org[1] == 16:
            # libyaml: the value of a scalar, the items of a sequence and the pairs of a mapping are never NULL
            st.syms[v[1]] = (-INF, INF, frozenset([0]))

    def load_unknown_off(self, st, ins, base):
        return None

    def on_uninit(self, st, ins, base, off):
        pass

    def load_global(self, st, ins, name, off):
        if name == 'ec_malloc_handler':
            return ('g', '<handler>', 0)
        g = self.mod.globals.get(name)
        if g is not None and g[2] and g[1] is not None and off is not None:
            v = const_at(self.mod.types, g[0], g[1], off)
            if v is not None and v[0] in ('i', 'g'):
                return v
        return None

    def org_of(self, st, op, base, off):
        """field denoted by an address: from the access itself, else from what is known of the object"""
        o = self.origin(op)
        if o[0] is None and isinstance(off, int):
            t = st.memo.get((base, 'T'))
            if t is not None:
                return (t[1], off)
        return o

    def origin(self, op):
        """(struct, field offset) the address operand denotes, if it is a field access"""
        if op[0] == 'v':
            d = self.info.defs.get(op[1])
            if d is not None and d.op == 'gep' and d.x[2] is not None:
                st, off = d.x[2]
                if 'anon' in st:
                    # member of an unnamed struct/union: attribute it to the enclosing one
                    o = self.origin(d.a[0])
                    if o[0] is not None:
                        return (o[0], o[1] + off)
                return d.x[2]
            if d is not None and d.op == 'gep' and d.x[1][0] == 'named' and len(d.x[3] or ()) == 1:
                return (d.x[1][1], 0)       # first field of an element (the step to offset 0 does not appear)
        return (None, None)

    def do_store(self, st, ins, v, p):
        b = self.deref(st, ins, p, 'store')
        if b is None:
            self.on_store_unknown(st, ins, v)
            return
        base, off = b
        self.write(st, ins, base, off, v, self.mod.types.size(ins.ty))

    def write(self, st, ins, base, off, v, size):
        self.drop_elts(st, base)
        if off is None:
            self.on_store(st, ins, base, off, v)
            # weak update: forget what was known of this object
            for d in (st.mem, st.memo):
                for k in [k for k in d if k[0] == base and isinstance(k[1], int)]:
                    ov = d[k]
                    if ov[0] == 's' and ov[1] in st.own:
                        continue
                    del d[k]
            dd = st.mem.get((base, 'D'))
            if dd is not None:
                st.mem.pop((base, 'D'))
            return
        self.on_store(st, ins, base, off, v)
        for d in (st.mem, st.memo):
            for k in [k for k in d if k[0] == base and isinstance(k[1], int) and k[1] != off and
                      off < k[1] < off + size]:
                del d[k]
        st.memo.pop((base, off), None)
        st.mem[(base, off)] = v

    def on_store(self, st, ins, base, off, v):
        pass

    def on_store_unknown(self, st, ins, v):
        pass

    def deref(self, st, ins, p, why):
        """memory base of pointer p; reports bad dereferences; None if not tracked"""
        if p[0] == 'i':
            if -4096 < p[1] < 4096:
                self.on_null_use(st, ins, p, why)
            return None
        if p[0] in 'sag':
            return self.base_of(p)
        return None

    def on_null_use(self, st, ins, p, why):
        pass

    def havoc(self, st, v, seen=None):
        """memory reachable from v may have been rewritten by a callee"""
        b = self.base_of(v)
        if b is None:
            return
        base = b[0]
        rng = None
        if seen is None:
            seen = set()
            rng = self.sub_range(st, base, b[1])
        if base in seen:
            return
        seen.add(base)
        if base in st.own and st.own[base][0] == 'F':
            return
        vals = []
        for d in (st.mem, st.memo):
            for k in [k for k in d if k[0] == base]:
                if k[1] == 'T':
                    continue
                if rng is not None and not (isinstance(k[1], int) and rng[0] <= k[1] < rng[1]):
                    continue
                x = d.pop(k)
                if not (isinstance(k[1], tuple) and k[1][0] == 'X'):
                    vals.append(x)
        for x in vals:
            if x[0] in 'sa':
                bb = self.base_of(x)[0]
                if bb == base:
                    continue
                self.on_havoc_child(st, bb)
                self.havoc(st, x, seen)

    def sub_range(self, st, base, off):
        """bytes a callee can change through a pointer to a member of a structure"""
        if not off:
            return None
        t = st.memo.get((base, 'T'))
        if t is None:
            return None
        return self.spec.member_range(t[1], off)

    def on_havoc_child(self, st, sid):
        if sid in st.own and st.own[sid][0] == 'O':
            del st.own[sid]

    # ------------------------------------------------------------ calls (contract driven; see rules)
    def do_call(self, st, ins):
        raise NotImplementedError

    def at_exit(self, st, ins, rv):
        pass


def const_at(types, t, init, off):
    """constant stored at byte `off` of a constant initialiser"""
    if init is None:
        return None
    if init[0] == 'zero':
        return ('i', 0)
    if init[0] == 'agg':
        if t[0] in ('named', 'lit') or init[1][0] in ('named', 'lit'):
            tt = init[1]
            elts = init[2]
            # use the element types recorded with the initialiser
            o = 0
            cur = 0
            for (et, ev) in elts:
                s, a, _ = types.layout(et)
                cur = (cur + a - 1) // a * a
                if cur <= off < cur + max(s, 1):
                    return const_at(types, et, ev, off - cur)
                cur += s
            return None
        if t[0] == 'arr':
            s = types.size(t[2])
            k = off // s
            if k < len(init[2]):
                et, ev = init[2][k]
                return const_at(types, et, ev, off - k * s)
        return None
    if init[0] == 'str':
        return None
    if off == 0:
        return init
    return None
