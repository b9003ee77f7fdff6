"""Every way around every loop makes progress: something the way out depends on changes."""
import sys

import frontend
from engine import FnInfo

MAXPATHS = 3000
# results that only depend on the arguments (and what they point to)
PURE_EXT = {'strlen', 'strnlen', 'strcmp', 'strncmp', 'strcasecmp', 'strncasecmp', 'memcmp', 'strchr', 'strrchr', 'strstr',
            'isspace', 'isalpha', 'isdigit', 'isalnum', 'isblank', 'isprint', 'tolower', 'toupper', 'regexec', 'abs',
            '__ctype_b_loc', 'strdup', 'strndup', 'malloc', 'calloc', 'realloc', 'memcpy', 'memmove', 'memset', 'fprintf',
            'printf', 'puts', 'fputs', 'fputc', 'fnmatch', 'getenv', 'free', '__errno_location', 'snprintf', 'asprintf',
            'ec_log', 'ec_assert_print'}
# what the result of these depends on, although they change other objects
RESULT_OF = {'ec_parse_child': (0, 2), 'ec_complete_child': (0, 2), 'ec_node_parse_child': (0, 2)}
NEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'slt': 'sge', 'sge': 'slt',
       'sgt': 'sle', 'sle': 'sgt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt',
        'sle': 'sge', 'sge': 'sle'}


class Loop:
    def __init__(self, an, head, body):
        self.an = an
        self.head = head
        self.body = body


class Progress:
    def __init__(self, pr, sp, f, effects=None):
        self.effects = effects
        self.pr = pr
        self.sp = sp
        self.di = sp.di
        self.mod = pr.mod
        self.f = f
        self.fn = pr.mod.funcs[f]
        self.info = FnInfo(self.fn)
        self.block_of = {}
        for b, ii in self.fn.blocks.items():
            for i in ii:
                self.block_of[i.id] = b
                if i.res:
                    self.block_of[('v', i.res)] = b
        self.allocas = {i.res for ii in self.fn.blocks.values() for i in ii if i.op == 'alloca'}
        self.npaths = 0
        self.capped = 0

    def loops(self):
        out = {}
        for l, h in self.info.backedges:
            body = {h, l}
            work = [l]
            while work:
                b = work.pop()
                if b == h:
                    continue
                for p in self.info.pred[b]:
                    if p not in body:
                        body.add(p)
                        work.append(p)
            out.setdefault(h, set()).update(body)
        return out

    def run(self):
        ev = []
        ls = self.loops()
        for h, body in ls.items():
            if h in self.info.doomed:
                continue
            bad = self.loop(h, body)
            if bad:
                ev.append((h,) + bad)
        return len(ls), ev

    # ---- paths

    def loop(self, h, body):
        self.h, self.body = h, body
        n = 0
        stack = [(h, (h,))]
        while stack:
            b, path = stack.pop()
            for s in self.info.succ[b]:
                if s == h:
                    n += 1
                    self.npaths += 1
                    if n > MAXPATHS:
                        self.capped += 1
                        return None
                    r = self.check(path)
                    if r:
                        return r
                elif s in body and s not in path and s not in self.info.doomed:
                    np = path + (s,)
                    if self.feasible(np):
                        stack.append((s, np))
        return None

    def feasible(self, path):
        """prune ways whose branches contradict each other"""
        self.path = path
        self.pos = {b: i for i, b in enumerate(path)}
        self.cache = {}
        facts = {}
        for i in range(len(path) - 1):
            t = self.fn.blocks[path[i]][-1]
            if t.op == 'cbr' and t.x[0] != t.x[1]:
                c = self.cond(self.val(t.a[0]), path[i + 1] == t.x[0])
                if c is None:
                    continue
                if c is False:
                    return False
                p, a, b = c
                k = (a, b)
                for q in facts.get(k, ()):
                    if q == NEG[p] or (p == 'eq' and q in ('ult', 'ugt', 'slt', 'sgt')) or \
                            (q == 'eq' and p in ('ult', 'ugt', 'slt', 'sgt')):
                        return False
                if p == 'eq' and b[0] == 'i':
                    for (a2, b2), qs in facts.items():
                        if a2 == a and b2[0] == 'i' and b2 != b and 'eq' in qs:
                            return False
                facts.setdefault(k, set()).add(p)
            elif t.op == 'switch':
                v = self.val(t.a[0])
                if v[0] == 'i':
                    want = dict(t.x[1]).get(v[1], t.x[0])
                    if want != path[i + 1]:
                        return False
        self.facts = facts
        return True

    def cond(self, e, sense):
        """(pred, a, b) that holds, None if unknown, False if it cannot"""
        while e[0] == 'cast':
            e = e[1]
        if e[0] == 'icmp':
            p, a, b = e[1:]
            a, b = self.strip(a), self.strip(b)
            if a[0] == 'i' and b[0] != 'i':
                p, a, b = SWAP[p], b, a
            if b == ('i', 0) and a[0] == 'icmp' and p in ('ne', 'eq'):
                return self.cond(a, sense == (p == 'ne'))
            if not sense:
                p = NEG[p]
            if a[0] == 'i' and b[0] == 'i':
                x, y = a[1], b[1]
                r = {'eq': x == y, 'ne': x != y, 'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}.get(p)
                if r is False:
                    return False
                return None
            if b == ('i', 0) and p == 'ult':
                return False
            return (p, a, b)
        if e[0] == 'i':
            return None if bool(e[1]) == sense else False
        return None

    @staticmethod
    def strip(e):
        while e[0] == 'cast':
            e = e[1]
        return e

    # ---- values on the current path

    def val(self, op):
        if op[0] != 'v':
            return op
        name = op[1]
        if name in self.cache:
            return self.cache[name]
        self.cache[name] = ('opaque', name)
        e = self.val1(name)
        self.cache[name] = e
        return e

    def val1(self, name):
        d = self.info.defs.get(name)
        b = self.block_of.get(('v', name))
        if d is None or b not in self.body:
            return ('inv', name)
        if d.op == 'phi':
            if b == self.h:
                return ('H', name)
            if b in self.pos and self.pos[b] > 0:
                pb = self.path[self.pos[b] - 1]
                for v, q in zip(d.a, d.x):
                    if q == pb:
                        return self.val(v)
            return ('opaque', name)
        if b not in self.pos:
            return ('opaque', name)
        if d.op == 'alloca':
            return ('inv', name)
        if d.op == 'cast':
            return ('cast', self.val(d.a[0]))
        if d.op == 'bin':
            return ('bin', d.x, self.val(d.a[0]), self.val(d.a[1]))
        if d.op == 'icmp':
            return ('icmp', d.x, self.val(d.a[0]), self.val(d.a[1]))
        if d.op == 'gep':
            return ('gep', self.val(d.a[0]), d.x[0], tuple(self.val(x) for x in d.a[1:]))
        if d.op == 'load':
            v = self.just_stored(d, b)
            if v is not None:
                return v
            return ('load', self.val(d.a[0]), name if self.stored_between(d) else '', d.ty[0])
        if d.op == 'select':
            return ('sel', self.val(d.a[0]), self.val(d.a[1]), self.val(d.a[2]))
        if d.op == 'call':
            return ('call', d.id, name)
        return ('opaque', name)

    def just_stored(self, d, b):
        """the value stored at this address before, if nothing else was stored or called since"""
        k = self.pos[b]
        bl = self.fn.blocks[b]
        ins = bl[:next(i for i, x in enumerate(bl) if x is d)]
        for _ in range(4):
            for i in reversed(ins):
                if i.op == 'store':
                    return self.val(i.a[0]) if self.val(i.a[1]) == self.val(d.a[0]) else None
                if i.op == 'call' and not (self.callee(i) or '').startswith('llvm.'):
                    return None
            k -= 1
            if k < 0:
                return None
            ins = self.fn.blocks[self.path[k]]
        return None

    def stored_between(self, d):
        """memory may change on the way around, so loads are told apart"""
        return any(i.op == 'store' for b in self.path for i in self.fn.blocks[b])

    # ---- progress

    def check(self, path):
        if not self.feasible(path):
            return None
        # the edge back to the head may carry a condition
        t = self.fn.blocks[path[-1]][-1]
        if t.op == 'cbr' and t.x[0] != t.x[1]:
            c = self.cond(self.val(t.a[0]), t.x[0] == self.h)
            if c is False:
                return None
            if c is not None:
                if NEG[c[0]] in self.facts.get((c[1], c[2]), ()):
                    return None
                self.facts.setdefault((c[1], c[2]), set()).add(c[0])
        self.chg = {}
        for p in self.info.phidefs[self.h]:
            for v, q in zip(p.a, p.x):
                if q == path[-1]:
                    self.chg[p.res] = self.changed(p.res, self.val(v))
        last = []
        for i, b in enumerate(path):
            t = self.fn.blocks[b][-1]
            if t.op not in ('cbr', 'switch'):
                continue
            if all(s in self.body or s in self.info.doomed for s in self.info.succ[b]):
                continue
            c = self.val(t.a[0])
            last.append(t)
            if t.op == 'cbr' and self.cond(c, path[i + 1] == t.x[0] if i + 1 < len(path) else t.x[0] == self.h) is None and \
                    c[0] == 'i':
                continue
            if self.dep(c, 0):
                return None
        t = last[-1] if last else self.fn.blocks[path[-1]][-1]
        if not last and any(self.writes(i) for b in path for i in self.fn.blocks[b]):
            return None
        return (t, path)

    def changed(self, name, e):
        e = self.strip(e)
        if e == ('H', name) or e[0] in ('i', 'n', 'inv', 'g', 'u', 'zero'):
            return False
        if e[0] == 'H':
            return self.chg.get(e[1], True)
        if e[0] == 'bin' and e[1] in ('add', 'sub'):
            x, y = self.strip(e[2]), self.strip(e[3])
            if x == ('H', name):
                return self.nonzero(y)
            if y == ('H', name) and e[1] == 'add':
                return self.nonzero(x)
            if x[0] == 'bin' or y[0] == 'bin':      # (v + a) + b
                parts = self.sum(e)
                if parts is not None and ('H', name) in parts:
                    parts.remove(('H', name))
                    return any(self.nonzero(q) for q in parts)
        if e[0] == 'gep':
            b = self.strip(e[1])
            if b == ('H', name):
                return e[2] not in (0, None) or any(self.nonzero(self.strip(x)) for x in e[3])
            if b[0] == 'gep':
                return self.changed(name, b) or e[2] not in (0, None)
        if e[0] == 'call':
            return self.dep(e, 0)       # the same again from the second time on
        return True

    def sum(self, e):
        e = self.strip(e)
        if e[0] == 'bin' and e[1] == 'add':
            a, b = self.sum(e[2]), self.sum(e[3])
            return a + b if a is not None and b is not None else None
        return [e]

    def nonzero(self, e):
        if e[0] == 'i':
            return e[1] != 0
        for (a, b), ps in self.facts.items():
            if a == e and b[0] == 'i':
                n = b[1]
                for p in ps:
                    if p == 'ne' and n == 0 or p in ('sgt', 'ugt') and n >= 0 or p in ('sge', 'uge') and n > 0 or \
                            p == 'slt' and n <= 0 or p == 'sle' and n < 0 or p == 'eq' and n != 0:
                        return True
            if b == e and a == ('i', 0) and 'ne' in ps:
                return True
        if e[0] == 'inv':
            return self.inv_nonzero(e[1], self.h)
        if e[0] in ('call', 'load', 'H', 'cast', 'sel'):
            return False
        return True         # not understood

    def inv_nonzero(self, name, at, d=0):
        """a value computed before the loop is not 0 when block at is reached"""
        if self.guarded(name, at):
            return True
        i = self.info.defs.get(name)
        if i is None or d > 3:
            return False
        if i.op == 'cast':
            return i.a[0][0] == 'v' and self.inv_nonzero(i.a[0][1], at, d + 1)
        if i.op == 'phi':
            b = self.block_of[('v', name)]
            return all(v[0] == 'i' and v[1] != 0 or v[0] == 'v' and (self.edge_nonzero(q, b, v[1]) or
                                                                     self.inv_nonzero(v[1], q, d + 1))
                       for v, q in zip(i.a, i.x))
        if i.op == 'bin' and i.x == 'add':
            return any(x[0] == 'i' and x[1] > 0 for x in i.a)
        if i.op in ('load', 'call', 'phi', 'select'):
            return False
        return i.op != 'bin'

    def edge_nonzero(self, p, b, name):
        t = self.fn.blocks[p][-1]
        if t.op != 'cbr' or t.x[0] == t.x[1] or t.a[0][0] != 'v':
            return False
        c = self.info.defs.get(t.a[0][1])
        if c is None or c.op != 'icmp' or ('v', name) not in c.a:
            return False
        o = [x for x in c.a if x != ('v', name)]
        if not o or o[0] not in (('i', 0), ('n',)):
            return False
        pr = c.x if c.a[0] == ('v', name) else SWAP[c.x]
        if b == t.x[1]:
            pr = NEG[pr]
        return pr in ('ne', 'ugt', 'sgt', 'slt')

    def guarded(self, name, b):
        for _ in range(60):
            ps = [p for p in self.info.pred[b] if (p, b) not in self.info.backedges]
            if len(ps) != 1:
                return False
            if self.edge_nonzero(ps[0], b, name):
                return True
            b = ps[0]
        return False

    def dep(self, e, d):
        """the value may differ the next time around"""
        if d > 12:
            return True
        k = e[0]
        if k in ('i', 'inv', 'g', 'n', 'u', 'zero', 'null'):
            return False
        if k == 'H':
            return self.chg.get(e[1], True)
        if k == 'cast':
            return self.dep(e[1], d + 1)
        if k == 'icmp' and e[1] in ('eq', 'ne') and any(self.created(x) for x in e[2:]):
            return False        # running out of memory is no way to end a loop
        if k in ('bin', 'icmp'):
            return self.dep(e[2], d + 1) or self.dep(e[3], d + 1)
        if k == 'sel':
            return any(self.dep(x, d + 1) for x in e[1:])
        if k == 'gep':
            return self.dep(e[1], d + 1) or any(self.dep(x, d + 1) for x in e[3])
        if k == 'load':
            r = self.root(e[1])
            if self.dep(e[1], d + 1):
                return True
            if r[0] == 'inv' and r[1] in self.allocas:
                return self.alloca_changes(r[1], d)
            return any(self.touches(i, [e[1]], e[3] == 'int') for b in self.path for i in self.fn.blocks[b])
        if k == 'call':
            return self.dep_call(self.call_at(e), d)
        return True

    def created(self, e):
        e = self.strip(e)
        if e[0] != 'call':
            return False
        n = self.callee(self.call_at(e))
        c = self.sp.callee(n) if n else None
        if c is None or not c.ret.startswith('own:'):
            return False
        return n.endswith(('malloc', 'calloc', 'realloc', 'strdup', 'strndup')) or \
            n in self.mod.funcs and c.ret[4:] not in ('str', 'mem')

    def call_at(self, e):
        return self.info.byid[e[1]]

    def root(self, e):
        while e[0] in ('gep', 'cast'):
            e = e[1]
        return e

    def callee(self, i):
        return i.a[0][1] if i.a[0][0] == 'g' else None

    def dep_call(self, i, d):
        n = self.callee(i)
        if n is None:
            return True
        if n.startswith('llvm.'):
            return any(self.dep(self.val(a), d + 1) for a in i.a[1:] if isinstance(a, tuple))
        args = [self.val(a) for a in i.a[1:]]
        base = frontend.basename(n)
        if base in RESULT_OF:
            return any(self.dep(args[k], d + 1) for k in RESULT_OF[base] if k < len(args))
        if n not in self.mod.funcs:
            if n not in PURE_EXT:
                return True
        else:
            mut = [a for a in self.mut_args(i) if not self.local(a)]
            c = self.sp.callee(n)
            if mut and (c is None or c.ret != 'int0'):
                return True
            if mut:         # only says whether it worked
                return any(self.dep(self.val(a), d + 1) for a in i.a[1:] if a not in mut)
        return any(self.dep(a, d + 1) for a in args) or \
            any(self.touches(j, args) for b in self.path for j in self.fn.blocks[b])

    def mutates(self, i):
        """a library call that may change an object it was given"""
        return bool(self.mut_args(i))

    def local(self, a):
        r = self.root(self.val(a))
        return r[0] == 'inv' and r[1] in self.allocas

    def mut_args(self, i):
        n = self.callee(i)
        f = self.mod.funcs[n]
        out = []
        for k in range(len(i.a) - 1):
            p = self.di.param(f, k)
            if (p is None or p[0] and not p[1]) and (self.effects is None or n not in self.effects or k in self.effects[n]):
                out.append(i.a[1 + k])
        return out

    def touches(self, j, args, scalar=False):
        """instruction j changes an object that args give"""
        ptrs = [self.root(a) for a in args if a[0] not in ('i', 'n')]
        if j.op == 'store':
            r = self.root(self.val(j.a[1]))
            if r[0] == 'call':
                n = self.callee(self.call_at(r))
                c = self.sp.callee(n) if n else None
                if c is not None and c.ret.startswith('own:') and c.special != 'clone':
                    return r in ptrs        # new memory
            return r in ptrs or r[0] in ('load', 'opaque', 'call') and (not scalar or j.ty[0] == 'int')
        if j.op == 'call':
            n = self.callee(j)
            if n is None:
                return True
            if n.startswith('llvm.'):
                return n.startswith('llvm.mem') and self.root(self.val(j.a[1])) in ptrs
            if n not in self.mod.funcs and n not in PURE_EXT:
                return not scalar or any(self.root(self.val(a)) in ptrs for a in j.a[1:])
            if n in self.mod.funcs and frontend.basename(n) not in RESULT_OF and self.mutates(j):
                return any(self.root(self.val(a)) in ptrs or not scalar and self.from_any(self.val(a), ptrs, 0) for a in self.mut_args(j))
        return False

    def from_any(self, e, ptrs, d):
        """the object was reached through one of ptrs"""
        e = self.root(e)
        if e[0] == 'H' and d < 4:       # what it was given at the end of the previous time around
            p = self.info.defs[e[1]]
            return any(q == self.path[-1] and self.from_any(self.val(v), ptrs, d + 1) for v, q in zip(p.a, p.x))
        if e[0] == 'load':
            r = self.root(e[1])
            return r in ptrs or d < 4 and self.from_any(r, ptrs, d + 1)
        if e[0] == 'call':
            n = self.callee(self.call_at(e))
            c = self.sp.callee(n) if n else None
            if c is not None and c.ret.startswith('own:') and c.special != 'clone':
                return False        # a new object
            return any(self.root(x) in ptrs or d < 4 and self.from_any(x, ptrs, d + 1)
                       for x in (self.val(a) for a in self.call_at(e).a[1:]) if x[0] not in ('i', 'n'))
        return False

    def writes(self, i):
        if i.op == 'store':
            r = self.root(self.val(i.a[1]))
            return not (r[0] == 'inv' and r[1] in self.allocas) and \
                not (r[0] == 'call' and self.callee(self.call_at(r)) == '__errno_location')
        if i.op == 'call':
            n = self.callee(i)
            if n is None:
                return True
            if n.startswith('llvm.'):
                return n.startswith(('llvm.mem',))
            if n not in self.mod.funcs:
                return n not in PURE_EXT or n in ('memcpy', 'memmove', 'memset')
            return self.mutates(i)
        return False

    def alloca_changes(self, name, d):
        """what a local variable holds may differ the next time around"""
        for b in self.path:
            for i in self.fn.blocks[b]:
                if i.op == 'store' and self.root(self.val(i.a[1])) == ('inv', name):
                    v = self.val(i.a[0])
                    if self.dep(v, d + 1) or self.self_update(v, name):
                        return True
                if i.op == 'call' and not (self.callee(i) or '').startswith('llvm.') and \
                        any(self.root(self.val(a)) == ('inv', name) for a in i.a[1:]):
                    n = self.callee(i)
                    if n is None or n not in self.mod.funcs and n not in PURE_EXT:
                        return True
                    if any(self.root(self.val(a)) != ('inv', name) and self.dep(self.val(a), d + 1) for a in i.a[1:]):
                        return True
                    if n in self.mod.funcs and len(i.a) == 2:
                        return True
        return False

    def self_update(self, v, name):
        v = self.strip(v)
        return v[0] in ('bin', 'gep') and any(x[0] == 'load' for x in v if isinstance(x, tuple))


def post_progress(pr, sp, R):
    out = []
    n = paths = capped = 0
    for f in pr.analyse:
        a = Progress(pr, sp, f, R.mod)
        k, ev = a.run()
        n += k
        paths += a.npaths
        capped += a.capped
        for h, t, path in ev:
            out.append(dict(kind='noprogress', func=f, loc=pr.mod.loc(t.dbg), trace=list(path)[-8:],
                            msg='there is a way around the loop on which nothing that ends the loop changes'))
    R.counts['loops'] = n
    R.counts['loop_paths'] = paths
    R.counts['loops_capped'] = capped
    return out


if __name__ == '__main__':
    import runner
    import time
    import dev
    R = runner.run_all(None, int(sys.argv[1]) if len(sys.argv) > 1 else 8)
    t = time.time()
    for e in post_progress(runner.PR, runner.SP, R):
        print(e)
    print({k: v for k, v in R.counts.items() if 'loop' in k}, time.time() - t)
