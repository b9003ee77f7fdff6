"""Binds the contract table to the program being analysed."""
import contracts
from contracts import C
from ditypes import DI
import frontend


class Spec:
    def __init__(self):
        pass

    def bind(self, prog):
        self.prog = prog
        self.mod = prog.mod
        self.di = DI(prog.mod)
        self.slot_of = {}      # function -> (struct, field)
        for g, (t, init, const, priv) in self.mod.globals.items():
            if init is not None and init[0] == 'agg':
                self._scan(t, init, 0, None)
        self._dc = {}

    def _scan(self, t, init, off, st):
        if init[0] == 'agg':
            tt = init[1]
            if tt[0] == 'named':
                o = 0
                for et, ev in init[2]:
                    s, a, _ = self.mod.types.layout(et)
                    o = (o + a - 1) // a * a
                    if ev[0] == 'g' and ev[1] in self.mod.funcs:
                        f = self.di.field(tt[1], o)
                        self.slot_of.setdefault(ev[1], set()).add((self.di.struct_name(tt[1]), f))
                    else:
                        self._scan(et, ev, o, tt)
                    o += s
            else:
                for et, ev in init[2]:
                    self._scan(et, ev, 0, None)

    @staticmethod
    def boundary(name, internal):
        return name in contracts.T or (internal and name in contracts.STATIC)

    def own_contract(self, fname):
        """contract the analysed function itself must honour (None if it has none)"""
        b = frontend.basename(fname)
        f = self.mod.funcs.get(fname)
        if b in contracts.T and f is not None and not f.internal:
            return contracts.T[b]
        if f is not None and f.internal and b in contracts.STATIC:
            return contracts.STATIC[b]
        for s in self.slot_of.get(fname, ()):
            if s in contracts.SLOTS:
                return contracts.SLOTS[s]
        if f is not None and f.internal and fname in self.prog.addr_taken:
            p = self.di.proto(f)
            if p:
                return contracts.PROTO.get(tuple(self.di.typename(t) for t in p))
        return None

    def callee(self, name):
        b = frontend.basename(name)
        f = self.mod.funcs.get(name)
        if f is not None and f.internal:
            return contracts.STATIC.get(b)
        return contracts.T.get(b) or contracts.T.get(name)

    def slot(self, irstruct, off):
        s = self.di.struct_name(irstruct)
        return contracts.SLOTS.get((s, self.di.field(irstruct, off)))

    def escapes(self, name, n):
        """may the function keep or release its n-th argument? (by the ways the value flows in its text)"""
        if not hasattr(self, '_esc'):
            self._esc = {}
        k = (name, n)
        if k in self._esc:
            return self._esc[k]
        f = self.mod.funcs.get(name)
        if f is None or not f.blocks or n >= len(f.args):
            return True
        self._esc[k] = False            # least solution for recursive calls
        vals = {('v', f.args[n][1])}
        ch = True
        r = False
        while ch and not r:
            ch = False
            for b in f.blocks.values():
                for i in b:
                    hit = [j for j, a in enumerate(i.a) if a in vals]
                    if not hit:
                        continue
                    if i.op in ('gep', 'phi', 'cast', 'select'):
                        if ('v', i.res) not in vals:
                            vals.add(('v', i.res))
                            ch = True
                    elif i.op == 'store' and 0 in hit or i.op == 'ret':
                        r = True
                    elif i.op == 'call':
                        for j in hit:
                            if j == 0 or i.a[0][0] != 'g':
                                r = True
                            elif not i.a[0][1].startswith('llvm.'):
                                c = self.callee(i.a[0][1])
                                m = self.argmode(i.a[0][1], c, j - 1)
                                if m in ('consume', 'free', 'hold', 'consume_ok') or m.startswith('out:') or \
                                        c is None and self.escapes(i.a[0][1], j - 1) or c is not None and c.special:
                                    r = True
        self._esc[k] = r
        return r

    def returns_zeroed(self, name):
        """does the function return NULL or zeroed memory it allocates and never writes?"""
        if not hasattr(self, '_rz'):
            self._rz = {}
        if name not in self._rz:
            f = self.mod.funcs.get(name)
            ok = False
            if f is not None and f.blocks:
                ins = [i for b in f.blocks.values() for i in b]
                vals = {('v', i.res) for i in ins if i.op == 'call' and i.a[0][0] == 'g' and i.res and
                        frontend.basename(i.a[0][1]) in ('__ec_calloc', 'calloc')}
                ok = bool(vals)
                ch = True
                while ch:
                    ch = False
                    for i in ins:
                        if i.op == 'phi' and ('v', i.res) not in vals and any(x in vals for x in i.a):
                            vals.add(('v', i.res))
                            ch = True
                for i in ins:
                    if i.op == 'ret':
                        ok = ok and bool(i.a) and (i.a[0] in vals or i.a[0] == ('i', 0))
                    elif i.op == 'phi' and ('v', i.res) in vals:
                        ok = ok and all(x in vals or x == ('i', 0) for x in i.a)
                    elif i.op != 'icmp':
                        ok = ok and not any(x in vals for x in i.a)
            self._rz[name] = ok
        return self._rz[name]

    def ret_consts(self, name):
        """the integers the function can return, when its text returns nothing but constants (None otherwise)"""
        if not hasattr(self, '_rc'):
            self._rc = {}
        if name in self._rc:
            return self._rc[name]
        self._rc[name] = frozenset()        # least solution for recursive calls
        f = self.mod.funcs.get(name)
        r = None
        if f is not None and f.blocks:
            defs = {i.res: i for b in f.blocks.values() for i in b if i.res}
            out, seen, ok = set(), set(), True
            work = [i.a[0] for b in f.blocks.values() for i in b if i.op == 'ret' and i.a]
            while work and ok:
                v = work.pop()
                if v in seen:
                    continue
                seen.add(v)
                d = defs.get(v[1]) if v[0] == 'v' else None
                if v[0] == 'i':
                    out.add(v[1])
                elif d is not None and d.op == 'phi':
                    work += [x for x in d.a]
                elif d is not None and d.op == 'select':
                    work += list(d.a[1:])
                elif d is not None and d.op == 'call' and d.a[0][0] == 'g':
                    rc = self.ret_consts(d.a[0][1]) if d.a[0][1] in self.mod.funcs else None
                    if rc is None:
                        ok = False
                    else:
                        out |= rc
                else:
                    ok = False
            if ok:
                r = frozenset(out)
        self._rc[name] = r
        return r

    def argmode(self, name, c, n):
        if c is not None and n in c.args:
            return c.args[n]
        f = self.mod.funcs.get(name)
        if f is not None:
            p = self.di.param(f, n)
            if p is not None and p[0]:
                return 'ro' if p[1] else 'rw'
            if f.varargs and n >= len(f.args) and c is not None and c.special == 'vaconsume':
                return 'consume'
            return 'ro'
        return 'rw'

    def is_bool(self, org):
        if org[0] is None:
            return False
        return self.di.field_type(org[0], org[1]) in ('bool', '_Bool')

    def is_unsigned(self, org):
        if org[0] is None:
            return False
        t = self.di.field_type(org[0], org[1])
        return t is not None and (t.startswith('unsigned') or t in ('size_t', 'uint64_t', 'uint32_t'))

    def member_range(self, irstruct, off):
        """(start, end) of the member at byte offset off, None if it is not one"""
        k = self.di.structs.get(self.di.struct_name(irstruct))
        while k is not None:
            for name, o, sz, bt in self.di.members(k):
                if o == off and sz:
                    return (off, off + sz)
            return None
        return None
