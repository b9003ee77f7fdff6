"""Element accesses stay below the recorded length of the array."""
from irparse import gep_off
from owns import OWN

EXTRA = {'ec_node_cmd_ctx': [('table', 'len')], 'ec_vec': [('vec', 'len')]}
SIZED = {'ec_vec': ('elt_size', 'size')}        # size of an element, room for elements

# destination and size arguments of functions that write a given number of bytes
WRITES = {'snprintf': (0, 1), 'vsnprintf': (0, 1), 'fgets': (0, 1), 'read': (1, 2), 'strncpy': (0, 2),
          'memmove': (0, 2), 'strlcpy': (0, 2), 'strerror_r': (1, 2), 'getcwd': (0, 1)}


# what counts elements, and may be 0
LENGTHS = ('strlen', 'strnlen', 'ec_strvec_len', 'ec_vec_len', 'ec_config_count', 'ec_dict_len', 'ec_htable_len',
           'ec_pnode_len', 'ec_pnode_matches', 'ec_node_get_children_count', 'ec_comp_count', 'strspn', 'strcspn')

# elements copied from or to memory of the caller: (vector, memory)
COPIED = {'ec_vec_add_by_ref': (0, 1), 'ec_vec_get': (1, 0)}


class BoundsMixin:
    def copied_rule(self, st, ins, name, args):
        vn, pn = COPIED[name]
        b = self.base_of(args[pn])
        if args[vn][0] != 's' or args[vn][1][0] != 'p' or b is None or b[0][0] != 'a' or b[1] != 0:
            return
        d = self.info.defs.get(b[0][1])
        sz = self.mod.types.size(d.ty) if d is not None and d.op == 'alloca' else None
        o = self.di.offset('ec_vec', 'elt_size')
        if sz is None or o is None:
            return
        self.obl['elements'].add(ins.id)
        k = (args[vn][1], o)
        n = st.mem.get(k) or st.memo.get(k)
        if n is None or self.rng(st, n)[1] > sz:
            self.ev('oob', ins, 'copies an element of the vector from or to a variable of %d bytes' % sz, st)

    def arrays(self, sn):
        ow = OWN.get(sn)
        return [a[:2] for a in ow.array] + EXTRA.get(sn, []) if ow is not None else EXTRA.get(sn, [])

    def do_gep(self, st, ins):
        off, sty, fld, idx = ins.x
        if idx and len(idx) == 1 and fld is None:
            v = self.val(st, ins.a[0])
            x = self.val(st, idx[0])
            m = self.meta.get(x[1][0]) if x[0] == 's' and isinstance(x[1][0], int) else None
            if m is not None and m[0] == 'call' and m[1] in LENGTHS and x[2] is not None and x[2] < 0 and \
                    not self.only_address(ins):
                self.obl['elements'].add(ins.id)
                if self.rng(st, x)[0] < 0:
                    self.ev('oob', ins, 'accesses an element before the first when %s() is 0' % m[1], st)
            if v[0] == 's' and v[2] == 0 and not self.only_address(ins):
                room = self.room(st, v[1], gep_off(self.mod.types, sty, [('i', 1)])[0], x)
                y = x
                if room is not None and room[0] == 'b':
                    y, room = room[2], None if self.vague(room[2]) else room
                if room is not None and self.beyond(y, room[1]):
                    self.ev('oob', ins, 'accesses an element past the end of %s' % self.desc(v[1]), st)
                else:
                    self.bound_rule(st, ins, v[1], x, room if y is x else None)
        if sty[0] == 'arr' and idx and len(idx) == 2:
            self.fixed_rule(st, ins, self.val(st, ins.a[0]), sty, self.val(st, idx[1]))
        return super().do_gep(st, ins)

    def fixed_rule(self, st, ins, v, sty, x):
        """arrays of fixed size: local variables and static tables"""
        if v[0] not in 'ag' or self.vague(x) or self.only_address(ins):
            return
        self.obl['elements'].add(ins.id)
        lo, hi = self.rng(st, x)
        if x[0] == 's' and ('okidx', v[:2], x) in st.gh:
            return
        if lo < 0 or hi >= sty[1]:
            self.ev('oob', ins, 'accesses an element that may be outside an array of %d' % sty[1], st)

    def only_address(self, ins):
        """is the element never accessed (the address is only compared or advanced)?"""
        r = getattr(self, '_addr', None)
        if r is None:
            r = self._addr = set()
            for b in self.fn.blocks.values():
                for i in b:
                    if i.op in ('load', 'store'):
                        p = i.a[0] if i.op == 'load' else i.a[1]
                        d = self.info.defs.get(p[1]) if p[0] == 'v' else None
                        while d is not None and d.op == 'gep':
                            r.add(d.id)
                            p = d.a[0]
                            d = self.info.defs.get(p[1]) if p[0] == 'v' else None
                    elif i.op == 'call':
                        for p in i.a[1:]:
                            d = self.info.defs.get(p[1]) if isinstance(p, tuple) and p and p[0] == 'v' else None
                            while d is not None and d.op == 'gep':
                                r.add(d.id)
                                p = d.a[0]
                                d = self.info.defs.get(p[1]) if p[0] == 'v' else None
        return ins.id not in r

    def only_read(self, ins):
        """the element is copied from or released: it has to be there"""
        for b in self.fn.blocks.values():
            for i in b:
                if i.op == 'call' and ('v', ins.res) in i.a[1:]:
                    if i.a[0][0] != 'g' and len(i.a) == 2 or i.a[0][0] == 'g' and i.a[2:3] == [('v', ins.res)] and \
                            i.a[0][1].startswith(('llvm.memcpy', 'memcpy')):
                        return True
        return False

    def room(self, st, sid, esz, x):
        """how many elements fit in this array"""
        r = st.gh.get(('room', sid))
        if r is None:
            return None
        unit, n, esz1 = r
        if unit == 'n':
            if esz1 is None or esz1[1] == esz:
                return r
            return ('n', ('i', n[1] * esz1[1] // esz)) if n[0] == 'i' and esz else None    # seen as something else
        if x[0] == 's' and x[1][0] == 'e' and x[1][1] == 'mul' and esz == 1:
            # byte arithmetic on elements: compare the numbers of elements
            if n[0] == 's' and n[1][0] == 'e' and n[1][1] == 'mul' and n[2] == 0 and x[2] == 0:
                for f in n[1][2:4]:
                    if f in x[1][2:4] and f[0] == 's':
                        return ('b', n[1][3] if n[1][2] == f else n[1][2], x[1][3] if x[1][2] == f else x[1][2])
            return None
        if n[0] == 'i':
            return ('n', ('i', n[1] // esz))
        if esz == 1:
            return ('n', n)
        if n[0] == 's' and n[1][0] == 'e' and n[1][1] == 'mul' and n[2] == 0 and ('i', esz) in n[1][2:4]:
            return ('n', n[1][2] if n[1][3] == ('i', esz) else n[1][3])
        return None

    def beyond(self, x, n):
        if x[0] == 'i' and n[0] == 'i':
            return x[1] >= n[1]
        return x[0] == 's' and n[0] == 's' and x[1] == n[1] and x[2] is not None and n[2] is not None and x[2] >= n[2]

    def bound_rule(self, st, ins, arr, x, room=None):
        for d in (st.mem, st.memo):
            for k, v in list(d.items()):
                if v != ('s', arr, 0) or not isinstance(k[1], int):
                    continue
                t = st.memo.get((k[0], 'T'))
                if t is None:
                    continue
                sn = self.di.struct_name(t[1])
                for f, ln in self.arrays(sn):
                    if self.di.offset(sn, f) == k[1]:
                        if sn in SIZED:
                            x = self.unscale(st, x, k[0], self.di.offset(sn, SIZED[sn][0]))
                            if x is None:
                                continue
                        self.obl['elements'].add(ins.id)
                        lens = [self.di.offset(sn, q) for q in (ln,) + (() if self.only_read(ins) else
                                                                                   SIZED.get(sn, ())[1:])]
                        if not self.below(st, x, k[0], lens, arr, room):
                            self.ev('oob', ins, 'accesses an element of %s.%s that may be past its %s' % (sn, f, ln), st)

    def unscale(self, st, x, sb, so):
        sz = [d[(sb, so)] for d in (st.mem, st.memo) if (sb, so) in d]
        if x == ('i', 0):
            return x
        if x[0] == 's' and x[1][0] == 'e' and x[1][1] == 'mul' and x[2] == 0:
            a, b = x[1][2:4]
            return a if b in sz else b if a in sz else None
        return None

    def below(self, st, x, sb, los, arr, room=None):
        if self.vague(x) or self.counter(st, x, sb):
            return True             # the index is not known well enough to judge
        lens = [n for n in (st.mem.get((sb, lo)) or st.memo.get((sb, lo)) for lo in los) if n is not None]
        lens += [n for k, n in st.memo.items() if k[0] == sb and isinstance(k[1], tuple) and k[1][0] == 'P' and
                 k[1][1].endswith('_len') and k[1][2] == ('s', sb, 0)]
        if room is not None:
            lens.append(room[1])
        if ('room', sb) in st.gh:
            lens.append(st.gh[('room', sb)][1])
        for n in lens:
            if self.less(st, x, n, arr if room is None else None):
                st.gh[('okidx', sb, x)] = 1
                return True
        return 'coarse' in st.gh or ('okidx', sb, x) in st.gh

    def vague(self, x):
        if x[0] == 'u' or x[0] == 's' and x[2] is None:
            return True
        return x[0] == 's' and x[1][0] == 'e' and any(isinstance(y, tuple) and self.vague(y) for y in x[1][2:])

    def counter(self, st, x, sb):
        """is it (based on) a count kept in an object under construction, other than the accessed one?"""
        if x[0] != 's':
            return False
        if x[1][0] == 'e':
            return any(isinstance(y, tuple) and self.counter(st, y, sb) for y in x[1][2:])
        for d in (st.mem, st.memo):
            for k, v in d.items():
                if v[0] == 's' and v[1] == x[1] and isinstance(k[1], int) and k[0] != sb and \
                        st.own.get(k[0], ('',))[0] == 'O':
                    return True
        return False

    def rel(self, st, a, b):
        r = st.gh.get(('rel', a, b))
        if r is None:
            r = {'ugt': 'ult', 'sgt': 'slt', 'uge': 'ule', 'sge': 'sle', 'eq': 'eq'}.get(st.gh.get(('rel', b, a)))
        if r is None and (a == b or b[0] == 'i' and self.rng(st, a)[1] <= b[1]):
            r = 'ule'
        return r

    def less(self, st, x, n, arr):
        if x[0] == 's' and x[2] is None or n[0] == 's' and n[2] is None:
            return False
        if x[0] == 'i':
            return self.rng(st, n)[0] > x[1] or x == n and arr is not None and self.is_alloc(arr)
        if x[0] != 's':
            return False
        if n[0] == 's' and x[1] == n[1]:
            d = n[2] - x[2]
            if d > 0:
                return self.rng(st, n)[0] >= d
            # one past the used part, of an array that was just enlarged
            return d == 0 and arr is not None and self.is_alloc(arr)
        if self.rng(st, x)[1] < self.rng(st, n)[0]:
            return True
        for k in range(0, 3):
            p = self.rel(st, ('s', x[1], x[2] + k), n)
            if p in ('ult', 'slt') or k >= 1 and p in ('ule', 'sle', 'eq'):
                return True
        b = ('s', x[1], 0)
        for k in st.gh:
            if k[0] == 'rel':
                for y, z in (k[1:3], (k[2], k[1])):
                    if z == ('s', ('e', 'sub', n, b), 0):
                        up = y
                        if not self.no_borrow(st, n, b):
                            continue
                    elif y[0] == 's' and y[1][0] == 'e' and y[1][1] == 'add' and y[2] == 0 and b in y[1][2:4] and z == n:
                        up = y[1][3] if y[1][2] == b else y[1][2]
                        if not self.no_carry(st, y):
                            continue
                    else:
                        continue
                    if self.rel(st, y, z) in ('ule', 'ult', 'sle', 'slt', 'eq') and self.rng(st, up)[0] > x[2] >= 0:
                        return True
        if x[1][0] == 'e' and x[1][1] == 'add' and x[2] == 0:
            for a, b in (x[1][2:4], (x[1][3], x[1][2])):
                ys = [k[2] for k in st.gh if k[0] == 'rel' and k[1] == a] + \
                     [k[1] for k in st.gh if k[0] == 'rel' and k[2] == a]
                rest = ('s', ('e', 'sub', n, b), 0)
                ok = self.no_borrow(st, n, b)
                if ok and self.rel(st, a, rest) in ('ult', 'slt'):
                    return True
                for y in ys:
                    if self.rel(st, a, y) not in ('ult', 'slt'):
                        continue
                    if ok and self.rel(st, y, rest) in ('ule', 'ult', 'sle', 'slt', 'eq'):
                        return True
                    for s in (('s', ('e', 'add', b, y), 0), ('s', ('e', 'add', y, b), 0)):
                        if self.rel(st, s, n) in ('ule', 'ult', 'sle', 'slt', 'eq') and self.no_carry(st, s):
                            return True
        return False

    def no_borrow(self, st, n, b):
        """n - b does not wrap"""
        return self.rel(st, b, n) in ('ule', 'ult', 'sle', 'slt', 'eq') or self.rng(st, b)[1] <= self.rng(st, n)[0]

    def no_carry(self, st, s):
        """the sum s does not wrap: it was compared with an operand, or the operands are not free to be anything"""
        for a in s[1][2:4]:
            if a[0] == 'i':
                return True
            if self.rel(st, a, s) in ('ule', 'ult', 'sle', 'slt', 'eq'):
                return True
        return not all(self.free_value(a) for a in s[1][2:4])

    def free_value(self, a):
        """can the caller make it any number?"""
        return a[0] == 's' and a[1][0] == 'p'

    def gc(self, st, b=None, s=None, roots=()):
        r = super().gc(st, b, s, roots)
        for k in [k for k in st.gh if k[0] in ('okidx', 'room') and k[1] not in r]:
            del st.gh[k]
        for k in [k for k in st.gh if k[0] == 'room']:
            v = st.gh[k][1]
            if v[0] == 's' and v[1] not in r and not (v[1][0] == 'e' and self.leaves_live(v[1], r)):
                del st.gh[k]
        return r

    def move_rels(self, st, sid, v, lo=None):
        for k in [k for k in st.gh if k[0] == 'room' and self.mentions(st.gh[k][1], sid)]:
            del st.gh[k]
        super().move_rels(st, sid, v, lo)

    def result(self, st, ins, name, c, args):
        v = super().result(st, ins, name, c, args)
        if v[0] == 's':
            if name in ('__ec_calloc', 'calloc', 'ec_vec'):
                self.set_room(st, v[1], 'n', args[1 if name == 'ec_vec' else 0], None if name == 'ec_vec' else args[1])
            elif name in ('__ec_malloc', 'malloc'):
                self.set_room(st, v[1], 'b', args[0])
        return v

    def set_room(self, st, sid, unit, n, esz=None):
        st.gh.pop(('room', sid), None)
        if n[0] == 'i' or n[0] == 's' and not self.vague(n):
            st.gh[('room', sid)] = (unit, n, esz if esz is not None and esz[0] == 'i' else None)

    def memcpy(self, st, ins, args):
        if len(args) > 2:
            self.fits(st, ins, args[0], args[2])
        return super().memcpy(st, ins, args)

    def memset(self, st, ins, args):
        if len(args) > 2:
            self.fits(st, ins, args[0], args[2])
        return super().memset(st, ins, args)

    def pre_call(self, st, ins, name, c, args):
        if name in COPIED and 'coarse' not in st.gh:
            self.copied_rule(st, ins, name, args)
        if name in WRITES and len(args) > max(WRITES[name]):
            d, n = WRITES[name]
            self.fits(st, ins, args[d], args[n])
        return super().pre_call(st, ins, name, c, args)

    def bytes_of(self, st, v):
        """size in bytes of the object v points to the start of"""
        if v[0] == 's':
            r = st.gh.get(('room', v[1]))
            if r is not None:
                if r[0] == 'b':
                    return r[1]
                if r[2] is None:
                    return None
                if r[1][0] == 'i':
                    return ('i', r[1][1] * r[2][1])
                return ('s', ('e', 'mul', r[1], r[2]), 0)
        elif v[0] == 'a':
            d = self.info.defs.get(v[1])
            if d is not None and d.op == 'alloca' and d.x:
                return ('i', d.x)
        return None

    def fits(self, st, ins, dst, n):
        if dst[0] not in 'sa' or dst[2] is None:
            return
        m = self.bytes_of(st, dst)
        if m is None:
            return
        self.obl['elements'].add(ins.id)
        if dst[2] == 0:
            while all(q[0] == 's' and q[1][0] == 'e' and q[1][1] == 'mul' and q[2] == 0 for q in (n, m)):
                f = [q for q in n[1][2:4] if q in m[1][2:4] and (q[0] != 'i' or q[1] > 0)]
                if not f:
                    break
                n, m = [q[1][3] if q[1][2] == f[0] else q[1][2] for q in (n, m)]
        if n[0] == 'i' and m[0] == 'i' and dst[2] + n[1] > m[1] or n[0] == 's' and m[0] == 's' and n[1] == m[1] and \
                n[2] is not None and m[2] is not None and n[2] + dst[2] > m[2]:
            self.ev('oob', ins, 'writes past the end of %s' %
                    (self.desc(dst[1]) if dst[0] == 's' else 'a local variable'), st)

    def deref(self, st, ins, p, why):
        if p[0] == 's' and p[2]:
            m = self.bytes_of(st, p)
            if m is not None and m[0] == 'i' and p[2] >= m[1]:
                self.ev('oob', ins, 'accesses a field past the end of %s' % self.desc(p[1]), st)
        return super().deref(st, ins, p, why)

    def call_realloc(self, st, ins, name, c, args):
        r = super().call_realloc(st, ins, name, c, args)
        v = r[0].env[ins.res]
        r[0].gh.pop(('room', v[1]), None)
        self.set_room(r[0], v[1], 'b', args[1])
        return r
