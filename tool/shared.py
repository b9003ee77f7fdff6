"""Objects shared by reference between a container and its duplicates are never written in place."""

# structures that duplicating a container shares instead of copying: their counter
SHARED = {'ec_strvec_elt': 'refcnt', 'ec_htable_elt': 'refcount'}
# calls that replace the element by one nobody else holds
RENEW = {'ec_strvec_set'}


class SharedMixin:
    def shared_at(self, st, base, org=None):
        """(structure, counter offset) when base is an element that others may hold too"""
        if base[0] in ('a', 'g') or self.is_alloc(base):
            return None
        n = self.di.struct_name(org[0]) if org and org[0] is not None else None
        if n not in SHARED:
            t = st.memo.get((base, 'T'))
            n = self.di.struct_name(t[1]) if t else None
        if n not in SHARED:
            return None
        return n, self.di.offset(n, SHARED[n])

    def post_call(self, st, ins, name, c, args):
        if name in RENEW and args[0][0] == 's':
            st.gh[('renewed', args[0][1])] = 1
        return super().post_call(st, ins, name, c, args)

    def do_load(self, st, ins, p):
        v = super().do_load(st, ins, p)
        b = self.base_of(p)
        if b is not None and v[0] == 's' and any(k[0] == 'renewed' for k in st.gh):
            for k in self.cells(st, b[0]):
                if ('renewed', k[0]) in st.gh:
                    st.gh[('sole', v[1])] = 1
        return v

    def exclusive(self, st, base, ro):
        if ('sole', base) in st.gh:
            return True
        v = st.mem.get((base, ro)) or st.memo.get((base, ro))
        return v is not None and self.rng(st, v)[1] <= 1

    def note_shared_write(self, st, ins, base, org, what):
        s = self.shared_at(st, base, org)
        if s is None:
            return
        n, ro = s
        self.obl['shared'].add(ins.id)
        if not self.exclusive(st, base, ro) and 'coarse' not in st.gh:
            self.ev('sharedwrite', ins, 'changes %s of a %s that other containers may share' % (what, n), st)

    def on_store(self, st, ins, base, off, v):
        if ins.op == 'store' and isinstance(off, int):
            org = self.org_of(st, ins.a[1], base, off)
            s = self.shared_at(st, base, org)
            if s is not None and s[1] != off:
                self.note_shared_write(st, ins, base, org, self.di.field(*org) if org[0] else 'a field')
        elif ins.op == 'store':
            self.through(st, ins, base)
        return super().on_store(st, ins, base, off, v)

    def through(self, st, ins, sid):
        """write into memory that a shared element points to"""
        m = self.meta.get(sid[0]) if isinstance(sid[0], int) else None
        if m is not None and m[0] == 'load' and len(m) > 3 and m[1] is not None and \
                self.di.struct_name(m[1]) in SHARED:
            self.note_shared_write(st, ins, m[3], m[1:3], self.di.field(m[1], m[2]))

    def memcpy(self, st, ins, args):
        if args[0][0] == 's':
            self.through(st, ins, args[0][1])
        return super().memcpy(st, ins, args)

    def memset(self, st, ins, args):
        if args[0][0] == 's':
            self.through(st, ins, args[0][1])
        return super().memset(st, ins, args)

    def havoc_arg(self, st, ins, a, name, n):
        if a[0] == 's':
            self.through(st, ins, a[1])
        return super().havoc_arg(st, ins, a, name, n)
