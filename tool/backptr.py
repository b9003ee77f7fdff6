"""Elements of a list that know which structure they belong to are told when they join it."""

# element structure: (field pointing back, structure it points to)
BACK = {'ec_comp_group': ('comp', 'ec_comp'), 'ec_comp_item': ('grp', 'ec_comp_group'),
        'ec_pnode': ('parent', 'ec_pnode')}


class BackMixin:
    def joins(self, st, ins):
        """(element, list owner) when the store appends an element to a list"""
        v = self.val(st, ins.a[0])
        d = self.info.defs.get(ins.a[1][1]) if ins.a[1][0] == 'v' else None
        if v[0] != 's' or v[2] != 0 or d is None or d.op != 'load':
            return None
        b = self.base_of(self.val(st, d.a[0]))
        if b is None or b[0][0] in ('a', 'g') or b[1] is None:
            return None
        t = self.type_of(st, b[0])
        f = self.di.field(t, b[1]) if t else None
        if f is None or not f.endswith('tqh_last'):
            return None
        return v[1], b[0], t

    def on_store(self, st, ins, base, off, v):
        if ins.op == 'store':
            j = self.joins(st, ins)
            if j is not None:
                e, o, t = j
                n = self.type_of(st, e)
                if n in BACK and BACK[n][1] == t:
                    bo = self.di.offset(n, BACK[n][0])
                    self.obl['joins'].add(ins.id)
                    if st.mem.get((e, bo)) != ('s', o, 0):
                        st.gh[('bp', e)] = (o, bo, ins.id, n)
            k = st.gh.get(('bp', base))
            if k is not None and off == k[1] and (v == ('s', k[0], 0) or v[0] == 's' and v[1][0] != 'p'):
                del st.gh[('bp', base)]
        return super().on_store(st, ins, base, off, v)

    def release(self, st, ins, v, name, deep):
        if v[0] == 's':
            st.gh.pop(('bp', v[1]), None)
        return super().release(st, ins, v, name, deep)

    def check_exit(self, st, ins, rv):
        for k, x in st.gh.items():
            if k[0] == 'bp' and 'coarse' not in st.gh:
                self.ev('dangling', self.info.byid.get(x[2]), '%s.%s is not set when the element joins another list' %
                        (x[3], BACK[x[3]][0]), st)
        return super().check_exit(st, ins, rv)
