"""Fields and elements are released by the family of functions that produced what is stored in them."""
from contracts import RELEASE

OPEN = ('param', 'ref', 'user', 'elem', 'elements', '?')


class FamilyMixin:
    def fam_key(self, m):
        """name of the place a value was loaded from or stored to: structure field, or elements of such a field"""
        if m is None or m[0] != 'load':
            return None
        if m[1] is not None and m[2] is not None:
            f = self.di.field(m[1], m[2])
            return (self.di.struct_name(m[1]), f) if f else None
        if len(m) > 3:
            return self.elt_place(m[3])
        return None

    def elt_place(self, base):
        if base[0] == 'p':
            return (self.fname, 'argument %d' % base[1])
        k = self.fam_key(self.meta.get(base[0])) if isinstance(base[0], int) else None
        return (k[0], k[1] + '[]') if k is not None and not k[1].endswith('[]') else None

    def user_ops(self):
        """the table of callbacks this function is in, if these produce and release values of their own"""
        r = getattr(self, '_uops', None)
        if r is None:
            r = ()
            if any(s == 'ec_node_expr_eval_ops' for s, _ in self.spec.slot_of.get(self.fname, ())):
                for g, (t, init, const, priv) in self.mod.globals.items():
                    if init is not None and init[0] == 'agg' and any(e[1][:2] == ('g', self.fname) for e in init[2]):
                        r = (g, 'values')
            self._uops = r
        return r or None

    def on_store(self, st, ins, base, off, v):
        if base == ('p', 0) and off == 0 and ins.op == 'store' and v[0] == 's' and v[1] in st.own and self.user_ops():
            if st.own[v[1]][1] not in OPEN:
                self.fam_store.setdefault((self.user_ops(), st.own[v[1]][1]), self.where(ins))
        if ins.op == 'store' and v[0] == 's' and v[2] == 0 and v[1] in st.own and st.own[v[1]][0] == 'O':
            fam = st.own[v[1]][1]
            if fam not in OPEN:
                org = self.org_of(st, ins.a[1], base, off)
                k = self.fam_key(('load',) + tuple(org)) if org[0] is not None else self.elt_place(base) \
                    if base[0] not in ('a', 'g', 'p') else None
                if k is not None:
                    self.fam_store.setdefault((k, fam), self.where(ins))
        return super().on_store(st, ins, base, off, v)

    def release(self, st, ins, v, name, deep):
        if v[0] == 's':
            self.fam_released(st, ins, v[1], name)
            self.fam_elements(st, ins, v[1], name)
        return super().release(st, ins, v, name, deep)

    def call_realloc(self, st, ins, name, c, args):
        if args[0][0] == 's':
            self.fam_released(st, ins, args[0][1], '__ec_free' if c.ret == 'own:mem' else 'free')
        return super().call_realloc(st, ins, name, c, args)

    def fam_released(self, st, ins, sid, name):
        o = st.own.get(sid)
        if name not in RELEASE or o is not None and o[0] == 'O' and o[1] not in OPEN:
            return
        m = self.meta.get(sid[0]) if isinstance(sid[0], int) else None
        k = self.fam_key(m) if sid[0] != 'p' else self.user_ops() if name != 'ec_node_expr_eval_ops' else None
        if k is not None:
            self.fam_rel.setdefault((k, name), self.where(ins))

    def fam_elements(self, st, ins, sid, name):
        for k, x in st.mem.items():
            if k[0] == sid and isinstance(k[1], tuple) and k[1][0] == 'H' and k[1][1] is None and x[1] not in OPEN:
                self.fam_store.setdefault(((name, 'argument 0'), x[1]), self.where(ins))

    def check_exit(self, st, ins, rv):
        if self.contract is not None:
            for n, m in self.contract.args.items():
                if m.startswith('out:'):
                    v = st.mem.get((('p', n), 0))
                    if v is not None and v[0] == 's':
                        for f, fams in RELEASE.items():
                            if m[4:] in fams and m[4:] not in ('mem', 'libc'):
                                self.fam_elements(st, ins, v[1], f)
        return super().check_exit(st, ins, rv)


def post_family(pr, sp, R):
    stores, rels = {}, {}
    for f, r in R.funcs.items():
        for (k, fam), loc in r['facts']['fam_store']:
            stores.setdefault(k, {}).setdefault(fam, (f, loc))
        for (k, name), loc in r['facts']['fam_rel']:
            rels.setdefault(k, {}).setdefault(name, (f, loc))
    out = []
    n = 0
    for k, names in sorted(rels.items()):
        fams = stores.get(k)
        if not fams:
            continue
        for name, (f, loc) in sorted(names.items()):
            n += 1
            bad = [x for x in fams if x not in RELEASE[name]]
            if bad:
                out.append(dict(kind='mismatch', func=f, loc=loc, trace=[],
                                msg='%s of %s, filled with %s memory in %s(), is released with %s()' % (
                                    k[1], k[0], bad[0], fams[bad[0]][0], name)))
    R.counts['field_families'] = n
    R.fam = (stores, rels)
    return out
