"""The private data of a node is only used by code that knows what kind of node it is."""
from engine import INF


class TypedMixin:
    checkers = ('ec_node_set_config', 'ec_node_type', 'ec_node_get_type_name')      # plus what calls these

    def node_of(self, st, sid):
        """the node whose private data this is"""
        for k, v in st.memo.items():
            if isinstance(k[1], tuple) and k[1][0] == 'P' and k[1][1] == 'ec_node_priv' and v == ('s', sid, 0):
                return k[1][2]
        return self.privarg.get(sid[0])

    def result(self, st, ins, name, c, args):
        v = super().result(st, ins, name, c, args)
        if name == 'ec_node_priv' and args:
            self.privarg[ins.id] = args[0]
        if v[0] == 's' and name == 'ec_node_check_type' and len(args) > 1 and args[0][0] == 's' and args[1][0] == 'g':
            st.gh[('tychk', v[1])] = (args[0][1], args[1][1])
        for i, a in enumerate(args or ()):
            if a[0] == 's' and a[2] == 0 and name in self.checkers:
                if name == 'ec_node_set_config':
                    if i == 0:
                        self.note_use(st, ins, a, '')
                elif ('typed', a[1]) not in st.gh:
                    st.gh[('typed', a[1])] = ('maybe',)
            if a[0] == 's' and a[2] == 0 and name in self.mod.funcs and self.mod.funcs[name].internal:
                self.note_use(st, ins, a, (name, i))
        if v[0] == 's' and name == 'ec_node_from_type' and args and args[0][0] == 'g':
            st.gh[('typed', v[1])] = ('made', args[0][1])
        return v

    def setfacts(self, st, sid, lo, hi, ne):
        ok = super().setfacts(st, sid, lo, hi, ne)
        if ok and ('tychk', sid) in st.gh and (lo >= 0 or hi < 0):
            n, g = st.gh.pop(('tychk', sid))
            if lo >= 0:
                st.gh[('typed', n)] = ('checked', g)
        return ok

    def gc(self, st, b=None, s=None, roots=()):
        r = super().gc(st, b, s, roots)
        for k in [k for k in st.gh if k[0] in ('typed', 'tychk') and k[1] not in r and k[1][0] != 'p']:
            del st.gh[k]
        return r

    def note_use(self, st, ins, n, what):
        how = ('other',)
        if n is not None and n[0] == 's':
            if ('typed', n[1]) in st.gh:
                how = st.gh[('typed', n[1])]
            elif n[1][0] == 'p':
                slot = any(s == 'ec_node_type' for s, _ in self.spec.slot_of.get(self.fname, ()))
                how = ('slot',) if slot else ('param', n[1][1]) if self.fn.internal else \
                    ('unchecked',) if 'coarse' not in st.gh else ('other',)
        if how == ('other',) and isinstance(what, tuple):
            return
        k = (what, how)
        if k not in self.privuse:
            self.privuse[k] = (self.where(ins), self.trace(st))

    def do_gep(self, st, ins):
        off, sty, fld, idx = ins.x
        if fld is not None and sty[0] == 'named' and self.privarg:
            v = self.val(st, ins.a[0])
            if v[0] == 's' and v[2] == 0 and v[1][0] in self.privarg and 'anon' not in sty[1]:
                n = self.node_of(st, v[1])
                self.note_use(st, ins, n, self.di.struct_name(sty[1]))
        return super().do_gep(st, ins)


def node_types(pr, sp):
    """name of each node type -> (functions it refers to, size of its private data)"""
    out = {}
    for g, (t, init, const, priv) in pr.mod.globals.items():
        if t[0] == 'named' and sp.di.struct_name(t[1]) == 'ec_node_type' and init is not None and init[0] == 'agg':
            fs = set()
            size = None
            o = 0
            for et, ev in init[2]:
                s, a, _ = pr.mod.types.layout(et)
                o = (o + a - 1) // a * a
                if ev[0] == 'g' and ev[1] in pr.mod.funcs:
                    fs.add(ev[1])
                if sp.di.field(t[1], o) == 'size' and ev[0] == 'i':
                    size = ev[1]
                o += s
            out[g] = (fs, size)
    return out


def post_typed(pr, sp, R):
    out = []
    ty = node_types(pr, sp)
    kind = {}
    n = 0
    for g, (fs, size) in ty.items():
        for f in fs:
            for (s, how), w in R.funcs.get(f, {'facts': {'privuse': []}})['facts']['privuse']:
                if how == ('slot',) and s and isinstance(s, str):
                    kind.setdefault(g, {}).setdefault(s, (f, w))
    for g, d in kind.items():
        n += 1
        if len(d) > 1:
            s, (f, w) = sorted(d.items(), key=lambda x: x[1][0])[-1]
            out.append(dict(kind='wrongkind', func=f, loc=w[0], msg='callbacks of %s disagree about its private data (%s)' % (
                g, ', '.join(sorted(d))), trace=w[1]))
        for s, (f, w) in d.items():
            z = pr.mod.types.size(('named', 'struct.' + s)) or 0
            if ty[g][1] is not None and ty[g][1] < z:
                out.append(dict(kind='wrongkind', func=f, loc=w[0], trace=w[1],
                                msg='private data of %s has %d bytes, %s needs %d' % (g, ty[g][1], s, z)))
    how_called = {}
    uses = []
    for f, r in R.funcs.items():
        for (s, how), w in r['facts']['privuse']:
            if isinstance(s, tuple):
                how_called.setdefault(s, []).append((f, how, w))
            else:
                n += 1
                uses.append((f, s, how, w))
    seen = set()
    while uses:
        f, s, how, w = uses.pop()
        if (f, s, how) in seen:
            continue
        seen.add((f, s, how))
        if how[0] == 'param':
            uses += [(g, s, h, w2) for g, h, w2 in how_called.get((f, how[1]), ())]
        elif how[0] == 'unchecked':
            out.append(dict(kind='wrongkind', func=f, loc=w[0], trace=w[1],
                            msg='uses the %s of a node without checking the type of the node' % (
                                'private data (%s)' % s if s else 'configuration')))
        elif how[0] in ('checked', 'made') and s and kind.get(how[1]) and s not in kind[how[1]]:
            out.append(dict(kind='wrongkind', func=f, loc=w[0], trace=w[1],
                            msg='uses the private data of a node of type %s as %s' % (how[1], s)))
    if 0 in R.null_need.get('ec_node_check_type', ()):
        out.append(dict(kind='wrongkind', func='ec_node_check_type', loc=[], trace=[],
                        msg='uses the node before making sure that there is one: no call refuses NULL nodes'))
    R.counts['node_kinds'] = n
    return out
