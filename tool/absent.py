"""Lookups that may find nothing: their result is not used before absence was excluded."""
import frontend
from engine import FnInfo

LOOKUP = {
    'ec_strvec_val': 'string vector element', 'ec_strvec_get_attrs': 'attribute table of a string',
    'ec_dict_get': 'dictionary entry', 'ec_htable_get': 'table entry',
    'ec_config_dict_get': 'configuration entry', 'ec_config_list_first': 'configuration list element',
    'ec_config_list_next': 'configuration list element', 'ec_config_schema_lookup': 'schema entry',
    'ec_config_schema_sub': 'sub-schema', 'ec_node_type_lookup': 'node type', 'ec_node_type_schema': 'schema of a type',
    'ec_node_find': 'node', 'ec_node_get_config': 'configuration of a node',
    'ec_pnode_find': 'parse node', 'ec_pnode_find_next': 'parse node', 'ec_pnode_get_first_child': 'child',
    'ec_pnode_get_last_child': 'child', 'ec_pnode_next': 'sibling', 'ec_pnode_get_parent': 'parent',
    'ec_comp_get_cur_group': 'completion group', 'ec_comp_iter_first': 'completion item',
    'ec_comp_iter_next': 'completion item', 'ec_dict_iter': 'iterator', 'ec_dict_iter_next': 'iterator',
    'ec_htable_iter': 'iterator', 'ec_htable_iter_next': 'iterator', 'strchr': 'character', 'strrchr': 'character',
    'strstr': 'substring', 'getenv': 'environment variable', 'yaml_document_get_root_node': 'root of the document',
    'yaml_document_get_node': 'yaml node', 'el_gets': 'line', 'fgets': 'line', 'bsearch': 'element',
    'memchr': 'character', 'readdir': 'directory entry', 'ec_node_file->readdir': 'directory entry',
}

# nothing is accessed when the size is 0
SIZED = ('memcmp', 'memcpy', 'memmove', 'strncmp', 'strncasecmp', 'strndup')
ELEMENT = ('ec_strvec_val',)


class AbsentMixin:
    def absent(self, st, sid):
        """may this be a lookup that found nothing?"""
        m = self.meta.get(sid[0]) if isinstance(sid[0], int) else None
        if m is None or m[0] != 'call' or m[1] not in LOOKUP or self.nonnull(st, ('s', sid, 0)):
            return None
        if m[1] in ELEMENT:
            for k, v in st.memo.items():
                if v[0] == 's' and v[1] == sid and isinstance(k[1], tuple) and k[1][0] == 'P' and \
                        self.present(st, k[1][2:4]):
                    return None
        if ('kidlast', sid) in st.gh and self.kids(st, st.gh[('kidlast', sid)]) != 0:
            return None
        return 'the %s returned by %s()' % (LOOKUP[m[1]], m[1])

    def present(self, st, args):
        """is the index known to be below the length of the vector?"""
        vec, idx = args
        if vec[0] == 's':
            m = self.meta.get(vec[1][0]) if isinstance(vec[1][0], int) else None
            if m is not None and m[0] == 'call' and m[1] == 'ec_pnode_get_strvec':
                return True         # what a parse node matched is described by its grammar
        for k, ln in st.memo.items():
            if isinstance(k[1], tuple) and k[1][:2] == ('P', 'ec_strvec_len') and k[1][2] == vec:
                for x in [ln] + [q for k2 in st.gh if k2[0] == 'rel' and st.gh[k2] == 'eq' and ln in k2[1:3]
                                 for q in k2[1:3]]:
                    if idx[0] == 'i' and self.rng(st, x)[0] > idx[1]:
                        return True
                    if st.gh.get(('rel', idx, x)) in ('ult', 'slt') or st.gh.get(('rel', x, idx)) in ('ugt', 'sgt'):
                        return True
        return False

    def result(self, st, ins, name, c, args):
        v = super().result(st, ins, name, c, args)
        if name in ELEMENT and v[0] == 's' and self.present(st, args):
            self.refine(st, 'ne', v[1], 0, 0)
        return v

    def deref(self, st, ins, p, why):
        if p[0] == 's':
            a = self.absent(st, p[1])
            m = self.meta.get(p[1][0]) if isinstance(p[1][0], int) else None
            if m is not None and m[0] == 'call' and m[1] in LOOKUP:
                self.obl['lookups'].add(p[1][0])
            if a is not None:
                self.ev('absent', ins, 'uses %s without checking that there is one' % a, st)
            u = self.unset(st, p[1])
            if u is not None and not self.indexed(ins):
                self.unset_use.setdefault((u, None, None), (self.where(ins), self.trace(st)))
        return super().deref(st, ins, p, why)

    def do_bin(self, st, ins, a, b):
        if ins.x == 'sub':
            for x in (a, b):
                d = self.absent(st, x[1]) if x[0] == 's' and x[2] == 0 else None
                if d is not None:
                    self.ev('absent', ins, 'computes with %s without checking that there is one' % d, st)
        return super().do_bin(st, ins, a, b)

    def indexed(self, ins):
        p = ins.a[1] if ins.op == 'store' else ins.a[0]
        d = self.info.defs.get(p[1]) if p[0] == 'v' else None
        return d is not None and d.op == 'gep' and bool(d.x[3])

    def unset(self, st, sid):
        """a field of the private data of a node, which is NULL until the node is configured"""
        m = self.meta.get(sid[0]) if isinstance(sid[0], int) else None
        if m is None or m[0] != 'load' or len(m) < 4 or m[1] is None or not isinstance(m[3], tuple) or \
                m[3][0] not in self.privarg or self.nonnull(st, ('s', sid, 0)) or 'coarse' in st.gh:
            return None
        f = self.di.field(m[1], m[2])
        sn = self.di.struct_name(m[1])
        if f is None or any(f == a for a, _ in self.arrays(sn)):
            return None
        for d in (st.mem, st.memo):
            for k, v in d.items():
                if k[0] == m[3] and isinstance(k[1], int) and v[0] == 's' and v[1] != sid and self.nonnull(st, v):
                    return None     # something else in there shows that the node was configured
        return (sn, f)

    def unset_embedded(self, st, ins):
        """an embedded value is only valid when another field says so"""
        if len(ins.a) < 2 or ins.a[0][:2] != ('g', 'regexec') or 'coarse' in st.gh:
            return
        b = self.base_of(self.val(st, ins.a[1]))
        if b is None or not isinstance(b[1], int) or b[0][0] not in self.privarg:
            return
        org = self.org_of(st, ins.a[1], *b)
        if org[0] is None or org[1] != b[1]:
            return
        ow, sn = self.own_of(org[0]), self.di.struct_name(org[0])
        f = self.di.field(*org) if ow is not None else None
        g = ow.cond.get(f.split('.')[0]) if f else None
        if g is not None:
            self.obl['lookups'].add(ins.id)
            o = self.di.offset(sn, g)
            v = st.mem.get((b[0], o)) or st.memo.get((b[0], o))
            if v is None or not self.nonnull(st, v):
                self.ev('absent', ins, 'uses %s.%s, which is not there until the node is configured' % (sn, f), st)

    def do_call(self, st, ins):
        self.unset_embedded(st, ins)
        f = self.val(st, ins.a[0])
        if f[0] == 's':
            u = self.unset(st, f[1])
            if u is not None:
                self.unset_use.setdefault((u, None, None), (self.where(ins), self.trace(st)))
        args = [self.val(st, a) for a in ins.a[1:]]
        for n, a in enumerate(args):
            d = self.info.defs.get(ins.a[1 + n][1]) if ins.a[1 + n][0] == 'v' else None
            if a == ('i', 0) and d is not None and d.op != 'load':
                cal = self.val(st, ins.a[0])
                if cal[0] == 'g':
                    self.absent_args.append((cal[1], n, ins, 'a NULL pointer', self.trace(st)))
            if a[0] == 's' and a[2] == 0:
                u = self.unset(st, a[1])
                cal = self.val(st, ins.a[0])
                if u is not None and cal[0] == 'g' and cal[1] not in SIZED:
                    self.unset_use.setdefault((u, cal[1], n), (self.where(ins), self.trace(st)))
            if a[0] == 's' and a[2] == 0:
                d = self.absent(st, a[1])
                if d is not None:
                    cal = self.val(st, ins.a[0])
                    self.obl['lookups'].add(a[1][0])
                    self.absent_args.append((cal[1] if cal[0] == 'g' else None, n, ins, d, self.trace(st)))
        return super().do_call(st, ins)


def post_absent(pr, sp, R):
    out = []
    seen = set()
    for f, r in R.funcs.items():
        for name, n, loc, d, tr in r['facts']['absent_args']:
            if n not in R.null_need.get(name, ()):
                continue
            key = (f, name, n, loc[0] if loc else None)
            if key not in seen:
                seen.add(key)
                out.append(dict(kind='absent', func=f, loc=loc, trace=tr,
                                msg='passes %s to %s() without checking that there is one' %
                                    (d, frontend.basename(name))))
    out += post_unset(pr, sp, R)
    out += post_late_check(pr, sp, R)
    return out


def callees(fn):
    return {i.a[0][1] for b in fn.blocks.values() for i in b if i.op == 'call' and i.a[0][0] == 'g'}


def post_unset(pr, sp, R):
    """private data of a node that was created but not configured yet"""
    todo = [f for f, s in sp.slot_of.items() if ('ec_node_type', 'init_priv') in s]
    done = set()
    while todo:
        f = todo.pop()
        if f not in done and f in R.funcs:
            done.add(f)
            todo += [g for g in callees(pr.mod.funcs[f]) if g in pr.mod.funcs and pr.mod.funcs[g].internal]
    made = {tuple(x) for f in done for x in R.funcs[f]['facts']['wfields']}
    out, seen, n = [], set(), 0
    for f, r in R.funcs.items():
        for (u, name, k), (loc, tr) in r['facts']['unset_use']:
            if u in made:
                continue
            n += 1
            if name is not None and k not in R.null_need.get(name, ()):
                continue
            if (f, u) not in seen:
                seen.add((f, u))
                out.append(dict(kind='absent', func=f, loc=loc, trace=tr,
                                msg='%s %s of %s, which is NULL until the node is configured' % (
                                    'uses' if name is None else 'passes to %s() the' % frontend.basename(name), u[1], u[0])))
    R.counts['unset_fields'] = n
    return out


def dominators(fn):
    info = FnInfo(fn)
    order = list(fn.blocks)
    dom = {b: set(order) for b in order}
    dom[order[0]] = {order[0]}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            ps = [dom[p] for p in info.pred[b]]
            d = set.intersection(*ps) | {b} if ps else {b}
            if d != dom[b]:
                dom[b] = d
                ch = True
    return dom


def post_late_check(pr, sp, R):
    """what is checked against NULL is not used before"""
    out, n = [], 0
    for f, fn in pr.mod.funcs.items():
        if f not in R.funcs:
            continue
        gep = {i.res: i.a[0] for b in fn.blocks.values() for i in b if i.op == 'gep'}
        used, checks = {}, []
        for bn, b in fn.blocks.items():
            for k, i in enumerate(b):
                p = i.a[0] if i.op == 'load' else i.a[1] if i.op == 'store' else None
                while p is not None and p[0] == 'v' and p[1] in gep:
                    p = gep[p[1]]
                if p is not None and p[0] == 'v':
                    used.setdefault(p, []).append((bn, k, i))
                if i.op == 'icmp' and i.x in ('eq', 'ne') and ('i', 0) in i.a:
                    v = [a for a in i.a if a != ('i', 0)]
                    if v and v[0][0] == 'v':
                        checks.append((v[0], bn, k, i))
        dom = None
        for v, bn, k, i in checks:
            n += 1
            for ub, uk, u in used.get(v, ()):
                if dom is None:
                    dom = dominators(fn)
                lu, lc = pr.mod.loc(u.dbg), pr.mod.loc(i.dbg)
                if not lu or not lc or lu[0][2] != lc[0][2] or len(lu) != len(lc) or lu[0] == lc[0]:
                    continue        # the check belongs to another function or to a macro
                if any(w == v and (cb == ub and ck < uk or cb != ub and cb in dom.get(ub, ()))
                       for w, cb, ck, _ in checks):
                    continue        # it was checked before, already
                if ub == bn and uk < k or ub != bn and ub in dom.get(bn, ()):
                    out.append(dict(kind='absent', func=f, loc=pr.mod.loc(u.dbg), trace=[],
                                    msg='uses a pointer before checking it against NULL'))
                    break
    R.counts['null_checks'] = n
    return out
