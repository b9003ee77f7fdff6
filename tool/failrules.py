"""Failure discipline: a failed step is never reported as success."""
from engine import INF, INT_MAX

# "failure" of these only says that there was nothing to do
ABSENT = {'ec_htable_del', 'ec_dict_del', 'ec_config_dict_del'}
# lookups that give the reason for returning NULL
ERRNO_PTR = {'ec_dict_get', 'ec_htable_get', 'ec_config_dict_get', 'ec_config_list_first', 'ec_node_type_lookup',
             'ec_config_schema_lookup'}
# results that are not a success/failure answer, but give a reason when negative
ERRNO_INT = {'vsnprintf', 'snprintf', 'vasprintf', 'asprintf', 'dirfd', 'ec_node_file->dirfd', 'open', 'read'}
# not documented to set errno
NO_ERRNO = {'ec_node_get_child', 'ec_node_clone'}
UNSIGNED = ('size_t', 'uint64_t', 'uint32_t', 'uint16_t', 'uint8_t')
INTK = ('int', 'int0', 'parse')


class FailMixin:
    def gc(self, st, b=None, s=None, roots=()):
        before = None
        if self.pend_ids:
            before = [x for x in st.syms if x[0] in self.pend_ids]
            # results without learned facts are not in syms: look them up through the environment
        r = super().gc(st, b, s, roots)
        for k in [k for k in st.gh if k[0] == 'pend']:
            sid = k[1]
            if sid not in r:
                lo, hi = st.gh.pop(k)
                st.gh['ign'] = (self.meta[sid[0]][1], sid[0])
        return r

    def setfacts(self, st, sid, lo, hi, ne):
        ok = super().setfacts(st, sid, lo, hi, ne)
        if ok and ('pend', sid) in st.gh:
            # decided once the value is known to be a success or a failure
            if hi < 0 or lo >= 0 or 0 in ne and self.meta.get(sid[0], ('',) * 3)[2] == 'fptr':
                del st.gh[('pend', sid)]
        return ok

    def result(self, st, ins, name, c, args):
        v = super().result(st, ins, name, c, args)
        if c is not None and (c.ret in INTK or c.special == 'fallible') and v[0] == 's' and name not in ABSENT:
            self.pend_ids.add(ins.id)
            st.gh[('pend', v[1])] = (0, 0)
            self.obl['fallible'].add(ins.id)
        return v

    def do_call(self, st, ins):
        for n, a in enumerate(ins.a[1:]):
            v = self.val(st, a)
            m = self.fallible(v[1]) if v[0] == 's' else None
            if m is not None and m[0] == 'call' and m[2] in INTK and self.rng(st, v)[0] < 0:
                cal = self.val(st, ins.a[0])
                f = self.mod.funcs.get(cal[1]) if cal[0] == 'g' else None
                p = self.di.param(f, n) if f is not None else None
                if p is not None and (p[2].startswith('unsigned') or p[2] in UNSIGNED):
                    self.ev('ignored', ins, 'result of %s(), which may have failed, is passed to %s() as a number' % (
                        self.meta[v[1][0]][1], cal[1]), st)
        return super().do_call(st, ins)

    def failed(self, st, iid, name):
        if name not in ABSENT:
            super().failed(st, iid, name)
        st.gh['errno'] = 1

    def on_const(self, st, sid, c):
        m = self.meta.get(sid[0])
        if c == 0:
            if sid[0] == 'p':
                if self.param_consumed(sid[1]):
                    if self.takes_object(sid[1]):
                        self.failed(st, sid, 'a call that was to make an argument')
                    st.gh['errno'] = 1      # whoever failed to make the object gave the reason
            elif m is not None and (m[0] == 'call' and m[1] in ERRNO_PTR or m[0] == 'vaarg' or
                                    m[0] == 'alloc' and m[1] == 'user'):
                if m[0] == 'vaarg':
                    self.failed(st, sid[0], 'a call that was to make an argument')
                st.gh['errno'] = 1
        elif c < 0:
            self.errno_int(st, m)
        return super().on_const(st, sid, c)

    def takes_object(self, n):
        p = self.di.param(self.fn, n)
        return p is not None and self.contract is not None and self.contract.args.get(n) == 'consume' and \
            p[2].strip() in ('struct ec_node *', 'struct ec_config *')

    def on_facts(self, st, sid, old, new):
        if new[1] < 0 <= old[1]:
            self.errno_int(st, self.meta.get(sid[0]))
        return super().on_facts(st, sid, old, new)

    def errno_int(self, st, m):
        if m is not None and m[0] == 'call' and (m[1] in ERRNO_INT or m[2] == 'helper'):
            st.gh['errno'] = 1

    def default_call(self, st, ins, name, args):
        r = super().default_call(st, ins, name, args)
        f = self.mod.funcs.get(name)
        if f is not None and f.internal and f.blocks and ins.res:
            self.meta[ins.id] = ('call', self.meta[ins.id][1], 'helper')
        return r

    def on_store(self, st, ins, base, off, v):
        if off is None and v[0] == 's' and self.is_alloc(v[1]) and not self.nonnull(st, v):
            st.gh['errno'] = 1              # its test is not recognised as such any more
        return super().on_store(st, ins, base, off, v)

    def errno_rule(self, st, ins, rv, cls):
        """a failing exit must have a reason in errno"""
        name = self.fname.split('.')[0]
        if rv is None or name.startswith('ec_editline') or name in NO_ERRNO or \
                any(f == 'get_child' for _, f in self.spec.slot_of.get(self.fname, ())):
            return
        if self.contract is None:
            if not self.fn.internal or self.fname in self.prog.addr_taken or self.rng(st, rv)[1] >= 0:
                return
        elif cls != 'fail' and not (name in ERRNO_PTR and rv == ('i', 0)):
            return
        self.obl['failing_exits'].add(ins.id)
        if 'errno' not in st.gh and not self.errno_nonzero(st):
            self.ev('noerrno', ins, 'fails without giving a reason in errno', st)

    def errno_nonzero(self, st):
        for k, v in list(st.memo.items()) + list(st.mem.items()):
            if k[0] == ('g', 'errno') and (v[0] == 'i' and v[1] != 0 or self.nonnull(st, v)):
                return True
        return False

    def errno_tested(self, st):
        for k, v in list(st.memo.items()) + list(st.mem.items()):
            if k[0] == ('g', 'errno') and v[0] == 'i' and v[1] not in (0, 12):
                return True
        return False

    def check_exit(self, st, ins, rv):
        cls = self.retclass(st, rv)
        nomatch = self.contract is not None and self.contract.ret == 'parse' and rv == ('i', INT_MAX)
        self.errno_rule(st, ins, rv, cls)
        if cls == 'ok':
            f = st.gh.get('fail')
            if f is not None and nomatch and self.meta.get(f[1], ('',))[0] != 'alloc':
                f = None        # "does not match" is the documented answer to malformed input
            if f is not None and self.errno_tested(st):
                f = None        # told apart from running out of memory by its error code
            if f is not None:
                self.ev('swallowed', self.info.byid.get(f[1]) or ins,
                        'failure of %s() is reported as success' % f[0], st)
            for k in st.gh:
                if k[0] == 'pend' and not (rv[0] == 's' and rv[1] == k[1]):
                    self.ev('ignored', self.info.byid.get(k[1][0]) or ins,
                            'result of %s() is not checked before reporting success' % self.meta[k[1][0]][1], st)
            for sid, o in st.own.items():
                if o[0] == 'O' and self.is_alloc(sid) and self.meta[sid[0]][2] != 'ec_node_clone' and not self.nonnull(st, ('s', sid, 0)) and \
                        isinstance(sid[0], int) and not (rv[0] == 's' and rv[1] == sid):
                    self.ev('unexamined', self.info.byid.get(sid[0]) or ins,
                            '%s is never compared against NULL before reporting success' % self.desc(sid), st)
            f = st.gh.get('ign')
            if f is not None:
                self.ev('ignored', self.info.byid.get(f[1]) or ins,
                        'result of %s() is not checked before reporting success' % f[0], st)
        return super().check_exit(st, ins, rv)
