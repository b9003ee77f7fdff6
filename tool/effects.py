"""Effect rules: what a call may change."""
import frontend

# results that are part of (or reached through) their first argument
PASS = {'ec_node_priv', 'ec_node_get_config', 'ec_node_attrs', 'ec_node_type', 'ec_config_dict_get',
        'ec_config_list_first', 'ec_config_list_next', 'ec_dict_get', 'ec_htable_get', 'ec_strvec_val',
        'ec_strvec_get_attrs', 'ec_pnode_get_strvec', 'ec_pnode_get_root', 'ec_pnode_get_parent',
        'ec_pnode_get_first_child', 'ec_pnode_get_last_child', 'ec_pnode_next', 'ec_pnode_get_node', 'ec_pnode_find',
        'ec_pnode_get_attrs', 'ec_comp_iter_first', 'ec_comp_iter_next', 'ec_comp_get_cur_pstate',
        'ec_comp_get_cur_group', 'ec_comp_get_attrs', 'ec_dict_iter', 'ec_htable_iter', 'ec_dict_iter_next',
        'ec_htable_iter_next', 'ec_node_id', 'ec_config_schema_sub', 'ec_config_schema_lookup'}
# public calls whose documented purpose is to change library-wide settings
STATE_FUNCS = {'ec_init', 'ec_exit', 'ec_init_register', 'ec_log_type_register', 'ec_node_type_register',
               'ec_malloc_register', 'ec_log_fct_register', 'ec_log_level_set', 'ec_htable_force_seed'}
# bookkeeping that is not part of the observable value
COUNTS = ('refcnt', 'refcount')




class EffectMixin:
    def ro_params(self):
        r = getattr(self, '_ro', None)
        if r is None:
            r = {}
            for n in range(len(self.fn.args)):
                p = self.di.param(self.fn, n)
                if p and p[0] and p[1] and 'struct ' in p[2]:
                    r[n] = p[2]
            self._ro = r
        return r

    def root(self, sid, depth=0):
        """index of the argument through which this object was found, or None"""
        if depth > 12 or not isinstance(sid, tuple):
            return None
        if sid[0] == 'p':
            return sid[1]
        if isinstance(sid[0], int):
            m = self.meta.get(sid[0])
            if m is None:
                return None
            if m[0] == 'load' and len(m) > 3:
                if m[3][0] == 'g':
                    return None if m[3][1] in ('errno', 'stdout', 'stderr', 'stdin') else 'g:' + m[3][1]
                if m[3][0] == 'a':
                    return None
                return self.root(m[3], depth + 1)
            if m[0] == 'call':
                return self.argroot.get(sid[0])
        return None

    def effect(self, st, ins, sid, what, callee=None):
        if isinstance(sid, tuple) and sid[0] not in ('a', 'g'):
            r = self.root(sid)
            self.obl['effect'].add(ins.id)
            if isinstance(r, str):
                self.gmods.setdefault((r[2:], ins.id, callee), (what, self.where(ins), self.trace(st)))
            elif r is not None:
                k = (r, ins.id, what, callee)
                if k not in self.effects:
                    self.effects[k] = (self.where(ins), self.trace(st) if r in self.ro_params() else [])

    def on_store(self, st, ins, base, off, v):
        if base[0] not in ('a', 'g') and ins.op == 'store':
            org = self.org_of(st, ins.a[1], base, off)
            f = self.di.field(*org) if org[0] is not None and org[1] is not None else None
            if not (f and f.split('.')[-1] in COUNTS):
                self.effect(st, ins, base, 'writes %s.%s' % (self.di.struct_name(org[0]), f) if f else
                            'writes memory')
        elif base[0] == 'g' and base[1] != 'errno':
            self.gmods.setdefault((base[1], ins.id, None), ('writes it', self.where(ins), self.trace(st)))
        return super().on_store(st, ins, base, off, v)

    def pre_call(self, st, ins, name, c, args):
        full = ins.a[0][1] if ins.a[0][0] == 'g' else name
        if ins.a[0][0] == 'v':
            cv = self.val(st, ins.a[0])
            full = cv[1] if cv[0] == 'g' else name
        for n, a in enumerate(args):
            if a[0] == 'g' and a[1] in self.mod.globals and not self.mod.globals[a[1]][2] and \
                    self.spec.argmode(full, c, n) in ('rw', 'free', 'consume') and \
                    (full in self.mod.funcs or c is not None):
                self.gmods.setdefault((a[1], ins.id, (full, n) if full in self.prog.analyse else None),
                                      ('passes it to %s() which modifies it' % name, self.where(ins),
                                       self.trace(st)))
            if a[0] != 's' or n < len(ins.x) and ins.x[n][0] != 'ptr':
                continue
            mode = self.spec.argmode(full, c, n)
            if mode in ('free', 'consume'):
                self.effect(st, ins, a[1], 'passes %s to %s() for %s' % (
                    self.desc(a[1]), name, {'free': 'release', 'consume': 'take-over'}[mode]))
            elif mode == 'rw' and (full in self.mod.funcs or c is not None):
                f = self.mod.funcs.get(full)
                if f is not None and f.varargs and n >= len(f.args):
                    continue
                if f is None and name in ('fprintf', 'printf', 'snprintf', 'el_set', 'history') and n > 0:
                    continue
                self.effect(st, ins, a[1], 'passes %s to %s() which modifies it' % (self.desc(a[1]), name),
                            (full, n) if f is not None and full in self.prog.analyse else None)
        self.calls_made.add(full)
        if name in PASS and args and args[0][0] == 's':
            r = self.root(args[0][1])
            if r is not None:
                self.argroot[ins.id] = r
        return super().pre_call(st, ins, name, c, args)

    def memcpy(self, st, ins, args):
        if args[0][0] == 's':
            self.effect(st, ins, args[0][1], 'writes memory')
        return super().memcpy(st, ins, args)

    def memset(self, st, ins, args):
        if args[0][0] == 's':
            self.effect(st, ins, args[0][1], 'writes memory')
        return super().memset(st, ins, args)

    def export_effects(self):
        return dict(effects=[(k[0], k[2], k[3], w, tr) for k, (w, tr) in self.effects.items()],
                    ro=self.ro_params(), gmods=[(k[0], k[2]) + v for k, v in self.gmods.items()], calls=sorted(self.calls_made))


def post_effects(pr, sp, R):
    mod = {f: {e[0] for e in r['facts']['effects'] if e[2] is None} for f, r in R.funcs.items()}
    ch = True
    while ch:
        ch = False
        for f, r in R.funcs.items():
            for n, what, cal, w, tr in r['facts']['effects']:
                if cal is not None and cal[1] in mod.get(cal[0], ()) and n not in mod[f]:
                    mod[f].add(n)
                    ch = True
    R.mod = mod
    out = []
    nro = 0
    for f, r in R.funcs.items():
        nro += len(r['facts']['ro'])
        for n, what, cal, w, tr in r['facts']['effects']:
            if n in r['facts']['ro'] and (cal is None or cal[1] in mod.get(cal[0], ())):
                out.append(dict(kind='modifies', func=f, loc=w, msg="%s, which belongs to the read-only argument "
                                "'%s' (%s)" % (what, pr.mod.funcs[f].args[n][1], r['facts']['ro'][n]), trace=tr))
    R.counts['ro_args'] = nro
    ok = set()
    for f in pr.analyse:
        if f in pr.ctors or frontend.basename(f) in STATE_FUNCS or \
                any(x == ('ec_init', 'init') or x == ('ec_init', 'exit') for x in sp.slot_of.get(f, ())):
            ok.add(f)
    R.counts['state_setters'] = len(ok)
    ng = 0
    for f, r in R.funcs.items():
        for g, cal, what, w, tr in r['facts']['gmods']:
            ng += 1
            if f in ok or cal is not None and cal[1] not in mod.get(cal[0], ()):
                continue
            out.append(dict(kind='globalwrite', func=f, loc=w, msg='%s: state shared by all calls, changed outside '
                            'start-up, shut-down and registration (%s)' % (g, what), trace=tr))
    R.counts['shared_writes'] = ng
    return out
