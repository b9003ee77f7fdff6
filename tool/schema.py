"""Configurations follow the schema of the node type they are made for: keys, kinds, and what set_config does with them."""
import re

from memrules import NULLSTR

BOOL, I64, U64, STR, NODE, LIST, DICT = range(1, 8)
NAMES = {BOOL: 'boolean', I64: 'signed integer', U64: 'unsigned integer', STR: 'string', NODE: 'node', LIST: 'list', DICT: 'dict'}
MAKES = {'ec_config_bool': BOOL, 'ec_config_i64': I64, 'ec_config_u64': U64, 'ec_config_string': STR,
         'ec_config_node': NODE, 'ec_config_list': LIST, 'ec_config_dict': DICT}


class Schemas:
    def __init__(self, mod, di):
        self.mod = mod
        self.di = di
        self.of = {}            # type global -> schema global or None
        self.setters = {}       # set_config function -> type globals
        self.getters = {}       # get_child function -> type globals
        self.counters = {}      # get_children_count function -> type globals
        self.slots = {}         # type global -> callbacks
        for g, (t, init, const, priv) in mod.globals.items():
            if t[0] == 'named' and di.struct_name(t[1]) == 'ec_node_type' and init is not None and init[0] == 'agg':
                f = self.fields(t[1], init)
                s = f.get('schema')
                self.of[g] = s[1] if s is not None and s[0] == 'g' else None
                self.slots[g] = {k: v[1] for k, v in f.items() if v[0] == 'g'}
                for k, d in (('set_config', self.setters), ('get_child', self.getters), ('get_children_count', self.counters)):
                    if f.get(k, ('',))[0] == 'g':
                        d.setdefault(f[k][1], set()).add(g)

    def fields(self, sty, init):
        out = {}
        o = 0
        for et, ev in init[2]:
            s, a, _ = self.mod.types.layout(et)
            o = (o + a - 1) // a * a
            f = self.di.field(sty, o)
            if f:
                out.setdefault(f, ev)
            o += s
        return out

    def string(self, v):
        if v[0] == 'g' and v[1] in self.mod.globals:
            i = self.mod.globals[v[1]][1]
            if i is not None and i[0] == 'str' and (len(v) < 3 or v[2] == 0):
                return i[1].split('\\00')[0]
        return None

    def entries(self, g):
        """[(key, kind, sub)] of a schema, or None if it cannot be read"""
        if g not in self.mod.globals:
            return None
        init = self.mod.globals[g][1]
        if init is None or init[0] != 'agg':
            return None
        out = []
        for t, e in init[2]:
            if e[0] != 'agg':
                break
            f = self.fields(t[1], e)
            k = f.get('type', ('i', 0))
            if k == ('i', 0):
                break
            sub = f.get('subschema', ('i', 0))
            out.append((self.string(f.get('key', ('i', 0))), k[1], sub[1] if sub[0] == 'g' else None))
        return out

    def lookup(self, g, key):
        es = self.entries(g)
        if es is None:
            return None
        return frozenset((k, s) for n, k, s in es if n == key)

    def conform(self, shape, want):
        """None if a configuration built like that fits the schema entry, else what does not"""
        kind, parts = shape
        wk, sub = want
        if kind is None:
            return None
        if kind != wk:
            return 'a %s where the schema has a %s' % (NAMES.get(kind, '?'), NAMES.get(wk, '?'))
        if kind == DICT:
            for key, sh in parts:
                es = self.lookup(sub, key)
                if es is None:
                    continue
                if not es:
                    return 'key "%s" which the schema does not have' % key
                for e in es:
                    r = self.conform(sh, e)
                    if r:
                        return 'key "%s": %s' % (key, r)
        if kind == LIST and sub is not None:
            for sh in parts:
                for _, k, s in self.entries(sub) or ():
                    r = self.conform(sh, (k, s))
                    if r:
                        return 'list element: %s' % r
        return None


class SchemaMixin:
    def schemas(self):
        s = getattr(self.spec, 'schemas', None)
        if s is None:
            s = self.spec.schemas = Schemas(self.mod, self.di)
        return s

    def init_state(self, st):
        r = super().init_state(st)
        t = self.schemas().setters.get(self.fname)
        if t:
            st.gh[('cfg', ('p', 1))] = frozenset((DICT, self.schemas().of[g]) for g in t)
        self.is_setter = bool(t)
        self.is_getter = self.fname in self.schemas().getters
        self.is_counter = self.fname in self.schemas().counters
        return r

    def shape(self, st, v):
        if v[0] == 's' and v[2] == 0 and ('shape', v[1]) in st.gh:
            return st.gh[('shape', v[1])]
        return (None, frozenset())

    def add_part(self, st, sid, part):
        """add to a dict (key, shape) or to a list (shape)"""
        k = ('shape', sid)
        kind, parts = st.gh.get(k, (None, frozenset()))
        if len(parts) < 12:
            st.gh[k] = (kind, parts | {part})
        if ('clink', sid) in st.gh:
            p, key = st.gh[('clink', sid)]
            self.add_part(st, p, (key, (kind, frozenset([part]))))

    def bad_config(self, st, ins, msg):
        self.ev('schema', ins, msg, st)

    def result(self, st, ins, name, c, args):
        S = self.schemas()
        a = args or ()
        if name == 'ec_config_dict_set' and len(a) > 2 and a[0][0] == 's':
            key = S.string(a[1])
            if key is not None:
                self.obl['schema'].add(ins.id)
                d = st.gh.get(('cfg', a[0][1]))
                sh = self.shape(st, a[2])
                if d is not None:
                    for kind, sub in d:
                        if kind == DICT and sub is not None:
                            r = S.conform((DICT, frozenset([(key, sh)])), (kind, sub))
                            if r:
                                self.bad_config(st, ins, 'puts in the configuration: %s' % r)
                self.add_part(st, a[0][1], (key, sh))
                if a[2][0] == 's':
                    st.gh[('clink', a[2][1])] = (a[0][1], key)
        if name == 'ec_config_list_add' and len(a) > 1 and a[0][0] == 's':
            self.obl['schema'].add(ins.id)
            sh = self.shape(st, a[1])
            for kind, sub in st.gh.get(('cfg', a[0][1]), ()):
                r = S.conform((LIST, frozenset([sh])), (kind, sub)) if kind == LIST else None
                if r:
                    self.bad_config(st, ins, 'puts in the configuration: %s' % r)
            self.add_part(st, a[0][1], sh)
        if name == 'ec_node_set_config' and len(a) > 1 and a[0][0] == 's' and a[1][0] == 's':
            self.obl['schema'].add(ins.id)
            how = st.gh.get(('typed', a[0][1]))
            if how is not None and how[0] in ('made', 'checked') and how[1] in S.of:
                kind, parts = self.shape(st, a[1])
                if S.of[how[1]] is None:
                    self.bad_config(st, ins, 'configures a node of type %s, which has no schema' % how[1])
                elif kind is not None or parts:
                    r = S.conform((kind or DICT, parts), (DICT, S.of[how[1]]))
                    if r:
                        self.bad_config(st, ins, 'configures a node of type %s with %s' % (how[1], r))
        v = super().result(st, ins, name, c, args)
        if v[0] != 's':
            return v
        if name in MAKES:
            st.gh[('shape', v[1])] = (MAKES[name], frozenset())
        elif name == 'ec_node_config_node_list_from_vargs':
            st.gh[('shape', v[1])] = (LIST, frozenset([(NODE, frozenset())]))
        elif name == 'ec_config_dup' and a and a[0][0] == 's':
            for k in ('cfg', 'shape'):
                if (k, a[0][1]) in st.gh:
                    st.gh[(k, v[1])] = st.gh[(k, a[0][1])]
        elif name == 'ec_node_get_config' and a and a[0][0] == 's':
            how = st.gh.get(('typed', a[0][1]))
            if how is not None and how[0] in ('made', 'checked') and S.of.get(how[1]):
                st.gh[('cfg', v[1])] = frozenset([(DICT, S.of[how[1]])])
        elif name == 'ec_config_dict_get' and len(a) > 1 and a[0][0] == 's':
            key = S.string(a[1])
            if key is not None:
                st.gh[('clink', v[1])] = (a[0][1], key)
                d = st.gh.get(('cfg', a[0][1]))
                if d is not None and all(k == DICT and s is not None for k, s in d):
                    self.obl['schema'].add(ins.id)
                    es = [S.lookup(s, key) for k, s in d]
                    if None not in es:
                        st.gh[('cfg', v[1])] = frozenset(e for x in es for e in x)
                        for k, s in d:
                            self.keys_read.add((s, key))
                        if not all(es):
                            self.bad_config(st, ins, 'reads key "%s" which the schema does not have' % key)
        return v

    def do_load(self, st, ins, p):
        v = super().do_load(st, ins, p)
        if p[0] == 's' and isinstance(p[2], int):
            cfg = st.gh.get(('cfg', p[1]))
            tag = None
            if cfg is None and self.uoff_cfg is not None and p[2] == self.uoff_cfg and \
                    st.memo.get((p[1], 'T')) == ('t', 'struct.ec_config'):
                t = st.mem.get((p[1], 0)) or st.memo.get((p[1], 0))
                if t is not None:
                    lo, hi = self.rng(st, t)
                    if lo == hi:
                        cfg = frozenset([(lo, None)])
                        tag = True
            if cfg is not None and self.uoff_cfg is not None:
                if p[2] == self.uoff_cfg:
                    self.read_member(st, ins, cfg, v, tag)
                elif p[2] == self.next_off and v[0] == 's':
                    st.gh[('cfg', v[1])] = cfg
        return v

    def read_member(self, st, ins, cfg, v, tag):
        kinds = {k for k, _ in cfg}
        t = ins.ty
        vs = None
        if v[0] == 's':
            x = st.memo.get((v[1], 'T'))
            vs = self.di.struct_name(x[1]) if x is not None else self.vstruct.get(ins.res)
        if t[0] == 'int':
            ok = {BOOL} if t[1] <= 8 else self.pointer_use(ins) & {I64, U64} or {I64, U64}
        elif vs == 'ec_node':
            ok = {NODE}
        elif vs == 'ec_dict':
            ok = {DICT}
        elif vs == 'ec_config':
            ok = {LIST}
        else:
            ok = self.pointer_use(ins) or {STR, NODE, LIST, DICT}
        self.obl['schema'].add(ins.id)
        if kinds and not ok & kinds:
            self.bad_config(st, ins, 'reads a %s as a %s' % (' or '.join(sorted(NAMES.get(k, '?') for k in kinds)),
                                                             ' or '.join(sorted(NAMES[k] for k in ok))))
        if LIST in kinds and v[0] == 's' and t == ('ptr',):
            sub = frozenset((k, s) for q, g in cfg if q == LIST and g for _, k, s in self.schemas().entries(g) or ())
            if sub:
                st.gh[('cfg', v[1])] = sub

    def pointer_use(self, ins):
        """what a pointer is taken for, from the parameters it is given to"""
        out = set()
        for b in self.fn.blocks.values():
            for i in b:
                if i.op != 'call':
                    continue
                if i.a[0][0] != 'g' or i.a[0][1].startswith('llvm.') or ('v', ins.res) not in i.a[1:]:
                    continue
                f = self.mod.funcs.get(i.a[0][1])
                for j, a in enumerate(i.a[1:]):
                    if a != ('v', ins.res):
                        continue
                    if f is not None and j < len(f.args) and ins.ty == ('ptr',):
                        s = self.di.var_structs(f)
                        out.add({'ec_node': NODE, 'ec_dict': DICT, 'ec_config': LIST, 'ec_config_list': LIST}.get(
                            s.get(f.args[j][1]), STR))
                    elif i.a[0][1] in NULLSTR and ins.ty == ('ptr',):
                        out.add(STR)
                    else:
                        out |= self.printed_as(i, j)
        return out

    def printed_as(self, call, j):
        """how a formatted output function prints its argument j"""
        for k in range(min(j, 6)):
            fmt = self.schemas().string(self.val0(call.a[1 + k]))
            if fmt is not None and '%' in fmt:
                conv = [m for m in re.findall(r'%[-+ #0]*(\*|[0-9]*)(?:\.(?:\*|[0-9]*))?(?:hh|h|ll|l|z|j|t)?([a-zA-Z%])', fmt)
                        if m[1] != '%']
                if any('*' in m[0] for m in conv) or '*' in fmt or j - k - 1 >= len(conv):
                    return set()
                c = conv[j - k - 1][1]
                return {I64} if c in 'di' else {U64} if c in 'uxXo' else {STR} if c == 's' else set()
        return set()

    def val0(self, op):
        return op if op[0] == 'g' else ('x',)

    @property
    def uoff_cfg(self):
        return self.union_off('ec_config')

    @property
    def next_off(self):
        return self.di.offset('ec_config', 'next')

    def gc(self, st, b=None, s=None, roots=()):
        r = super().gc(st, b, s, roots)
        for k in [k for k in st.gh if k[0] in ('cfg', 'shape', 'clink') and k[1] not in r and k[1][0] != 'p']:
            del st.gh[k]
        return r

    def check_exit(self, st, ins, rv):
        if self.is_setter and rv is not None and self.rng(st, rv)[0] >= 0:
            w = {}
            for (b, o), v in st.mem.items():
                if isinstance(o, int) and b[0] in self.privarg and v is not None:
                    org = self.privfield(st, b, o)
                    lo, hi = self.rng(st, v) if v[0] in ('s', 'i') else (-1, 1)
                    w[org] = 3 if v[0] not in ('s', 'i') else 0 if lo == hi == 0 else 1 if lo > 0 or hi < 0 else 2
                elif o == 'D' and b[0] in self.privarg:
                    w['*'] = 2
            k = frozenset(w.items())
            if k not in self.set_writes:
                self.set_writes[k] = (self.where(ins), self.trace(st))
        if self.is_getter and rv is not None and self.rng(st, rv)[0] >= 0:
            v = st.mem.get((('p', 2), 0))
            n = st.mem.get((('p', 3), 0))
            f = self.field_behind(st, v)
            m = self.meta.get(v[1][0], ('',)) if v is not None and v[0] == 's' else ('',)
            if len(m) > 3 and m[3] is not None and m[3][0] in self.privarg and not self.index_checked(st):
                self.ev('childrefs', ins, 'gives its only child for an index other than 0', st)
            k = (f, self.rng(st, n) if n is not None else None)
            if k not in self.child_refs:
                self.child_refs[k] = (self.where(ins), self.trace(st))
        if self.is_counter and rv is not None:
            null = {k[1] for k in st.gh if k[0] == 'cnull'}
            k = (self.field_behind(st, rv), self.rng(st, rv), frozenset(null))
            if k not in self.child_counts:
                self.child_counts[k] = (self.where(ins), self.trace(st))
        return super().check_exit(st, ins, rv)

    def setfacts(self, st, sid, lo, hi, ne):
        ok = super().setfacts(st, sid, lo, hi, ne)
        if ok and self.is_getter and sid == ('p', 1) and hi <= 0:
            st.gh['idx0'] = 1
        if ok and self.is_counter and lo == hi == 0:
            f = self.field_behind(st, ('s', sid, 0))
            if f:
                st.gh[('cnull', f)] = 1
        return ok

    def index_checked(self, st):
        """the index of the child asked for is below 1, or below a number of children asked for"""
        if 'idx0' in st.gh:
            return True
        i = ('v', self.fn.args[1][1])
        for b in self.fn.blocks.values():
            for c in b:
                if c.op == 'icmp' and i in c.a:
                    o = [x for x in c.a if x != i]
                    if o and o[0][0] != 'i' and (c.x in ('ult', 'uge') if c.a[0] == i else c.x in ('ugt', 'ule')):
                        return True
        return False

    def privfield(self, st, b, o):
        x = st.memo.get((b, 'T'))
        if x is not None:
            return self.di.field(x[1], o) or str(o)
        return str(o)

    def field_behind(self, st, v):
        for _ in range(3):
            if v is None or v[0] != 's':
                return None
            m = self.meta.get(v[1][0], ('',))
            if m[0] != 'load' or len(m) < 4:
                return None
            if m[3] is not None and m[3][0] in self.privarg:
                return self.di.field(m[1], m[2]) if m[1] else None
            v = ('s', m[3], 0) if isinstance(m[3], tuple) else None
        return None

    def key_behind(self, st, op, v):
        """('key', k): the value is that of configuration key k"""
        while op[0] == 'v' and op[1] in self.info.defs and self.info.defs[op[1]].op in ('cast', 'trunc', 'zext', 'sext'):
            op = self.info.defs[op[1]].a[0]
        for x in (v, self.val(st, op)):
            m = self.meta.get(x[1][0], ('',)) if x[0] == 's' else ('',)
            if m[0] == 'load' and len(m) > 3 and ('clink', m[3]) in st.gh:
                return ('key', st.gh[('clink', m[3])][1])
        return None

    def on_store(self, st, ins, base, off, v):
        if self.is_setter and isinstance(off, int) and base[0] in self.privarg and ins.op == 'store' and v[0] == 's':
            m = self.meta.get(v[1][0], ('',))
            f = self.privfield(st, base, off)
            self.priv_src.setdefault(f, set()).add(m[2] if m[0] == 'alloc' else self.key_behind(st, ins.a[0], v) or '?')
        return super().on_store(st, ins, base, off, v)


def post_schema(pr, sp, R):
    out = []
    S = Schemas(pr.mod, sp.di)
    n = 0
    for fn, types in S.setters.items():
        if fn not in R.funcs:
            continue
        facts = R.funcs[fn]['facts']
        read = set(map(tuple, facts['keys_read']))
        loc = facts['set_writes'][0][1][0] if facts['set_writes'] else None
        todo = [S.of[t] for t in types if S.of[t]]
        seen = set()
        while todo:
            g = todo.pop()
            if g in seen:
                continue
            seen.add(g)
            for key, kind, sub in S.entries(g) or ():
                n += 1
                if sub:
                    todo.append(sub)
                if key is not None and (g, key) not in read and not R.funcs[fn]['budget']:
                    out.append(dict(kind='schema', func=fn, loc=loc, trace=[],
                                    msg='never reads key "%s" of the schema' % key))
        got = {x[1] for f in facts['priv_src'].values() for x in f if isinstance(x, tuple)}
        for key, kind, sub in [e for t in types if S.of[t] for e in S.entries(S.of[t]) or ()]:
            if kind in (I64, U64) and got and not any('?' in f for f in facts['priv_src'].values()) and key not in got and not R.funcs[fn]['budget']:
                out.append(dict(kind='schema', func=fn, loc=loc, trace=[],
                                msg='the value of key "%s" never reaches the node' % key))
        writes = [(dict(w), x) for w, x in facts['set_writes']]
        allf = {f for w, _ in writes for f in w}
        for f in sorted(allf):
            having = [w for w, _ in writes if f in w]
            n += 1
            for w, x in writes:
                if f in w or '*' in w:
                    continue
                if any(w[g] in (0, 3) and all(h.get(g) in (1, 3) for h in having) for g in w):
                    continue
                out.append(dict(kind='stale', func=fn, loc=x[0], trace=x[1],
                                msg='keeps "%s" of the previous configuration' % f))
                break
    for fn, types in S.getters.items():
        if fn not in R.funcs:
            continue
        for (f, refs), x in R.funcs[fn]['facts']['child_refs']:
            n += 1
            src = set()
            for t in types:
                ss = [q for q, ts in S.setters.items() if t in ts]
                for q in ss:
                    src |= set(R.funcs.get(q, {'facts': {'priv_src': {}}})['facts']['priv_src'].get(f, ()))
            if f is None or refs is None:
                out.append(dict(kind='childrefs', func=fn, loc=x[0], trace=x[1],
                                msg='succeeds without giving a child of the node and the number of references to it'))
                continue
            if '?' in src:
                continue
            want = 2 if src & {'ec_node_clone', 'ec_node_config_node_list_to_table'} else 1
            if refs != (want, want):
                out.append(dict(kind='childrefs', func=fn, loc=x[0], trace=x[1],
                                msg='reports %s references to "%s", the node holds %d' % (
                                    refs[0] if refs[0] == refs[1] else '?', f, want)))
    for t, slots in S.slots.items():
        fp = slots.get('free_priv')
        get, cnt = slots.get('get_child'), slots.get('get_children_count')
        if fp in pr.mod.funcs and any(i.op == 'call' and i.a[0] == ('g', 'ec_node_free') or
                                      i.op == 'call' and i.a[0][:2] == ('g', 'ec_node_free')
                                      for b in pr.mod.funcs[fp].blocks.values() for i in b):
            n += 1
            if not get or not cnt:
                out.append(dict(kind='childrefs', func=fp, loc=None, trace=[],
                                msg='nodes of type %s hold other nodes but the type does not report them' % t))
        if not get or not cnt or get not in R.funcs or cnt not in R.funcs:
            continue
        fs = {f for (f, refs), x in R.funcs[get]['facts']['child_refs']}
        for (f, rng, null), x in R.funcs[cnt]['facts']['child_counts']:
            n += 1
            if rng == (0, 0) and f is None and not null & fs:
                out.append(dict(kind='childrefs', func=cnt, loc=x[0], trace=x[1],
                                msg='reports no child although the node may hold one (%s)' % ', '.join(sorted(map(str, fs)))))
            elif rng[0] == rng[1] and rng[0] > 1:
                out.append(dict(kind='childrefs', func=cnt, loc=x[0], trace=x[1],
                                msg='reports %d children' % rng[0]))
    R.counts['schema_rules'] = n
    return out
