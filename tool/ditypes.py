"""Struct layouts and prototypes recovered from the debug info of the analysed program."""


class DI:
    def __init__(self, mod):
        self.mod = mod
        self.structs = {}
        self.fprotos = {}
        for k in list(mod.md):
            v = mod.md[k]
            if isinstance(v, str) and 'DICompositeType' in v:
                n = mod.mdnode(k)
                if n[0] == 'DICompositeType' and n[1].get('tag') in ('DW_TAG_structure_type', 'DW_TAG_union_type') \
                        and 'elements' in n[1] and 'name' in n[1]:
                    self.structs.setdefault(n[1]['name'].strip('"'), k)
        self.enums = {}
        for k in list(mod.md):
            n = mod.md[k]
            if isinstance(n, str) and 'DW_TAG_enumeration_type' in n:
                n = mod.mdnode(k)
            if not isinstance(n, str) and n is not None and n[0] == 'DICompositeType' and \
                    n[1].get('tag') == 'DW_TAG_enumeration_type':
                els = mod.mdnode(n[1].get('elements', ''))
                d = {}
                for e in (els[1] if els else []):
                    en = mod.mdnode(e)
                    if en and en[0] == 'DIEnumerator':
                        d[en[1]['name'].strip('"')] = int(en[1]['value'])
                if 'name' in n[1]:
                    self.enums.setdefault(n[1]['name'].strip('"'), d)
        self._f = {}

    def members(self, k):
        """[(name, byte offset, byte size, type node)] of composite type node k"""
        n = self.mod.mdnode(k)
        out = []
        els = self.mod.mdnode(n[1]['elements'])
        for e in els[1]:
            m = self.mod.mdnode(e)
            if m is None or m[1].get('tag') != 'DW_TAG_member':
                continue
            out.append((m[1].get('name', '').strip('"'), int(m[1].get('offset', 0)) // 8,
                        int(m[1].get('size', 0)) // 8, m[1].get('baseType')))
        return out

    def strip(self, t, const=False):
        """skip typedefs / qualifiers"""
        while t:
            n = self.mod.mdnode(t)
            if n and n[0] == 'DIDerivedType' and n[1].get('tag') in ('DW_TAG_typedef', 'DW_TAG_const_type',
                                                                    'DW_TAG_volatile_type', 'DW_TAG_restrict_type'):
                t = n[1].get('baseType')
                continue
            break
        return t

    def isconst(self, t):
        while t:
            n = self.mod.mdnode(t)
            if n and n[0] == 'DIDerivedType' and n[1].get('tag') in ('DW_TAG_typedef', 'DW_TAG_const_type',
                                                                    'DW_TAG_volatile_type'):
                if n[1]['tag'] == 'DW_TAG_const_type':
                    return True
                t = n[1].get('baseType')
                continue
            return False
        return False

    def struct_name(self, irname):
        """LLVM type name -> C struct tag"""
        if irname is None:
            return None
        n = irname
        for p in ('struct.', 'union.'):
            if n.startswith(p):
                n = n[len(p):]
        parts = n.rsplit('.', 1)
        if len(parts) == 2 and parts[1].isdigit():
            n = parts[0]
        return n

    def field(self, irname, off):
        """dotted field name at byte offset of struct"""
        s = self.struct_name(irname)
        key = (s, off)
        if key in self._f:
            return self._f[key]
        r = self._field(self.structs.get(s), off)
        self._f[key] = r
        return r

    def _field(self, k, off):
        if k is None:
            return None
        for name, o, sz, bt in self.members(k):
            if o <= off < o + max(sz, 1):
                t = self.strip(bt)
                n = self.mod.mdnode(t) if t else None
                if n and n[0] == 'DICompositeType' and n[1].get('tag') == 'DW_TAG_structure_type' and \
                        'elements' in n[1]:
                    sub = self._field(t, off - o)
                    return name + ('.' + sub if sub else '')
                if off == o:
                    return name
                return name + '+%d' % (off - o)
        return None

    def field_type(self, irname, off):
        k = self.structs.get(self.struct_name(irname))
        if k is None:
            return None
        for name, o, sz, bt in self.members(k):
            if o == off:
                return self.typename(bt)
        return None

    def deep_type(self, irname, off):
        """type of the innermost member at byte offset off"""
        k = self.structs.get(self.struct_name(irname))
        while k is not None:
            for name, o, sz, bt in self.members(k):
                if o <= off < o + max(sz, 1):
                    t = self.strip(bt)
                    n = self.mod.mdnode(t) if t else None
                    if n and n[0] == 'DICompositeType' and n[1].get('tag') == 'DW_TAG_structure_type' and \
                            'elements' in n[1]:
                        k = t
                        off -= o
                        break
                    return self.typename(bt) if off == o else None
            else:
                return None
        return None

    def offset(self, s, field):
        k = self.structs.get(s)
        if k is None:
            return None
        off = 0
        for part in field.split('.'):
            for name, o, sz, bt in self.members(k):
                if name == part:
                    off += o
                    k = self.strip(bt)
                    break
            else:
                return None
        return off

    def typename(self, t):
        if not t or t == 'null':
            return 'void'
        n = self.mod.mdnode(t)
        if n is None:
            return '?'
        if n[0] == 'DIBasicType':
            return n[1]['name'].strip('"')
        if n[0] == 'DICompositeType':
            tag = n[1]['tag']
            nm = n[1].get('name', '"?"').strip('"')
            return {'DW_TAG_structure_type': 'struct ', 'DW_TAG_union_type': 'union ',
                    'DW_TAG_enumeration_type': 'enum ', 'DW_TAG_array_type': 'array '}.get(tag, '') + nm
        if n[0] == 'DIDerivedType':
            tag = n[1]['tag']
            if tag == 'DW_TAG_pointer_type':
                return self.typename(n[1].get('baseType')) + ' *'
            if tag == 'DW_TAG_const_type':
                return 'const ' + self.typename(n[1].get('baseType'))
            if tag == 'DW_TAG_typedef':
                return n[1]['name'].strip('"')
            return self.typename(n[1].get('baseType'))
        if n[0] == 'DISubroutineType':
            return 'fn'
        return '?'

    def proto(self, fn):
        """[return type, param types...] as C-ish strings for a defined function"""
        if fn.name in self.fprotos:
            return self.fprotos[fn.name]
        r = None
        sp = self.mod.mdnode(fn.dbg) if fn.dbg else None
        if sp:
            st = self.mod.mdnode(sp[1].get('type'))
            if st:
                ts = self.mod.mdnode(st[1].get('types'))
                r = [(t if t != 'null' else None) for t in ts[1]]
        self.fprotos[fn.name] = r
        return r

    def var_structs(self, fn):
        """{SSA name: struct tag} for values held in variables declared as pointer to struct"""
        out = {}
        for v, ns in fn.dbgvars.items():
            tags = set()
            for n in ns:
                d = self.mod.mdnode(n)
                t = self.strip(d[1].get('type')) if d and d[0] == 'DILocalVariable' else None
                d = self.mod.mdnode(t) if t else None
                if d and d[0] == 'DIDerivedType' and d[1].get('tag') == 'DW_TAG_pointer_type':
                    b = self.strip(d[1].get('baseType'))
                    d = self.mod.mdnode(b) if b else None
                    if d and d[0] == 'DICompositeType' and d[1].get('tag') == 'DW_TAG_structure_type' and \
                            'name' in d[1]:
                        tags.add(d[1]['name'].strip('"'))
            if len(tags) == 1:
                out[v] = tags.pop()
        return out

    def param(self, fn, n):
        """(is pointer, pointee is const, type name) of parameter n"""
        p = self.proto(fn)
        if p is None or n + 1 >= len(p):
            return None
        t = self.strip(p[n + 1])
        d = self.mod.mdnode(t) if t else None
        if d and d[0] == 'DIDerivedType' and d[1].get('tag') == 'DW_TAG_pointer_type':
            bt = d[1].get('baseType')
            return True, self.isconst(bt) if bt else False, self.typename(p[n + 1])
        return False, False, self.typename(p[n + 1])
