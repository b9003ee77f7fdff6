"""Parser for the textual LLVM IR that clang 18 / opt 18 print for /repo's sources.

Only the subset that C code compiled with -O1 -disable-llvm-passes + always-inline
+ sroa produces is accepted; anything else raises IRError (the checks then exit
with an error, never with a verdict).
"""
import re


class IRError(Exception):
    pass


TOK = re.compile(r'''
   "(?:[^"\\]|\\.)*"            # strings
 | [%@](?:"(?:[^"\\]|\\.)*"|[-\w.$]+)
 | ![-\w.]*(?:\{)?
 | c"(?:[^"\\]|\\.)*"
 | -?\d+\.\d+e[+-]\d+ | -?\d+
 | 0x[0-9A-Fa-fKLMHR]+
 | \.\.\.
 | [A-Za-z_][\w.]*
 | [\[\]{}()<>,=*:\#|]
''', re.X)


def tokenize(s):
    return TOK.findall(s)


PARAM_ATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone',
               'signext', 'zeroext', 'returned', 'immarg', 'inreg', 'nofree', 'dead_on_unwind', 'writable',
               'swiftself', 'nest', 'captures', 'noreturn'}
PARAM_ATTRS_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'allocsize', 'elementtype'}
FLAGS = {'nuw', 'nsw', 'exact', 'inbounds', 'disjoint', 'nneg', 'nuw', 'nusw', 'samesign', 'fast', 'nnan', 'ninf',
         'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'volatile', 'inrange'}


class Types:
    def __init__(self):
        self.structs = {}   # name -> list of types
        self.packed = set()
        self._c = {}

    def layout(self, t):
        """t: parsed type tuple -> (size, align, offsets|None)"""
        r = self._c.get(t)
        if r is None:
            r = self._layout(t)
            self._c[t] = r
        return r

    def _layout(self, t):
        k = t[0]
        if k == 'int':
            b = (t[1] + 7) // 8
            a = 1
            while a < b:
                a *= 2
            a = min(a, 16)
            return ((b + a - 1) // a * a, a, None)
        if k == 'ptr':
            return (8, 8, None)
        if k == 'fp':
            return (t[1], t[1], None)
        if k == 'arr':
            s, a, _ = self.layout(t[2])
            return (s * t[1], a, None)
        if k == 'named':
            f = self.structs.get(t[1])
            if f is None:
                return (0, 1, [])
            return self._lstruct(f, t[1] in self.packed)
        if k == 'lit':
            return self._lstruct(t[1], False)
        if k == 'void':
            return (0, 1, None)
        raise IRError('layout of %r' % (t,))

    def _lstruct(self, fields, packed):
        off = 0
        al = 1
        offs = []
        for f in fields:
            s, a, _ = self.layout(f)
            if packed:
                a = 1
            off = (off + a - 1) // a * a
            offs.append(off)
            off += s
            al = max(al, a)
        off = (off + al - 1) // al * al
        return (off, al, offs)

    def size(self, t):
        return self.layout(t)[0]

    def field(self, t, i):
        """(type, offset) of field i of struct type t"""
        if t[0] == 'named':
            f = self.structs[t[1]]
        else:
            f = t[1]
        return f[i], self.layout(t)[2][i]


class P:
    """token cursor"""

    def __init__(self, toks, types, ctx=''):
        self.t = toks
        self.i = 0
        self.types = types
        self.ctx = ctx

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.eat(x):
            raise IRError('expected %r at %r in %s' % (x, self.t[self.i:self.i + 6], self.ctx))

    def type(self):
        v = self.next()
        if v == 'ptr':
            r = ('ptr',)
        elif v == 'void':
            r = ('void',)
        elif re.fullmatch(r'i\d+', v):
            r = ('int', int(v[1:]))
        elif v in ('float',):
            r = ('fp', 4)
        elif v in ('double',):
            r = ('fp', 8)
        elif v in ('x86_fp80', 'fp128'):
            r = ('fp', 16)
        elif v == 'metadata' or v == 'label' or v == 'token':
            r = (v,)
        elif v == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            r = ('arr', n, e)
        elif v == '{':
            fs = []
            if not self.eat('}'):
                while True:
                    fs.append(self.type())
                    if self.eat('}'):
                        break
                    self.expect(',')
            r = ('lit', tuple(fs))
        elif v == '<':
            if self.peek() == '{':
                r = self.type()
                self.expect('>')
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                r = ('arr', n, e)
        elif v[0] == '%':
            r = ('named', unq(v[1:]))
        else:
            raise IRError('type %r in %s' % (v, self.ctx))
        # function type suffix:  void (ptr, ...)
        while self.peek() == '(' and self._is_fnty():
            d = 0
            while True:
                x = self.next()
                if x == '(':
                    d += 1
                elif x == ')':
                    d -= 1
                    if d == 0:
                        break
        while self.peek() == '*':
            self.next()
            r = ('ptr',)
        return r

    def _is_fnty(self):
        # only in call: "call i32 (ptr, ...) @f(" ; the callee token follows the closing paren
        d = 0
        j = self.i
        while j < len(self.t):
            x = self.t[j]
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1
                if d == 0:
                    break
            j += 1
        nx = self.t[j + 1] if j + 1 < len(self.t) else None
        return nx is not None and (nx[0] in '@%' or nx == '*')

    def skip_attrs(self):
        while True:
            v = self.peek()
            if v is None:
                return
            if v in PARAM_ATTRS:
                self.i += 1
            elif v in PARAM_ATTRS_ARG:
                self.i += 1
                if self.peek() == '(':
                    d = 0
                    while True:
                        x = self.next()
                        if x == '(':
                            d += 1
                        elif x == ')':
                            d -= 1
                            if d == 0:
                                break
                elif re.fullmatch(r'\d+', self.peek() or ''):
                    self.i += 1
            elif v == '#':
                self.i += 2
            else:
                return

    def const_or_val(self, ty):
        v = self.next()
        c = v[0]
        if c == '%':
            return ('v', unq(v[1:]))
        if c == '@':
            return ('g', unq(v[1:]), 0)
        if v == 'null' or v == 'zeroinitializer':
            if ty[0] in ('ptr', 'int'):
                return ('i', 0)
            return ('zero',)
        if v == 'true':
            return ('i', 1)
        if v == 'false':
            return ('i', 0)
        if v in ('undef', 'poison'):
            return ('u',)
        if v == 'none':
            return ('u',)
        if re.fullmatch(r'-?\d+', v):
            n = int(v)
            return ('i', n)
        if re.fullmatch(r'-?\d+\.\d+e[+-]\d+', v) or v.startswith('0x'):
            return ('x',)
        if v == 'getelementptr':
            while self.peek() in FLAGS:
                nf = self.next()
                if nf == 'inrange' and self.peek() == '(':
                    while self.next() != ')':
                        pass
            self.expect('(')
            st = self.type()
            self.expect(',')
            self.type()
            base = self.const_or_val(('ptr',))
            off = 0
            idx = []
            while self.eat(','):
                self.eat('inrange')
                it = self.type()
                idx.append(self.const_or_val(it))
            self.expect(')')
            o, ty2 = gep_off(self.types, st, idx)
            if base[0] == 'g':
                return ('g', base[1], base[2] + o if o is not None else None)
            return ('x',)
        if v in ('inttoptr', 'ptrtoint', 'bitcast', 'addrspacecast', 'trunc', 'zext', 'sext'):
            self.expect('(')
            t1 = self.type()
            x = self.const_or_val(t1)
            self.expect('to')
            self.type()
            self.expect(')')
            return x
        if v in ('sub', 'add', 'and', 'or', 'xor', 'mul', 'icmp', 'select'):
            # constant expression over addresses: skip
            while self.peek() != '(':
                self.next()
            d = 0
            while True:
                x = self.next()
                if x == '(':
                    d += 1
                elif x == ')':
                    d -= 1
                    if d == 0:
                        break
            return ('x',)
        if v == '{' or v == '<':
            vals = []
            close = '}' if v == '{' else '>'
            if v == '<' and self.peek() == '{':
                self.next()
                close = '}'
            while not self.eat(close):
                t = self.type()
                vals.append((t, self.const_or_val(t)))
                self.eat(',')
            if v == '<':
                self.eat('>')
            return ('agg', ty, tuple(vals))
        if v == '[':
            vals = []
            while not self.eat(']'):
                t = self.type()
                vals.append((t, self.const_or_val(t)))
                self.eat(',')
            return ('agg', ty, tuple(vals))
        if v.startswith('c"') or v.startswith('"'):
            return ('str', v[2:-1] if v[0] == 'c' else v[1:-1])
        if v == 'c' and self.peek() and self.peek()[0] == '"':
            s = self.next()
            return ('str', s[1:-1])
        raise IRError('constant %r in %s' % (v, self.ctx))

    def tval(self):
        t = self.type()
        self.skip_attrs()
        return t, self.const_or_val(t)


def unq(s):
    if s and s[0] == '"':
        return s[1:-1]
    return s


def gep_off(types, st, idx):
    """constant offset (or None) and resulting type for a GEP"""
    t = st
    off = 0
    for n, ix in enumerate(idx):
        if n == 0:
            if ix[0] != 'i':
                off = None
            elif off is not None:
                off += ix[1] * types.size(t)
            continue
        if t[0] in ('named', 'lit'):
            f, o = types.field(t, ix[1])
            if off is not None:
                off += o
            t = f
        elif t[0] == 'arr':
            if ix[0] != 'i':
                off = None
            elif off is not None:
                off += ix[1] * types.size(t[2])
            t = t[2]
        else:
            raise IRError('gep into %r' % (t,))
    return off, t


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'dbg', 'id', 'x')

    def __init__(self, op, res, ty, a, x=None):
        self.op = op
        self.res = res
        self.ty = ty
        self.a = a
        self.x = x
        self.dbg = None
        self.id = 0

    def __repr__(self):
        return '%s = %s %s %s' % (self.res, self.op, self.a, self.x)


class Func:
    def __init__(self, name):
        self.name = name
        self.args = []      # (type, name)
        self.blocks = {}    # label -> [Instr]
        self.order = []
        self.internal = False
        self.dbg = None
        self.rett = None
        self.varargs = False
        self.raw = None     # unparsed body lines
        self.dbgvars = {}   # value -> debug-info variables it was assigned to


class Module:
    def __init__(self):
        self.types = Types()
        self.funcs = {}
        self.decls = {}
        self.globals = {}    # name -> (type, init, const)
        self.md = {}         # id -> raw text

    # ---- debug info -------------------------------------------------
    def mdnode(self, n):
        v = self.md.get(n)
        if v is None:
            return None
        if isinstance(v, str):
            v = parse_md(v)
            self.md[n] = v
        return v

    def loc(self, dbg):
        """list of (file, line, function) innermost first, following inlinedAt"""
        out = []
        while dbg:
            d = self.mdnode(dbg)
            if d is None or d[0] != 'DILocation':
                break
            f, sp = self.scope(d[1].get('scope'))
            out.append((f, int(d[1].get('line', 0)), sp))
            dbg = d[1].get('inlinedAt')
        return out

    def scope(self, s):
        f = None
        while s:
            d = self.mdnode(s)
            if d is None:
                break
            if d[0] == 'DISubprogram':
                fn = self.mdnode(d[1].get('file'))
                fl = fn[1].get('filename', '').strip('"') if fn else '?'
                return fl, d[1].get('name', '').strip('"')
            s = d[1].get('scope')
        return '?', '?'


MDKV = re.compile(r'(\w+): ("(?:[^"\\]|\\.)*"|!DIExpression\([^)]*\)|[^,()]+)')


def parse_md(s):
    m = re.match(r'(?:distinct )?!(DI\w+|\w+)?\((.*)\)\s*$', s)
    if m:
        d = {}
        for k, v in MDKV.findall(m.group(2)):
            d[k] = v.strip()
        return (m.group(1), d)
    m = re.match(r'(?:distinct )?!\{(.*)\}\s*$', s)
    if m:
        return ('list', [x.strip() for x in m.group(1).split(',')])
    return ('?', s)


BINOPS = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem',
          'fadd', 'fsub', 'fmul', 'fdiv'}
CASTS = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'fptosi', 'fptoui', 'sitofp', 'uitofp',
         'fpext', 'fptrunc'}

DBGRE = re.compile(r', !dbg !(\d+)')
MDTAIL = re.compile(r'(, ![\w.]+ ![\w.]+)+\s*$')


def parse_instr(line, types):
    dbg = None
    m = DBGRE.search(line)
    if m:
        dbg = '!' + m.group(1)
    line = MDTAIL.sub('', line)
    toks = tokenize(line)
    p = P(toks, types, line.strip())
    res = None
    if len(toks) > 1 and toks[1] == '=':
        res = unq(p.next()[1:])
        p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    ins = None
    if op == 'br':
        if p.peek() == 'label':
            p.next()
            ins = Instr('br', None, None, [unq(p.next()[1:])])
        else:
            p.next()
            c = p.const_or_val(('int', 1))
            p.expect(',')
            p.expect('label')
            t = unq(p.next()[1:])
            p.expect(',')
            p.expect('label')
            f = unq(p.next()[1:])
            ins = Instr('cbr', None, None, [c], (t, f))
    elif op == 'switch':
        t, v = p.tval()
        p.expect(',')
        p.expect('label')
        d = unq(p.next()[1:])
        p.expect('[')
        cases = []
        while not p.eat(']'):
            ct, cv = p.tval()
            p.expect(',')
            p.expect('label')
            cases.append((cv[1], unq(p.next()[1:])))
        ins = Instr('switch', None, t, [v], (d, cases))
    elif op == 'ret':
        if p.peek() == 'void':
            ins = Instr('ret', None, None, [])
        else:
            t, v = p.tval()
            ins = Instr('ret', None, t, [v])
    elif op == 'unreachable':
        ins = Instr('unreachable', None, None, [])
    elif op == 'phi':
        while p.peek() in FLAGS:
            p.next()
        t = p.type()
        inc = []
        while p.eat('['):
            v = p.const_or_val(t)
            p.expect(',')
            inc.append((v, unq(p.next()[1:])))
            p.expect(']')
            p.eat(',')
        ins = Instr('phi', res, t, [v for v, _ in inc], [b for _, b in inc])
    elif op == 'load':
        p.eat('volatile')
        t = p.type()
        p.expect(',')
        _, a = p.tval()
        ins = Instr('load', res, t, [a])
    elif op == 'store':
        p.eat('volatile')
        t, v = p.tval()
        p.expect(',')
        _, a = p.tval()
        ins = Instr('store', None, t, [v, a])
    elif op == 'alloca':
        t = p.type()
        n = None
        if p.eat(',') and p.peek() != 'align':
            _, n = p.tval()
        ins = Instr('alloca', res, t, [], types.size(t))
    elif op == 'getelementptr':
        while p.peek() in FLAGS:
            p.next()
        st = p.type()
        p.expect(',')
        bt, base = p.tval()
        idx = []
        while p.eat(','):
            _, ix = p.tval()
            idx.append(ix)
        off, rt = gep_off(types, st, idx)
        # path: named struct + field chain for diagnostics / field identity
        fld = None
        t = st
        o = 0
        for n, ix in enumerate(idx):
            if n == 0:
                continue
            if t[0] in ('named', 'lit'):
                f, fo = types.field(t, ix[1])
                if t[0] == 'named':
                    fld = (t[1], fo)
                t = f
            elif t[0] == 'arr':
                t = t[2]
        dyn = [i for i in idx if i[0] != 'i']
        ins = Instr('gep', res, ('ptr',), [base] + dyn, (off, st, fld, idx))
    elif op == 'icmp':
        pred = p.next()
        while pred in FLAGS:
            pred = p.next()
        t = p.type()
        a = p.const_or_val(t)
        p.expect(',')
        b = p.const_or_val(t)
        ins = Instr('icmp', res, t, [a, b], pred)
    elif op == 'fcmp':
        ins = Instr('opaque', res, ('int', 1), [])
    elif op == 'select':
        while p.peek() in FLAGS:
            p.next()
        _, c = p.tval()
        p.expect(',')
        t, a = p.tval()
        p.expect(',')
        _, b = p.tval()
        ins = Instr('select', res, t, [c, a, b])
    elif op in BINOPS:
        while p.peek() in FLAGS:
            p.next()
        t = p.type()
        a = p.const_or_val(t)
        p.expect(',')
        b = p.const_or_val(t)
        ins = Instr('bin', res, t, [a, b], op)
    elif op in CASTS:
        while p.peek() in FLAGS:
            p.next()
        t1, a = p.tval()
        p.expect('to')
        t2 = p.type()
        ins = Instr('cast', res, t2, [a], (op, t1))
    elif op == 'freeze':
        t, a = p.tval()
        ins = Instr('cast', res, t, [a], ('freeze', t))
    elif op == 'call':
        # call [cconv] [ret attrs] <ty> [fnty] callee(args) [#attrs]
        while p.peek() in PARAM_ATTRS or p.peek() in ('fastcc', 'ccc') or p.peek() in FLAGS or \
                p.peek() in PARAM_ATTRS_ARG:
            if p.peek() in PARAM_ATTRS or p.peek() in PARAM_ATTRS_ARG:
                p.skip_attrs()
            else:
                p.next()
        t = p.type()
        cal = None
        if p.peek() == 'asm':
            ins = Instr('opaque', res, t, [])
            ins.dbg = dbg
            return ins
        cal = p.const_or_val(('ptr',))
        p.expect('(')
        args = []
        tys = []
        while not p.eat(')'):
            if p.peek() == 'metadata':
                # dbg intrinsics: skip
                args = None
                break
            at, av = p.tval()
            args.append(av)
            tys.append(at)
            p.eat(',')
        if args is None:
            return None
        ins = Instr('call', res, t, [cal] + args, tys)
    elif op in ('extractvalue', 'insertvalue', 'fneg', 'va_arg', 'fence', 'cmpxchg', 'atomicrmw'):
        ins = Instr('opaque', res, None, [])
    else:
        raise IRError('instruction %r: %s' % (op, line))
    ins.dbg = dbg
    return ins


DEFRE = re.compile(r'^define (.*?)@("[^"]+"|[-\w.$]+)\((.*?)\)([^()]*)\{\s*$')


def parse_module(text, want=lambda name: True):
    m = Module()
    lines = text.split('\n')
    i = 0
    n = len(lines)
    structlines = []
    globlines = []
    while i < n:
        ln = lines[i]
        if not ln:
            i += 1
            continue
        c = ln[0]
        if c == '%':
            structlines.append(ln)
        elif c == '@':
            globlines.append(ln)
        elif c == 'd' and ln.startswith('define '):
            mm = re.match(r'^define (.*?)@("[^"]+"|[-\w.$]+)\(', ln)
            name = unq(mm.group(2))
            f = Func(name)
            f.internal = mm.group(1).startswith('internal ')
            f.raw = [ln]
            i += 1
            while lines[i] != '}':
                f.raw.append(lines[i])
                i += 1
            m.funcs[name] = f
        elif c == 'd' and ln.startswith('declare '):
            mm = re.match(r'^declare (.*?)@("[^"]+"|[-\w.$]+)\(', ln)
            m.decls[unq(mm.group(2))] = ln
        elif c == '!':
            k = ln.find(' = ')
            m.md[ln[:k]] = ln[k + 3:]
        i += 1
    for ln in structlines:
        mm = re.match(r'^%("[^"]+"|[-\w.$]+) = type (.*)$', ln)
        nm = unq(mm.group(1))
        body = mm.group(2)
        if body == 'opaque':
            m.types.structs[nm] = None
            continue
        if body.startswith('<{'):
            m.types.packed.add(nm)
            body = body[1:-1]
        p = P(tokenize(body), m.types, ln)
        t = p.type()
        m.types.structs[nm] = t[1]
    m.types.structs = {k: v for k, v in m.types.structs.items() if v is not None}
    for ln in globlines:
        mm = re.match(r'^@("[^"]+"|[-\w.$]+) = (.*)$', ln)
        nm = unq(mm.group(1))
        rest = MDTAIL.sub('', mm.group(2))
        toks = tokenize(rest)
        j = 0
        isconst = False
        ext = False
        while j < len(toks) and toks[j] not in ('global', 'constant', 'alias'):
            if toks[j] == 'external':
                ext = True
            j += 1
        if j >= len(toks):
            continue
        isconst = toks[j] == 'constant'
        p = P(toks, m.types, ln)
        p.i = j + 1
        t = p.type()
        init = None
        if not ext:
            init = p.const_or_val(t)
        m.globals[nm] = (t, init, isconst, 'internal' in toks[:j] or 'private' in toks[:j])
    for f in m.funcs.values():
        parse_header(f, m)
        if want(f.name):
            parse_body(f, m)
    return m


def parse_header(f, m):
    ln = f.raw[0]
    d = re.search(r'!dbg (!\d+)', ln)
    f.dbg = d.group(1) if d else None
    mm = re.match(r'^define (.*?)@("[^"]+"|[-\w.$]+)\((.*)\)[^()]*\{\s*$', ln)
    pre = tokenize(mm.group(1))
    p = P(pre, m.types, ln)
    while p.peek() in ('dso_local', 'internal', 'weak', 'hidden', 'linkonce_odr') or p.peek() in PARAM_ATTRS \
            or p.peek() in PARAM_ATTRS_ARG:
        if p.peek() in PARAM_ATTRS or p.peek() in PARAM_ATTRS_ARG:
            p.skip_attrs()
        else:
            p.next()
    f.rett = p.type()
    p = P(tokenize(mm.group(3)), m.types, ln)
    while p.peek() is not None:
        if p.eat('...'):
            f.varargs = True
            break
        t = p.type()
        p.skip_attrs()
        f.args.append((t, unq(p.next()[1:])))
        p.eat(',')


DBGVAL = re.compile(r'@llvm\.dbg\.value\(metadata ptr %("[^"]+"|[-\w.$]+), metadata (!\d+), metadata '
                    r'!DIExpression\(\)\)')
LABEL = re.compile(r'^("[^"]+"|[-\w.$]+):')


def parse_body(f, m):
    cur = None
    lines = f.raw[1:]
    first = True
    i = 0
    cid = 0
    while i < len(lines):
        ln = lines[i]
        i += 1
        if not ln:
            continue
        if ln[0] != ' ':
            mm = LABEL.match(ln)
            if mm:
                cur = []
                lab = unq(mm.group(1))
                f.blocks[lab] = cur
                f.order.append(lab)
                first = False
                continue
            if ln[0] == ';':
                continue
            raise IRError('line %r' % ln)
        if 'call void @llvm.dbg.' in ln or '@llvm.lifetime.' in ln:
            mm = DBGVAL.search(ln)
            if mm:
                f.dbgvars.setdefault(unq(mm.group(1)), set()).add(mm.group(2))
            continue
        if first:
            raise IRError('unnamed entry block in %s' % f.name)
        if ln.lstrip().startswith('switch '):
            while ']' not in ln:
                ln += ' ' + lines[i].strip()
                i += 1
        ins = parse_instr(ln, m.types)
        if ins is None:
            continue
        ins.id = cid
        cid += 1
        cur.append(ins)
    f.ninstr = cid
    f.raw = None
