"""Turns /repo's current sources into the analysed program.

clang (real flags, no optimisation) -> llvm-link -> always-inline of every helper that
has no contract -> sroa.  The result is independent of how code is split into helpers
and of the names/ordering of local variables.
"""
import glob
import os
import re
import subprocess
import sys
import tempfile
import shutil
from concurrent.futures import ThreadPoolExecutor

import irparse

REPO = os.environ.get('VERIF_REPO', '/repo')


class FrontError(Exception):
    pass


def tool(name):
    for c in ('/usr/lib/llvm-18/bin/' + name, '/usr/bin/%s-18' % name, '/usr/bin/' + name):
        if os.path.exists(c):
            return c
    raise FrontError('missing tool ' + name)


def sources():
    """The library's sources, from src/meson.build (all C files of src/ that it lists)."""
    mb = open(os.path.join(REPO, 'src', 'meson.build')).read()
    names = re.findall(r"'(ecoli_\w+\.c)'", mb)
    if len(names) < 30:
        raise FrontError('src/meson.build lists only %d sources' % len(names))
    return [os.path.join(REPO, 'src', n) for n in dict.fromkeys(names)]


CFLAGS = ['-O0', '-Xclang', '-disable-O0-optnone', '-g', '-std=c99', '-D_GNU_SOURCE',
          '-D_FILE_OFFSET_BITS=64', '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'src'),
          '-I/usr/include/editline', '-fno-discard-value-names', '-w', '-U_FORTIFY_SOURCE']


def run(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise FrontError('%s failed: %s' % (cmd[0], r.stderr[-2000:]))
    return r.stdout


def base_ll(tmp):
    srcs = sources()
    clang = tool('clang')
    objs = []

    def one(s):
        o = os.path.join(tmp, os.path.basename(s)[:-2] + '.ll')
        run([clang] + CFLAGS + ['-emit-llvm', '-S', '-o', o, s])
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, srcs))
    tag_structs(objs)
    allbc = os.path.join(tmp, 'all.bc')
    run([tool('llvm-link')] + objs + ['-o', allbc])
    ll = os.path.join(tmp, 'all.ll')
    run([tool('llvm-dis'), allbc, '-o', ll])
    return srcs, ll


def tag_structs(files):
    """llvm-link merges distinct C structs whose layouts coincide.  Keep them apart by appending to each
    named struct a zero-sized element whose type encodes the struct's name."""
    texts = {f: open(f).read() for f in files}
    names = sorted({m for t in texts.values() for m in re.findall(r'^%(struct\.[\w.]+) = type \{', t, re.M)})
    base = sorted({basename(n) for n in names})
    ident = {n: base.index(basename(n)) + 1 for n in names}
    usere = re.compile(r'%(struct\.[\w.]+) \{')

    def fix_consts(ln):
        out = []
        stack = []
        i = 0
        instr = False
        n = len(ln)
        while i < n:
            c = ln[i]
            if instr:
                if c == '"':
                    instr = False
                out.append(c)
                i += 1
                continue
            if c == '"':
                instr = True
            if c == '%':
                m = usere.match(ln, i)
                if m:
                    out.append(m.group(0))
                    stack.append(m.group(1))
                    i = m.end()
                    continue
            if c == '{':
                stack.append(None)
            elif c == '}':
                nm = stack.pop()
                if nm is not None and nm in ident:
                    while out and out[-1] == ' ':
                        out.pop()
                    out.append(', [%d x [0 x i8]] zeroinitializer ' % ident[nm])
            out.append(c)
            i += 1
        return ''.join(out)

    for f, t in texts.items():
        res = []
        for ln in t.split('\n'):
            m = re.match(r'^%(struct\.[\w.]+) = type \{(.*)\}$', ln)
            if m:
                body = m.group(2).strip()
                ln = '%%%s = type { %s%s[%d x [0 x i8]] }' % (m.group(1), body, ', ' if body else '', ident[m.group(1)])
            elif ln.startswith('@') and '%struct.' in ln:
                ln = fix_consts(ln)
            res.append(ln)
        open(f, 'w').write('\n'.join(res))


CALLRE = re.compile(r'\bcall\b[^@\n]*?@("[^"]+"|[-\w.$]+)\(')
REFRE = re.compile(r'@("[^"]+"|[-\w.$]+)')


def callgraph(text):
    """name -> (set of direct callees, set of referenced names, internal?) from unparsed IR"""
    g = {}
    cur = None
    for ln in text.split('\n'):
        if ln.startswith('define '):
            m = re.match(r'^define (.*?)@("[^"]+"|[-\w.$]+)\(', ln)
            cur = irparse.unq(m.group(2))
            g[cur] = (set(), set(), m.group(1).startswith('internal '))
        elif ln == '}':
            cur = None
        elif cur and ln.startswith('  '):
            if 'llvm.dbg' in ln:
                continue
            cs = [irparse.unq(x) for x in CALLRE.findall(ln)]
            g[cur][0].update(cs)
            rs = [irparse.unq(x) for x in REFRE.findall(ln)]
            for r in rs:
                g[cur][1].add(r)
    return g


def sccs(graph):
    sys.setrecursionlimit(10000)
    idx = {}
    low = {}
    st = []
    on = set()
    out = []
    c = [0]

    def dfs(v):
        idx[v] = low[v] = c[0]
        c[0] += 1
        st.append(v)
        on.add(v)
        for w in graph[v]:
            if w not in graph:
                continue
            if w not in idx:
                dfs(w)
                low[v] = min(low[v], low[w])
            elif w in on:
                low[v] = min(low[v], idx[w])
        if low[v] == idx[v]:
            comp = []
            while True:
                w = st.pop()
                on.discard(w)
                comp.append(w)
                if w == v:
                    break
            out.append(comp)
    for v in graph:
        if v not in idx:
            dfs(v)
    return out


def basename(n):
    """strip the .123 suffix llvm-link adds to colliding internal names"""
    return re.sub(r'\.\d+$', '', n)


class Program:
    pass


def load(boundary, maxinline=100000, keep_tmp=False):
    """boundary(name, internal) -> True if calls to that function stay calls (it has a contract)."""
    tmp = tempfile.mkdtemp(prefix='ecv.')
    try:
        srcs, ll = base_ll(tmp)
        text = open(ll).read()
        g = callgraph(text)
        # ---- test code: functions referenced from struct ec_test objects, and what only they use
        testroots = set()
        for m in re.finditer(r'^@[^\n]*= [^\n]*%struct\.ec_test(?:\.\d+)? \{([^\n]*)\}', text, re.M):
            for r in REFRE.findall(m.group(1)):
                testroots.add(irparse.unq(r))
        testroots &= set(g)
        ginit = {}
        for m in re.finditer(r'^@("[^"]+"|[-\w.$]+) = ([^\n]*)', text, re.M):
            ginit[irparse.unq(m.group(1))] = set(irparse.unq(x) for x in REFRE.findall(m.group(2)))
        if len(testroots) < 20:
            raise FrontError('found only %d test functions' % len(testroots))
        # live = reachable from externals/global initialisers without going through test roots
        roots = [n for n, (c, r, internal) in g.items() if not internal]
        live = set()
        work = list(roots)
        gl_seen = set()
        rec = {n for n in ginit}

        def push(n):
            if n in testroots:
                return
            if n in g:
                if n not in live:
                    live.add(n)
                    work.append(n)
            elif n in ginit and n not in gl_seen:
                gl_seen.add(n)
                for x in ginit[n]:
                    push(x)
        for n in roots:
            live.add(n)
        # constructors (registration) are internal in ctors list
        push('llvm.global_ctors')
        while work:
            n = work.pop()
            for x in g[n][1]:
                push(x)
        # the test-support module itself is not library code
        live = {n for n in live if not n.startswith('ec_test_') and not basename(n).startswith('ec_test_')}
        # ---- inline set
        # (functions with a contract stay calls, so they cut cycles)
        cg = {n: c[0] for n, c in g.items() if not boundary(basename(n), c[2])}
        rec = set()
        for comp in sccs(cg):
            if len(comp) > 1 or comp[0] in cg[comp[0]]:
                rec.update(comp)
        inline = set()
        for n in g:
            if n in testroots or n in rec:
                continue
            if not boundary(basename(n), g[n][2]):
                inline.add(n)
        out = []
        text = re.sub(r'^(attributes #\d+ = \{.*?)\bnoinline\b', r'\1', text, flags=re.M)
        for ln in text.split('\n'):
            if ln.startswith('define '):
                m = re.match(r'^define (.*?)@("[^"]+"|[-\w.$]+)\(', ln)
                n = irparse.unq(m.group(2))
                if n in inline:
                    # function attributes go just before '!dbg' / '{'
                    k = ln.rfind(' !dbg')
                    if k < 0:
                        k = ln.rfind(' {')
                    ln = ln[:k] + ' alwaysinline' + ln[k:]
            out.append(ln)
        ll2 = os.path.join(tmp, 'mark.ll')
        open(ll2, 'w').write('\n'.join(out))
        ll3 = os.path.join(tmp, 'fin.ll')
        run([tool('opt'), '-S', '-passes=always-inline,sroa', ll2, '-o', ll3])
        ftext = open(ll3).read()
        if os.environ.get('VERIF_KEEP_IR'):
            shutil.copy(ll3, os.environ['VERIF_KEEP_IR'])
        mod = irparse.parse_module(ftext, want=lambda n: n in live)
        pr = Program()
        pr.mod = mod
        pr.live = live
        pr.inline = inline
        pr.recursive = rec
        pr.srcs = srcs
        pr.cg = g
        pr.tests = testroots
        pr.ctors = ginit.get('llvm.global_ctors', set()) & set(g)
        # functions to analyse: live, not (inlined everywhere and never address-taken)
        addr = set()
        for n in live:
            for x in g[n][1] - g[n][0]:
                addr.add(x)
        for gn in gl_seen:
            addr |= ginit[gn]
        pr.addr_taken = addr & set(g)
        pr.analyse = sorted(n for n in live if n in mod.funcs and
                            (not g[n][2] or n in pr.addr_taken or n not in inline))
        return pr
    finally:
        if not keep_tmp:
            shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    import time
    t = time.time()
    pr = load(lambda n, internal: not internal)
    print(len(pr.live), 'live', len(pr.inline), 'inlined', len(pr.analyse), 'analysed', time.time() - t)
    print('recursive', sorted(pr.recursive & pr.live))
    sz = sorted(((pr.mod.funcs[n].ninstr, len(pr.mod.funcs[n].blocks), n) for n in pr.analyse), reverse=True)
    print(sz[:40])
    print(sorted(n for n in pr.analyse if pr.cg[n][2]))
