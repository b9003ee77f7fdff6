import sys, os, hashlib, pickle
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ['VERIF_DEBUG'] = '1'
import runner

HERE = os.path.dirname(os.path.abspath(__file__))
ORIG = runner.analyse
DIR = os.environ.get('VERIF_DEVCACHE')
glob = []


def analyse(f):
    """development only: reuse the facts of functions whose IR did not change"""
    fn = runner.PR.mod.funcs[f]
    G = runner.PR.mod.globals
    if not glob:
        ver = hashlib.sha1(b''.join(open(os.path.join(HERE, x), 'rb').read() for x in sorted(os.listdir(HERE))
                                    if x.endswith('.py') and x not in ('dev.py', 'propdefs.py', 'progress.py'))).hexdigest()
        glob.append(ver + repr(sorted((g, v[1]) for g, v in G.items() if 'schema' in g)))
    strs = glob[0] + repr([G[a[1]][1] for b in fn.order for i in fn.blocks[b] for a in i.a
                           if isinstance(a, tuple) and a[:1] == ('g',) and a[1] in G])
    k = hashlib.sha1((strs + f + repr([(b, [(i.op, i.res, i.ty, i.a, i.x) for i in fn.blocks[b]])
                                       for b in fn.order])).encode()).hexdigest()
    p = os.path.join(DIR, k)
    if os.path.exists(p):
        return pickle.load(open(p, 'rb'))
    r = ORIG(f)
    t = p + '.%d' % os.getpid()
    pickle.dump(r, open(t, 'wb'))
    os.rename(t, p)
    return r


if DIR:
    os.makedirs(DIR, exist_ok=True)
    runner.analyse = analyse
if __name__ == '__main__':
    a = sys.argv[1:]
    kinds = [x[2:] for x in a if x.startswith('k=')]
    jobs = [int(x[2:]) for x in a if x.startswith('j=')] or [8]
    R = runner.run_all([x for x in a if x[1:2] != '='], jobs[0])
    print('wall %.1f functions %d states %d' % (R.wall, len(R.funcs), sum(r['states'] for r in R.funcs.values())))
    for r in sorted(R.funcs.values(), key=lambda r: -r['wall'])[:6]:
        print('  ', r['func'], r['states'], '%.1f' % r['wall'], r['budget'])
    n = 0
    for e in sorted(R.events, key=lambda e: (e['kind'], e['func'])):
        if kinds and e['kind'] not in kinds: continue
        n += 1
        l = e['loc']
        print(e['kind'], e['func'], l[0] if l else '?', e['msg'], '|'.join(e['trace'][-10:]))
    print(n, 'events')
