"""V01: the same cases in every configuration; the hashes of their outcomes are compared."""
import os, json, struct, subprocess, concurrent.futures as cf

def cases(path):
    d = open(path, 'rb').read(); i = 0; r = []
    while i + 7 <= len(d):
        n, = struct.unpack_from('<I', d, i + 3); r.append((d[i], d[i + 1], d[i + 2], d[i + 7:i + 7 + n])); i += 7 + n
    return r
def dump(path, cs):
    with open(path, 'wb') as f:
        for t, o, m, s in cs: f.write(bytes((t, o, m)) + struct.pack('<I', len(s)) + s)
def hashes(path):
    try: d = open(path, 'rb').read()
    except OSError: return ()
    return struct.unpack('<%dQ' % (len(d) // 8), d[:len(d) // 8 * 8])

def driver(d):
    b, run, cov = d['bdir'], d['run'], d['cov']
    names = [x['name'] for x in d['config']['bins'] if x['name'] != 'gen']; ref = names[0]
    exe = lambda n: os.path.join(b, n)
    count = [0]
    def evaluate(n, cs):
        """outcomes: a hash, 0 where the configuration does not have the type, None where the process ended"""
        count[0] += 1; f = os.path.join(b, 't%d' % count[0]); dump(f, cs)
        try: run([exe(n), f, f + '.o'], 120); return [h for h in hashes(f + '.o')] + [None] * (len(cs) - len(hashes(f + '.o')))
        finally:
            for x in (f, f + '.o'):
                if os.path.exists(x): os.remove(x)
    def differ(x, y): return y is None or x is None or (y != 0 and x != y)
    def bad(n, c): return differ(evaluate(ref, [c])[0], evaluate(n, [c])[0])
    def show(n, c):
        f = os.path.join(b, 'show'); dump(f, [c]); rc, out = run([exe(n), '--show', f, '0'], 120); return ('' if rc == 0 else 'ended with %d: ' % rc) + out.strip()[-700:]
    def shrink(n, c):
        t, o, m, s = c
        for m2 in range(m):
            if bad(n, (t, o, m2, s)): m = m2; break
        w = max(1, len(s) // 2)
        while w:
            i = 0
            while i < len(s):
                if bad(n, (t, o, m, s[:i] + s[i + w:])): s = s[:i] + s[i + w:]
                else: i += w
                if count[0] > 4000: return t, o, m, s
            w //= 2
        return t, o, m, s
    conf = {x['name']: '%s -std=%s %s%s' % (x.get('cc', 'clang++'), x.get('std', 'c++20'), ' '.join(x.get('opt', ['-O1']) + x.get('flags', [])), ' sanitizers' if x.get('san', True) else '') for x in d['config']['bins']}
    def report(n, c):
        if not all(bad(n, c) for _ in range(3)): print('note: a difference did not happen again'); return
        c = shrink(n, c); path = os.path.join(d['rdir'], 'V01.%s.replay' % n)
        what = 'type %d operation %d form %d input %s: [%s] %s -- [%s] %s' % (c[0], c[1], c[2], c[3].hex(), conf[ref], show(ref, c), conf[n], show(n, c))
        open(path, 'w').write('property: V01\nbinary: %s\ncase: %d %d %d %s\nwhat: %s\n' % (n, c[0], c[1], c[2], c[3].hex(), what))
        d['violation'](path, what)
    if '--replay' in d['opts']:
        r = {l.split(':', 1)[0]: l.split(':', 1)[1].strip() for l in open(d['opts']['--replay']) if ':' in l}
        x = r['case'].split(); c = (int(x[0]), int(x[1]), int(x[2]), bytes.fromhex(x[3]) if len(x) > 3 else b'')
        print(show(ref, c)); print(show(r['binary'], c))
        if bad(r['binary'], c): d['violation'](d['opts']['--replay'], 'reproduced')
        d['finish'](0)

    jobs = d['jobs']; total = int(d['opts'].get('--cases', d['config']['cases'][d['tier']])); block = 1600000
    cov['operations'] = {}; cov['excluded'] = 0; cov['configurations'] = conf; cov['comparisons'] = 0
    for k in range(max(1, (total + block - 1) // block)):
        n = min(total, block)
        def one(i):
            f, s = os.path.join(b, 'c%d' % i), os.path.join(b, 's%d' % i)
            rc, out = run([exe('gen'), str(d['seed'] * 1000 + k), str(i), str(jobs), str(n), f, s], 600)
            if rc: return None, out
            hs = {}
            for v in names:
                o = f + '.' + v; rc, out = run([exe(v), f, o], 800); hs[v] = (rc, out, hashes(o)); os.path.exists(o) and os.remove(o)
            return json.load(open(s)), hs
        with cf.ThreadPoolExecutor(jobs) as ex: rs = list(ex.map(one, range(jobs)))
        for i, (st, hs) in enumerate(rs):
            if st is None: raise SystemExit('the generator failed: ' + hs)
            cov['evaluations'] += st['evaluations']; cov['distinct_nontrivial'] += st['distinct']; cov['excluded'] += st['excluded']; cov['samples'] += st['samples'][:4]
            for o, c in st['operations'].items(): cov['operations'][o] = cov['operations'].get(o, 0) + c
            cs = None
            for v in names:
                x, y = hs[ref][2], hs[v][2]; cov['comparisons'] += sum(1 for h in y if h) if v != ref else 0
                if v != ref and x == y and len(y) == st['evaluations']: continue
                if cs is None: cs = cases(os.path.join(b, 'c%d' % i))
                at = [j for j in range(len(cs)) if differ(x[j] if j < len(x) else None, y[j] if j < len(y) else None)]
                if len(y) < len(cs) and hs[v][0] == 0: at = at or [len(y)]
                for j in at[:5]: report(v, cs[j])
        cov['samples'] = cov['samples'][:30]
    print('V01: held, %d cases in %d configurations, %d distinct non-trivial' % (cov['evaluations'], len(names), cov['distinct_nontrivial']))
    d['finish'](0)
