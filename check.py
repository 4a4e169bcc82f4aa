#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--replay FILE] [--cases N] [--keep]

Builds the harness of a property against the current tree of /repo, searches for a violation and writes
evidence/<ID>.json. Exit 0: held; exit 1 with a VIOLATION line: broken."""
import sys, os, json, time, struct, subprocess, shutil, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('CXON_REPO', '/repo')
sys.path.insert(0, os.path.join(V, 'tools'))
from config import CONFIG, SAN
H = os.path.join(V, 'harness')
JOBS = os.cpu_count() or 4

def run(cmd, timeout=None, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
        return p.returncode, p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b'').decode('utf-8', 'replace') + '\n(timed out)'

class Build(Exception): pass

def compile_bins(pid, bins, bdir):
    """every unit of every binary is one job; binaries are linked when all are done"""
    jobs, links = [], []
    for b in bins:
        cc = b.get('cc', 'clang++'); std = b.get('std', 'c++20')
        flags = ['-std=' + std, '-g0', '-I' + REPO + '/src', '-I' + H] + b.get('opt', ['-O1']) + (SAN if b.get('san', True) else []) + b.get('flags', [])
        objs = []
        main = ('main11.cxx' if std in ('c++11', 'c++14') else 'main.cxx') if b.get('main', True) else None
        for n, (src, defs) in enumerate(([(main, [])] if main else []) + b['units']):
            o = os.path.join(bdir, '%s.%d.o' % (b['name'], n)); objs.append(o)
            jobs.append([cc] + flags + ['-D' + d for d in defs] + ['-c', os.path.join(H, src), '-o', o])
        links.append([cc] + flags + objs + ['-o', os.path.join(bdir, b['name'])] + b.get('libs', []))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        rs = list(ex.map(lambda j: run(j, 600), jobs))
    for j, (rc, out) in zip(jobs, rs):
        if rc != 0: rc, out = run(j, 600) # once more, alone
        if rc != 0: raise Build(' '.join(j) + '\n' + out)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        rs = list(ex.map(lambda j: run(j, 300), links))
    for j, (rc, out) in zip(links, rs):
        if rc != 0: raise Build(' '.join(j) + '\n' + out)

def read_replay(path):
    r = {}
    for l in open(path, errors='replace'):
        k, s, v = l.rstrip('\n').partition(':')
        if s: r[k] = v.strip()
    return r

def findings(pid):
    d = os.path.join(V, 'findings'); out = []
    for f in sorted(os.listdir(d)):
        if f.endswith('.replay'):
            r = read_replay(os.path.join(d, f))
            if r.get('property') == pid: out.append((os.path.join(d, f), r))
    return out

def main():
    a = sys.argv[1:]; opts = {}
    pid = a.pop(0)
    while a:
        k = a.pop(0); opts[k] = True if k in ('--keep',) else a.pop(0)
    tier = opts.get('--tier', os.environ.get('VERIF_TIER', 'quick')); seed = int(opts.get('--seed', os.environ.get('VERIF_SEED', '1') or '1'))
    c = CONFIG[pid]; bins = c['bins']; t0 = time.time()
    bdir = os.path.join(V, 'build', '%s.%d' % (pid, os.getpid())); shutil.rmtree(bdir, ignore_errors=True); os.makedirs(bdir)
    rdir = os.path.join(V, 'replays'); os.makedirs(rdir, exist_ok=True); os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': {}, 'assumptions': c.get('assumptions', []), 'violations': 0}
    def finish(code):
        ev['wall_s'] = round(time.time() - t0, 2)
        if '--replay' not in opts:
            with open(os.path.join(V, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        if '--keep' not in opts: shutil.rmtree(bdir, ignore_errors=True)
        sys.exit(code)
    def violation(path, what):
        ev['violations'] = 1; ev['coverage'].setdefault('violation', what[:2000])
        print('%s: %s' % (pid, what[:2000])); print('VIOLATION property=%s replay=%s' % (pid, path)); sys.stdout.flush()
        finish(1)
    cov = ev['coverage']
    cov.update(evaluations=0, distinct_nontrivial=0, rule=c['rule'], samples=[])

    if '--replay' in opts:
        r = read_replay(opts['--replay']); bins = [b for b in bins if b['name'] == r.get('binary', bins[0]['name'])]
    try: compile_bins(pid, bins, bdir)
    except Build as x:
        path = os.path.join(rdir, '%s.build.log' % pid); open(path, 'w').write(str(x))
        violation(path, 'the harness does not compile against this tree: ' + str(x)[-1500:])
    if c.get('custom'): # the property has its own driver
        return c['custom'](dict(pid=pid, tier=tier, seed=seed, bdir=bdir, rdir=rdir, cov=cov, ev=ev, violation=violation, finish=finish, run=run, opts=opts, config=c, jobs=JOBS))
    if '--replay' in opts:
        rc, out = run([os.path.join(bdir, bins[0]['name']), '--replay', opts['--replay']], 300)
        print(out)
        if rc == 1: violation(opts['--replay'], 'reproduced')
        finish(0)

    # known findings
    known = findings(pid)
    for path, r in known:
        rc, out = run([os.path.join(bdir, r.get('binary', bins[0]['name'])), '--replay', path], 300)
        if rc == 1 and ('FAIL ' + r.get('label', '') + '\n') in out: print('KNOWN-FINDING: property=%s %s' % (pid, r.get('what', '')))
        elif rc == 1: violation(path, 'the input of a known finding fails in another way: ' + out)
        else: print('note: the known finding %s does not reproduce' % os.path.basename(path))
    cov['known_findings'] = [os.path.basename(p) for p, _ in known]

    # the search
    work = []
    for b in bins:
        n = int(opts.get('--cases', b[tier])); t = b.get('time', {'quick': 150, 'thorough': 3000})[tier]
        sh = JOBS if n >= 64 else 1
        work += [(b, i, sh, n, t) for i in range(sh)]
    def go(w):
        b, i, sh, n, t = w
        out = os.path.join(bdir, '%s.%d.json' % (b['name'], i))
        env = dict(os.environ, **b.get('env', {}))
        rc, log = run([os.path.join(bdir, b['name']), '--run', '--seed', str(seed), '--shard', str(i), '--shards', str(sh), '--cases', str(n), '--time', str(t), '--out', out, '--cpu', str(b.get('cpu', 20))], t + 400, env)
        return rc, log, out
    with cf.ThreadPoolExecutor(JOBS) as ex: rs = list(ex.map(go, work))
    seen = {}; tests = {}; labels = {}; samples = []; fails = []; nontrivial = 0
    for w, (rc, log, out) in zip(work, rs):
        b = w[0]
        try: j = json.load(open(out))
        except Exception:
            path = os.path.join(rdir, '%s.%s.log' % (pid, b['name'])); open(path, 'w').write('exit %d\n%s' % (rc, log))
            # the runner itself ended: once more before it is believed
            rc2, log2, out2 = go(w)
            try: j = json.load(open(out2))
            except Exception: fails.append((b, {'test': '?', 'label': 'runner', 'msg': 'the runner ended with %d: %s' % (rc2, log2[-1500:]), 'stable': True}, path)); continue
        cov['evaluations'] += j['evaluations']
        if 'failure' in j: fails.append((b, j['failure'], out + '.replay')); continue
        nontrivial += j['nontrivial']
        for k, v in j['tests'].items(): tests[b['name'] + ':' + k] = tests.get(b['name'] + ':' + k, 0) + v
        for k, v in j['labels'].items(): labels[k] = labels.get(k, 0) + v
        samples += [s for s in j['samples']]
        hs = open(out + '.hashes', 'rb').read()
        s = seen.setdefault(b['name'], set()); s.update(struct.unpack('<%dQ' % (len(hs) // 8), hs))
    cov['distinct_nontrivial'] = sum(len(s) for s in seen.values())
    cov['nontrivial'] = nontrivial
    step = max(1, len(samples) // 24); cov['samples'] = samples[::step][:30]
    cov['tests'] = tests; cov['labels'] = labels
    cov['binaries'] = {b['name']: '%s -std=%s %s' % (b.get('cc', 'clang++'), b.get('std', 'c++20'), ' '.join(b.get('opt', ['-O1']) + (SAN if b.get('san', True) else []) + b.get('flags', []))) for b in bins}
    for b, f, rp in fails:
        path = os.path.join(rdir, '%s.%s.%s.replay' % (pid, b['name'], ''.join(ch if ch.isalnum() else '_' for ch in f['test'])[:60]))
        if f['label'] == 'runner': violation(rp, f['msg'])
        txt = 'property: %s\nbinary: %s\n' % (pid, b['name']) + open(rp, errors='replace').read(); open(path, 'w').write(txt)
        n = 0
        for _ in range(3):
            rc, out = run([os.path.join(bdir, b['name']), '--replay', path], 300, dict(os.environ, **b.get('env', {}))); n += rc == 1
        if n == 3: violation(path, '%s [%s]: %s' % (f['test'], f['label'], f['msg']))
        # not reproducible from its choices: only a failure of the whole run, run again, is believed
        w = [w for w in work if w[0] is b]; again = [go(x) for x in w]
        if any(r[0] == 1 for r in again): violation(path, '%s [%s, only within a run]: %s' % (f['test'], f['label'], f['msg']))
        print('note: a failure of %s did not happen again: %s' % (f['test'], f['msg'][:300]))
    print('%s: held, %d cases, %d distinct non-trivial, %.1f s' % (pid, cov['evaluations'], cov['distinct_nontrivial'], time.time() - t0))
    finish(0)

if __name__ == '__main__': main()
