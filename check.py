#!/usr/bin/env python3
"""check.py --property Cxx [--tier quick|thorough]: decides one property of osu-file-parser.

Every run below is a TLC run of a machine of /verif/spec.  TLC checks the invariants of the
specification in every state and prints the behaviour it specifies for that state ("vector");
the harness replays every vector into the code built from /repo's working tree and compares.
Exit 0: held; exit 1 with a VIOLATION line: broken; exit 2: the check itself failed.
"""
import argparse, concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, time, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import runs as R

SPEC = os.path.join(HERE, 'spec')
HARNESS = os.path.join(HERE, 'harness')
BIN = os.path.join(HARNESS, 'target', 'release', 'harness')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class ToolError(Exception):
    pass


def build():
    env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='',
               RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu')
    env['PATH'] = '/root/.cargo/bin:' + env['PATH']
    p = subprocess.run(['cargo', 'build', '--release', '--offline', '--quiet'], cwd=HARNESS, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise ToolError('harness does not build:\n' + p.stdout[-4000:])


def java(workers, heap='3g'):
    return ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=%d' % max(2, workers // 2), '-Xmx' + heap, '-Dfile.encoding=UTF-8',
            '-Xss64m', '-cp', JARS, '-DTLA-Library=' + SPEC, 'tlc2.TLC', '-nowarning', '-workers', str(workers)]


def run_tlc(run, work, workers, timeout):
    """runs TLC; returns (stats, path of its output)"""
    d = os.path.join(work, run['name'])
    os.makedirs(d)
    name = 'Run_' + re.sub(r'\W', '_', run['name'])
    with open(os.path.join(d, name + '.tla'), 'w') as f:
        f.write('---- MODULE %s ----\nEXTENDS %s\n%s\n====\n' % (name, run['module'], run.get('defs', '')))
    with open(os.path.join(d, name + '.cfg'), 'w') as f:
        f.write(run.get('spec', 'SPECIFICATION Spec') + '\n')
        for k, v in run['consts'].items():
            f.write('CONSTANT %s %s %s\n' % (k, '<-' if run.get('subst', {}).get(k) else '=', v))
        for i in run.get('inv', ['Behaviour']):
            f.write('INVARIANT %s\n' % i)
        f.write('CHECK_DEADLOCK FALSE\n')
    for n, p in run.get('files', {}).items():
        shutil.copy(p, os.path.join(d, n))
    out = os.path.join(d, 'out')
    cmd = java(workers, run.get('heap', '3g')) + ['-metadir', os.path.join(d, 'meta'), '-config', name + '.cfg'] + run.get('args', []) + [name + '.tla']
    t0 = time.time()
    with open(out, 'w') as f:
        try:
            p = subprocess.run(cmd, cwd=d, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError('TLC run %s did not finish in %d s' % (run['name'], timeout))
    gen = dist = 0
    bad = None
    tail = []
    with open(out, errors='replace') as f:
        for l in f:
            if l.startswith('"@V@'):
                continue
            tail.append(l)
            m = re.match(r'([\d,]+) states generated, ([\d,]+) distinct', l)
            if m:
                gen, dist = (int(x.replace(',', '')) for x in m.groups())
            m = re.match(r'The number of states generated: ([\d,]+)', l)
            if m:
                gen = dist = int(m.group(1).replace(',', ''))
            if l.startswith('Error:') and bad is None:
                bad = l.strip()
    shutil.rmtree(os.path.join(d, 'meta'), ignore_errors=True)
    if bad or p.returncode != 0:
        raise ToolError('TLC run %s: %s (rc %d)\n%s' % (run['name'], bad, p.returncode, ''.join(tail)[-3000:]))
    return dict(states=dist, generated=gen, wall=time.time() - t0), out


def replay(path, aspects, timeout):
    p = subprocess.run([BIN, 'replay', path, ','.join(aspects)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    if p.returncode < 0:
        return dict(vectors=0, failures=1, known={}, other={}, status={},
                    first=[dict(vector=dict(crashfile=path), why='the code ended the process with signal %d' % -p.returncode)])
    if p.returncode == 3:
        return dict(vectors=0, failures=1, known={}, other={}, status={}, first=[dict(vector=json.loads(p.stderr), why='the code does not end')])
    if p.returncode:
        raise ToolError('harness: rc %d %s' % (p.returncode, p.stderr[-2000:]))
    return json.loads(p.stdout)


def samples(path, n):
    """a few of the vectors of a run, spread over it"""
    out, k = [], 0
    with open(path, errors='replace') as f:
        for l in f:
            if l.startswith('"@V@'):
                k += 1
                if k in (1, 7, 40, 200, 1000, 5000)[:n]:
                    try:
                        out.append(json.loads(json.loads(l)[3:]))
                    except ValueError:
                        pass
    return out


def check(prop, tier, seed, keep):
    t0 = time.time()
    limit = 860 if tier == 'quick' else 4 * 3600
    R.expand(prop, tier, seed)
    spec = R.PROPS[prop]
    build()
    base = os.environ.get('VERIF_WORK') or os.path.join(HERE, 'work')
    os.makedirs(base, exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + '-', dir=base)
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], runs=[], outcomes={})
    viol, known = [], {}
    try:
        todo = R.expand(prop, tier, seed)
        par, workers = (3, 3) if tier == 'quick' else (2, 4)

        def one(run):
            left = limit - (time.time() - t0)
            if 'trace' in run:
                return trace(run, work, workers, left)
            st, out = run_tlc(run, work, workers, left)
            rep = replay(out, spec['aspects'], limit - (time.time() - t0))
            smp = samples(out, 2)
            if not rep['failures'] or 'vector' in rep['first'][0] and 'crashfile' not in rep['first'][0]['vector']:
                os.unlink(out)
            return st, rep, smp

        def trace(run, work, workers, left):
            # (B) texts outside of the pools: record what the code does, let TLC judge it
            d = os.path.join(work, run['name'] + '-in')
            os.makedirs(d)
            src = os.path.join(d, 'in.ndjson')
            n = run['trace'](src, HERE)
            rec = os.path.join(d, 'trace.ndjson')
            with open(src) as i, open(rec, 'w') as o:
                p = subprocess.run([BIN, 'record', ','.join(spec['aspects'])], stdin=i, stdout=o, stderr=subprocess.PIPE, text=True, timeout=left)
            if p.returncode < 0:
                return (dict(states=0, generated=0, wall=0),
                        dict(vectors=n, failures=1, known={}, other={}, status={},
                             first=[dict(vector=dict(crashfile=src), why='the code ended the process with signal %d' % -p.returncode)]), [])
            if p.returncode == 3:
                return (dict(states=0, generated=0, wall=0),
                        dict(vectors=n, failures=1, known={}, other={}, status={}, first=[dict(vector=json.loads(p.stderr), why='the code does not end')]), [])
            if p.returncode:
                raise ToolError('record: ' + p.stderr[-2000:])
            run = dict(run, files={'trace.ndjson': rec})
            st, out = run_tlc(run, work, workers, left)
            rep = dict(vectors=n, failures=0, first=[], known={}, other={}, status={})
            want = set(spec['aspects']) | {'panic'}
            with open(out, errors='replace') as f:
                seen = 0
                for l in f:
                    if l.startswith('"@V@'):
                        x = json.loads(json.loads(l)[3:])
                        seen += 1
                        rep['status'][x['k'] + '/' + x['st']] = rep['status'].get(x['k'] + '/' + x['st'], 0) + 1
                        if x.get('known'):
                            rep['known'][x['k']] = rep['known'].get(x['k'], 0) + 1
                        b = [y for y in x['bad'] if not spec['aspects'] or y['a'] in want]
                        if b:
                            rep['failures'] += 1
                            if len(rep['first']) < 50:
                                v = {k: x[k] for k in x if k not in ('bad', 'known')}
                                rep['first'].append(dict(vector=v, why='; '.join('%s: %s, specified %s' % (y['a'], y['got'], y['want']) for y in b)))
                        for y in x['bad']:
                            if y not in b:
                                rep['other'][y['a']] = rep['other'].get(y['a'], 0) + 1
            if seen != n:
                raise ToolError('%s: %d of %d recorded traces were judged' % (run['name'], seen, n))
            smp = []
            with open(rec) as f:
                for i, l in enumerate(f):
                    if i in (0, 9):
                        smp.append(json.loads(l))
            return st, rep, smp

        with cf.ThreadPoolExecutor(par) as ex:
            futs = [(run, ex.submit(one, run)) for run in todo]
            for run, fu in futs:
                st, rep, smp = fu.result()
                cov['states'] += st['states']
                cov['transitions'] += st['generated']
                cov['traces_validated_against_impl'] += rep['vectors']
                cov['samples'] += smp[:2] if len(cov['samples']) < 12 else []
                cov['runs'].append(dict(run=run['name'], machine=run['module'], constants=run['consts'], states=st['states'], traces=rep['vectors'],
                                        wall_s=round(st['wall'], 1), problems_of_other_properties=rep['other']))
                for k, v in rep['status'].items():
                    cov['outcomes'][k] = cov['outcomes'].get(k, 0) + v
                for k, v in rep['known'].items():
                    known[k] = known.get(k, 0) + v
                if 'line' in spec['aspects'] or not spec['aspects']:
                    # deviations of a kind that is not listed (any more) are violations
                    for k, v in rep['known'].items():
                        if not any(x['kind'] == k and x['property'] == 'C03' for x in R.KNOWN):
                            rep['failures'] += v
                            rep['first'] = rep['first'] + [dict(vector=dict(k=k), why='line: too small by the number of lost line feeds')]
                if rep['failures']:
                    viol.append((run, rep))
                if rep['vectors'] == 0 and not rep['failures']:
                    raise ToolError('%s: no behaviours' % run['name'])
        total = sum(r['failures'] for _, r in viol)
        ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov, violations=total,
                  assumptions=R.ASSUMPTIONS, wall_s=round(time.time() - t0, 1))
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        # findings that are listed and not repaired
        if 'line' in spec['aspects']:
            for k in R.KNOWN:
                if known.get(k['kind']):
                    print('KNOWN-FINDING: property=%s %s (%d behaviours)' % (prop, k['what'], known[k['kind']]))
        print('%s %s: %d states, %d behaviours validated, %d violations, %.0f s' %
              (prop, tier, cov['states'], cov['traces_validated_against_impl'], total, time.time() - t0))
        if viol:
            rd = os.path.join(HERE, 'evidence', 'replay')
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, prop + '.ndjson')
            with open(rp, 'w') as f:
                for run, rep in viol:
                    for x in rep['first']:
                        if 'crashfile' in x['vector']:
                            cp = os.path.join(rd, prop + '-crash.txt')
                            shutil.copy(x['vector']['crashfile'], cp)
                            x['vector']['crashfile'] = cp
                        f.write(json.dumps(dict(x['vector'], run=run['name'], why=x['why']), ensure_ascii=False) + '\n')
            for run, rep in viol:
                for x in rep['first'][:3]:
                    print('  %s: %s\n     %s' % (run['name'], json.dumps({k: x['vector'][k] for k in ('k', 'v', 't', 'h', 'crashfile') if k in x['vector']}, ensure_ascii=False)[:400], x['why'][:600]))
            print('VIOLATION property=%s replay=%s' % (prop, rp))
            return 1
        return 0
    finally:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)
            if base == os.path.join(HERE, 'work') and not os.listdir(base):
                os.rmdir(base)


def main():
    a = argparse.ArgumentParser()
    a.add_argument('--property')
    a.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    a.add_argument('--keep', action='store_true')
    a.add_argument('--build', action='store_true')
    a.add_argument('--replay')
    o = a.parse_args()
    try:
        if o.build:
            build()
            return 0
        if o.replay:
            build()
            r = replay(o.replay, [], 600)
            print(json.dumps(r, indent=1, ensure_ascii=False))
            return 1 if r['failures'] else 0
        return check(o.property, o.tier, o.seed, o.keep)
    except (ToolError, subprocess.TimeoutExpired, OSError, KeyError, ValueError) as e:
        print('check error: %s: %s' % (type(e).__name__, e), file=sys.stderr)
        return 2


if __name__ == '__main__':
    sys.exit(main())
