#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N]

Decides one property: builds the driver from /repo's current tree, runs it (the real code) in shards, and has TLC
check each shard's recorded history against spec/Trace.tla; beside that TLC checks the models that belong to the
property (MODELS below).  Exit 0: everything explored was allowed by the specification; exit 1 with a VIOLATION line:
the real code did something that it does not allow; exit 3: the check itself failed.
"""
import argparse, json, os, re, resource, shutil, struct, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import plan
JAVA = ['java', '-Xss%s', '-Xmx%s', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1', '-cp',
        '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar', 'tlc2.TLC']
CORES = 8

class Broken(Exception):
    pass

def log(*a):
    print(*a, file=sys.stderr, flush=True)

# ------------------------------------------------------------------ the real code
def drive(cfg, i, outdir, limit, *more):
    os.makedirs(outdir, exist_ok=True)
    env = dict(os.environ, GORACE='halt_on_error=1 exitcode=66', GOTRACEBACK='single')
    cmd = [cfg['driver'], '-prop', cfg['prop'], '-seed', str(cfg['seed']), '-tier', cfg['tier'],
           '-shard', str(i), '-shards', str(cfg['shards']), '-out', outdir, '-n', str(cfg['n']),
           '-limit', str(limit), '-jpath', cfg['jpath'], *cfg['sessions'], *more]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=cfg['shard_time'], cwd=outdir)
    except subprocess.TimeoutExpired:
        raise Broken('driver shard %d took more than %d s' % (i, cfg['shard_time']))
    err = p.stderr.decode('utf8', 'replace')
    if p.returncode == 0:
        return int(re.search(rb'cases (\d+)', p.stdout).group(1)), None, 0, err
    if p.returncode == 3:
        raise Broken('driver: ' + err[-2000:])
    try:
        n = struct.unpack('<q', open(outdir + '/progress', 'rb').read(8))[0]
    except Exception:
        raise Broken('driver ended with %d before any case: %s' % (p.returncode, err[-2000:]))
    return 0, {97: 'hang', 66: 'race', 98: 'memory'}.get(p.returncode, 'crash'), n, err

def run_shard(cfg, i, outdir, only=0):
    """Runs the driver for one shard. If a case ends it, that case alone is the shard's history, with how it ended.
    Returns the number of cases."""
    more = ['-only', str(only)] if only else []
    for attempt in range(3):
        cases, what, n, err = drive(cfg, i, outdir, cfg['limit'], *more)
        if not what:
            return cases
        log('shard %d: case %d ended the driver: %s %s' % (i, n, what, err[:1500]))
        if what in ('hang', 'memory') and not err.startswith('idle') and attempt < 2:
            # not idle, so perhaps only slow: once more, alone, with more time
            d2 = outdir + '-alone'
            _, again, _, _ = drive(cfg, i, d2, cfg['limit'] * 2, '-only', str(n))
            shutil.rmtree(d2, ignore_errors=True)
            if not again:
                continue
        open('%s/died-%d.txt' % (outdir, n), 'w').write(err[:20000])
        drive(cfg, i, outdir, cfg['limit'], '-only', str(n), '-skip', '%d=%s' % (n, what))
        return 1

# ------------------------------------------------------------------ TLC
def tlc(module, cfgfile, work, env=None, heap='2g', stack='128m', args=(), timeout=800, workers=1):
    java = [a % (stack if 'Xss' in a else heap) if '%s' in a else a for a in JAVA]
    os.makedirs(work, exist_ok=True)
    java.insert(1, '-Djava.io.tmpdir=' + work)      # where TLC unpacks its own modules
    cmd = java + ['-workers', str(workers), '-metadir', work, '-noGenerateSpecTE', '-config', cfgfile, *args, module]
    try:
        p = subprocess.run(cmd, cwd=HERE + '/spec', env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken('TLC on %s took more than %d s' % (module, timeout))
    out = p.stdout.decode('utf8', 'replace')
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return dict(rc=p.returncode, out=out, generated=gen, distinct=dist)

def validate(shard_dir):
    """TLC on one recorded history: the lines that are not allowed, and those left unspecified."""
    evf = shard_dir + '/ev.ndjson'
    if os.path.getsize(evf) == 0:
        return dict(bad=[], skip=[], generated=0, distinct=0)
    if os.path.getsize(shard_dir + '/docs.ndjson') == 0:
        open(shard_dir + '/docs.ndjson', 'w').write('{"t":"z"}\n')
    r = tlc('Trace.tla', 'Trace.cfg', shard_dir + '/states', env={'TRACE': evf, 'DOCS': shard_dir + '/docs.ndjson'},
            heap='3g', stack='1g', timeout=850)
    bad = [int(x) for x in re.findall(r'<<"bad", (\d+)>>', r['out'])]
    skip = [int(x) for x in re.findall(r'<<"skip", (\d+)>>', r['out'])]
    if r['rc'] != 0 or 'Model checking completed. No error has been found.' not in r['out']:
        raise Broken('TLC on the history in %s: %s' % (shard_dir, r['out'][-3000:]))
    shutil.rmtree(shard_dir + '/states', ignore_errors=True)
    return dict(bad=bad, skip=skip, generated=r['generated'], distinct=r['distinct'])

def sessions(work, depth):
    """TLC generates every session of that many operations; returns the driver's arguments and a record of it."""
    t0 = time.time()
    cfg = work + '/SessionGen.cfg'
    s = open(HERE + '/spec/SessionGen.cfg').read()
    open(cfg, 'w').write(re.sub(r'Depth = \d+', 'Depth = %d' % depth, s))
    r = tlc('SessionGen.tla', cfg, work + '/gen')
    lines = [' '.join(re.findall(r'"(\w+)"', x)) for x in r['out'].splitlines() if x.startswith('<<"')]
    if 'No error has been found' not in r['out'] or not lines:
        raise Broken('SessionGen: ' + r['out'][-3000:])
    open(work + '/sessions.txt', 'w').write('\n'.join(sorted(lines)) + '\n')
    return ['-sessions', work + '/sessions.txt'], dict(name='SessionGen', module='SessionGen.tla', cfg='Depth = %d' % depth, generated=r['generated'],
                distinct=r['distinct'], sessions=len(lines), wall_s=round(time.time() - t0, 1), expect='no error')

# ------------------------------------------------------------------ reading events
def btext(b):
    return bytes(b).decode('utf8', 'surrogateescape').encode('utf8', 'backslashreplace').decode('utf8')
def plain(v):
    t = v.get('t')
    if t == 'T': return 'a deep value of %d nodes' % len(v['n'])
    if t == 'z': return None
    if t == 'b': return v['b']
    if t == 's': return btext(v['s'])
    if t == 'a': return [plain(x) for x in v['a']]
    if t == 'o': return {btext(k): plain(x) for k, x in zip(v['k'], v['v'])}
    if t == 'n':
        m = sum(l << (12 * i) for i, l in enumerate(v['m']))
        if v['k'] in ('nan', 'inf'): return ('-' if v['g'] else '') + v['k']
        x = m * 2 ** v['e'] if v['e'] >= 0 else m / 2 ** -v['e'] if m < 2 ** 60 and v['e'] > -1000 else 'm*2^e'
        return -x if v['g'] and x != 'm*2^e' else x
    return v
def readable(ev, docs):
    r = {}
    for k, v in ev.items():
        if k in ('p', 'stdout') and isinstance(v, list): r[k] = btext(v)
        elif k == 'out': r[k] = dict(v, vs=[plain(x) for x in v.get('vs', [])])
        elif k == 'vs': r[k] = [plain(x) for x in v]
        else: r[k] = v
    key = 'd' if ev['ev'] == 'once' else 'v'
    if ev['ev'] in ('once', 'doc', 'look') and key in ev:
        r['document'] = plain(docs[ev[key] - 1])
    return r
def short(x, n=400):
    t = x if isinstance(x, str) else json.dumps(x, ensure_ascii=True, default=str)
    return t if len(t) <= n else t[:n] + '...'

# ------------------------------------------------------------------
def build(work, flags):
    cmd = [HERE + '/tools/build.sh', work + '/bin', *flags]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
    if p.returncode != 0:
        raise Broken('build failed: ' + p.stdout.decode('utf8', 'replace')[-3000:])

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--n', type=int, default=0)
    a = ap.parse_args()
    t0 = time.time()
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    pl = plan.PLAN[a.prop]
    tier = pl[a.tier]
    work = tempfile.mkdtemp(prefix='verif-%s-' % a.prop)
    rc = 3
    try:
        rc = check(a, pl, tier, work, t0)
    except Broken as e:
        log('CHECK ERROR:', e)
    finally:
        if a.keep:
            log('kept', work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def check(a, pl, tier, work, t0):
    build(work, pl.get('build', []))
    shards = tier.get('shards', CORES)
    cfg = dict(prop=a.prop, seed=a.seed, tier=a.tier, shards=shards, n=a.n or tier['n'], driver=work + '/bin/driver',
               jpath=work + '/bin/jpath', limit=tier.get('limit', 20), shard_time=tier.get('shard_time', 600), sessions=[])
    results, models, gens = [None] * shards, [], []
    if tier.get('sessions'):
        cfg['sessions'], g = sessions(work, tier['sessions'])
        gens.append(g)
    stop = threading.Event()
    def one(i):
        if stop.is_set():
            return None
        d = '%s/%d' % (work, i)
        n = run_shard(cfg, i, d)
        t1 = time.time()
        v = validate(d)
        v['cases'] = n
        v['events'] = sum(1 for _ in open(d + '/ev.ndjson'))
        v['tlc_s'] = time.time() - t1
        if a.tier == 'thorough' and not v['bad']:
            if i > 0:
                shutil.rmtree(d)
        if v['bad']:
            stop.set()
        return v
    def model(m):
        t1 = time.time()
        wd = '%s/model-%s' % (work, m['name'])
        os.makedirs(wd)
        r = tlc(m['module'], m['cfg'], wd, heap=m.get('heap', '3g'), args=m.get('args', ()), timeout=m.get('timeout', 800), workers=m.get('workers', 1),
                env={k: str(v) for k, v in m.get('env', {}).items()})
        ok = 'No error has been found' in r['out'] if not m.get('expect') else m['expect'] in r['out']
        if not ok:
            raise Broken('model %s: %s' % (m['name'], r['out'][-3000:]))
        return dict(name=m['name'], module=m['module'], cfg=m['cfg'], generated=r['generated'], distinct=r['distinct'], wall_s=round(time.time() - t1, 1), expect=m.get('expect', 'no error'))
    with ThreadPoolExecutor(CORES) as ex:
        mf = [ex.submit(model, m) for m in tier.get('models', [])]
        rf = [ex.submit(one, i) for i in range(shards)]
        results = [f.result() for f in rf]
        models = gens + [f.result() for f in mf]
    # verdict
    bads, samples, kinds = [], [], {}
    for i, v in enumerate(results):
        if v is None: continue
        d = '%s/%d' % (work, i)
        if not v['bad'] and i > 0: continue
        evs = [json.loads(x) for x in open(d + '/ev.ndjson')]
        docs = [json.loads(x) for x in open(d + '/docs.ndjson')]
        for l in v['bad']:
            j = l - 1
            while not evs[j]['s']: j -= 1
            bads.append(dict(shard=i, line=l, case=evs[l - 1].get('case'), event=readable(evs[l - 1], docs), session=[readable(e, docs) for e in evs[j:l]][-60:], dir=d))
        if i == 0:
            step = max(1, len(evs) // 6)
            samples = [short(readable(e, docs), 700) for e in evs[::step]][:8]
    done = [v for v in results if v]
    states = sum(v['distinct'] for v in done) + sum(m['distinct'] for m in models)
    trans = sum(v['generated'] for v in done) + sum(m['generated'] for m in models)
    events = sum(v['events'] for v in done)
    ev = dict(property=a.prop, tier=a.tier, seed=a.seed, level='model_checking',
              coverage=dict(states=states, transitions=trans, traces_validated_against_impl=sum(v['cases'] for v in done),
                            events_validated=events, events_unspecified=sum(len(v['skip']) for v in done), models=models, samples=samples or ['none']),
              assumptions=plan.ASSUMPTIONS, wall_s=round(time.time() - t0, 1), violations=len(bads))
    os.makedirs(HERE + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (HERE, a.prop), 'w'), indent=1, default=str)
    log('%s %s seed %d: %d cases, %d events, %d unspecified, %d bad, %d states; models %s; tlc %s; %.1f s' % (
        a.prop, a.tier, a.seed, ev['coverage']['traces_validated_against_impl'], events, ev['coverage']['events_unspecified'], len(bads), states,
        [(m['name'], m['distinct'], m['wall_s']) for m in models], ['%.0f' % v['tlc_s'] for v in done][:8], time.time() - t0))
    if not bads:
        if events == 0:
            raise Broken('nothing was explored')
        print('OK property=%s %d cases' % (a.prop, ev['coverage']['traces_validated_against_impl']))
        return 0
    os.makedirs(HERE + '/replay', exist_ok=True)
    first = min(bads, key=lambda b: len(json.dumps(b['event'], default=str)))
    again = None
    try:
        d = work + '/again'
        run_shard(cfg, first['shard'], d, only=first['case'])
        again = len(validate(d)['bad']) > 0
    except Broken as e:
        again = str(e)
    path = '%s/replay/%s-%d.json' % (HERE, a.prop, a.seed)
    json.dump(dict(property=a.prop, tier=a.tier, seed=a.seed, n=cfg['n'], shards=shards, reproduced_alone=again,
                   rerun=('sessions.txt: the sessions TLC prints for SessionGen.tla with %s, sorted, as words; ' % gens[0]['cfg'] + 'add -sessions sessions.txt to: ' if gens else '') + 'tools/build.sh DIR; DIR/driver -prop %s -seed %d -tier %s -shard %d -shards %d -n %d -only %s -out DIR/o -jpath DIR/jpath -show' % (
                       a.prop, a.seed, a.tier, first['shard'], shards, cfg['n'], first['case']),
                   violation=first, others=[short(b['event']) for b in bads[:30]], died=[open(os.path.join(dp, f)).read()[:4000] for dp, _, fs in os.walk(work) for f in fs if f.startswith('died-')][:3]),
              open(path, 'w'), indent=1, default=str)
    print('not allowed by the specification: ' + short(first['event'], 1500))
    print('VIOLATION property=%s replay=%s' % (a.prop, path))
    return 1

if __name__ == '__main__':
    main()
