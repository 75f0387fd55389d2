"""skips.py PROP [N [skip|bad [SEED [DOCLEN]]]]: shows unspecified or disallowed events of a driver run
(uses /tmp/vb, made by tools/build.sh /tmp/vb)."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
arg = sys.argv[1:] + [None] * 5
prop, n, kind, seed, dl = arg[0], arg[1] or '500', arg[2] or 'skip', arg[3] or '1', int(arg[4] or 0)
out = '/tmp/vo-' + prop
subprocess.run(['/tmp/vb/driver', '-prop', prop, '-n', n, '-seed', seed, '-shards', os.environ.get('SHARDS', '1'), '-out', out, '-jpath', '/tmp/vb/jpath'], check=True)
v = check.validate(out)
evs = [json.loads(x) for x in open(out + '/ev.ndjson')]
docs = [json.loads(x) for x in open(out + '/docs.ndjson')]
print(prop, len(evs), {k: len(v[k]) for k in ('bad', 'skip')})
for l in v[kind][:int(os.environ.get('MAX', '15'))]:
    r = check.readable(evs[l - 1], docs)
    print(check.short(r.get('p', r), 200), '|', check.short(r.get('out', ''), 160), '|', check.short(r.get('document', ''), dl) if dl else '')
