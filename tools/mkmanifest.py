"""Writes MANIFEST.json from properties.jsonl."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KIND = {
 'once': "one evaluation per recorded history",
 'session': "sessions of compile / evaluate / look / scribble events, many evaluations in flight",
 'cli': "runs of the jpath binary",
}
NOTE = {p: KIND['once'] for p in ['C%02d' % i for i in range(1, 29)]}
for p in ('C06', 'C07', 'C08', 'C27'): NOTE[p] = KIND['session']
for p in ('C24', 'C25'): NOTE[p] = KIND['cli']
NOTE['C28'] = 'one parse tree, or one evaluation of a path put together from parts, per recorded history'
NOTE['C26'] = 'arbitrary texts and documents; only the kind of ending is judged'
checks = []
for l in open(HERE + '/properties.jsonl'):
    p = json.loads(l)['id']
    checks.append(dict(property=p, quick_cmd='python3 tools/check.py %s' % p, thorough_cmd='python3 tools/check.py %s --tier thorough' % p,
        technique='TLA+ specification; TLC conformance checking of histories recorded from the real code (and model checking of the specification)',
        level='model_checking',
        level_note='TLC decides for every recorded history of the real code (%s; generated from a seed, tens of thousands per run, shaped for this property) '
                   'whether the specification spec/Trace.tla allows it; the histories are a sample of the inputs, each is decided exactly. '
                   'Trusted: TLC, the Go toolchain and encoding/json, the driver that records.' % NOTE[p]))
json.dump(dict(version=1, setup_cmd='tools/setup.sh', checks=checks, not_applicable=[],
               hooks=dict(guard='none', enable='no hooks: the checks use the public API and the jpath binary, with a driver added by go build -overlay', source_commits=[]),
               notes='Language: TLA+ (TLC). See DESIGN.md. Known findings and fixes: KNOWN-FINDINGS.'),
          open(HERE + '/MANIFEST.json', 'w'), indent=1)
