"""What each check does: cases per shard and the models TLC checks beside the recorded histories."""
ASSUMPTIONS = ["encoding/json decodes and encodes documents as documented", "Go's regexp and strconv are those of the installed toolchain", "TLC 1.8.0 and the CommunityModules are correct"]
def M(name, module, cfg=None, **kw):
    return dict(name=name, module=module + '.tla', cfg=(cfg or name) + '.cfg', **kw)
JPATH = [M('JpathRun', 'JpathRun'), M('JpathRunOld', 'JpathRun', expect='Invariant EndsAsAllowed is violated')]
def laws(part):
    return M('L' + part, 'Laws', workers=2)
def machine(cfg, expect=None):
    return M(cfg, 'Machine', workers=2, expect=expect)
def heap(cfg, expect=None):
    return M(cfg, 'Heap', workers=2, expect=expect)
# What TLC checks beside the histories: the machine and the command with every interleaving, the variants that must be
# found wrong (so that a model which cannot see the mistake is noticed), and the laws of the definitions that decide.
MEANING, STUCK, COUNTER = 'Invariant Meaning is violated', 'Invariant NoProducers is violated', 'Invariant Counter is violated'
SEEN = 'Invariant Wanted is violated'
MODELS = {'C24': JPATH + [laws('json')], 'C25': JPATH + [laws('json')],
          'C01': [laws('slice')], 'C02': [laws('slice')], 'C23': [laws('slice')],
          'C03': [machine('M1none'), machine('M1phantom', MEANING)], 'C04': [machine('M1none'), machine('M1phantom', MEANING)],
          'C05': [machine('M1none'), machine('M1keepout', MEANING)], 'C06': [machine('M2none'), heap('M3none')] + [heap(v, SEEN) for v in ('M3wild', 'M3slice', 'M3scratch', 'M3slab')],
          'C07': [machine('M2none'), machine('M2shared', MEANING)], 'C08': [machine('M1none'), machine('M1nodrain', STUCK), machine('M2none')],
          'C09': [laws('syntax')], 'C10': [laws('syntax')], 'C11': [laws('json')], 'C12': [laws('arith')], 'C13': [laws('compare')],
          'C14': [laws('compare')], 'C15': [laws('logic')], 'C16': [laws('arith')], 'C18': [laws('arith')], 'C19': [laws('regex')],
          'C20': [laws('regex')], 'C22': [laws('compare')], 'C26': [laws('syntax')], 'C27': [machine('M1none'), machine('M1endpc', COUNTER)], 'C28': [laws('syntax')]}
# sessions generated by TLC from SessionGen.tla, of how many operations: quick, thorough
SESSIONS = {'C06': (6, 7), 'C07': (5, 6), 'C08': (5, 6), 'C27': (5, 6)}
def P(p, n, big=None, **kw):
    q, t = SESSIONS.get(p, (0, 0))
    return dict(quick=dict(n=n, models=MODELS.get(p, []), sessions=q),
                thorough=dict(n=big or n * 3, shards=32, shard_time=1500, models=MODELS.get(p, []), sessions=t), **kw)
# (cases per shard; what is enumerated comes first and counts among them)
N = dict(C01=28000, C02=16000, C03=30000, C04=28000, C05=26000, C06=6000, C07=800, C08=3300, C09=32000, C10=10000, C11=12000,
         C12=10000, C13=8000, C14=12000, C15=9000, C16=15000, C17=12000, C18=13000, C19=10000, C20=8000, C21=8000, C22=18000,
         C23=32000, C24=1000, C25=1000, C26=60000, C27=1800, C28=30000)
# how the driver is built; what C28 needs of the packages below, no other check depends on
BUILD = dict(C07=['-race'], C28=['-race', '-tags', 'parts'])
PLAN = {p: P(p, n, build=BUILD.get(p, [])) for p, n in N.items()}
