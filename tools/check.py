#!/usr/bin/env python3
"""Decides one property:  check.py C01   (VERIF_TIER, VERIF_SEED in the environment)"""
import sys
sys.path.insert(0, __file__.rsplit('/', 1)[0])
sys.dont_write_bytecode = True
from vp import *
import families

def known():
    out = []
    fn = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(fn):
        out = [k for k in json.load(open(fn))['findings']]
    return out

class Report:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed, self.t0 = pid, tier, seed, time.time()
        self.viol, self.knownhit = [], {}
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.assume = []
        self.level = 'model_checking'
        self.replaydir = os.path.join(VERIF, 'evidence', 'replay')
    def replay(self, obj):
        os.makedirs(self.replaydir, exist_ok=True)
        fn = os.path.join(self.replaydir, '%s-%d.json' % (self.pid, len(self.viol)))
        json.dump(obj, open(fn, 'w'), indent=1)
        return fn
    def violation(self, obj):
        fn = self.replay(obj)
        self.viol.append(fn)
        if len(self.viol) <= 5:
            print('VIOLATION property=%s replay=%s' % (self.pid, fn))
            print('  ' + obj.get('what', '')[:400])
    def match_known(self, info):
        for k in known():
            if k['property'] != self.pid: continue
            if all(re.fullmatch(v, str(info.get(f, ''))) for f, v in k['match'].items()): return k
        return None
    def finish(self):
        for kid, n in self.knownhit.items(): print('KNOWN-FINDING: property=%s %s (%d occurrences)' % (self.pid, kid, n))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': self.cov,
              'assumptions': self.assume, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.viol)}
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w'), indent=1)
        print('%s %s: %d traces, %d states, %.1fs, %d violations' % (self.pid, self.tier, self.cov.get('traces_validated_against_impl', 0),
              self.cov.get('states', 0), time.time() - self.t0, len(self.viol)))
        return 1 if self.viol else 0

def describe(corpus, idx, step):
    key, p, hd, labels = corpus.order[idx]
    line = key[3].splitlines()[step] if step < len(key[3].splitlines()) else ''
    num = int(line.split(' ')[0]) if line else -1
    ins = p.ins[num]
    return {'program': p.text(), 'type': p.t, 'lanes': key[1], 'step': num, 'op': ins[0], 'outcome': line[:2000],
            'where': ['%s/%s' % l for l in labels], 'what': '%s<%d x %s> on %s: %s' % (ins[0], key[1], p.t, ','.join('%s/%s' % l for l in labels), line[:200])}

def compile_violation(rep, e):
    rep.violation({'what': 'the public operations this property is about no longer compile: ' + '; '.join(
        l for l in e.log.splitlines() if 'error' in l or 'undefined' in l)[:300], 'unit': e.what, 'log': e.log[-8000:]})

def conformance(rep, fam, work, progs, build, tag='q', header=None, module='Trace', env=None):
    """run programs on every configuration, validate with TLC, confirm mismatches by a second run"""
    assert len({(p.id, p.t) for p in progs}) == len(progs), 'program names repeat'
    pf = os.path.join(work, 'progs_%s.txt' % tag)
    open(pf, 'w').write('\n'.join(p.text() for p in progs) + '\n')
    corpus = Corpus()
    tm = time.time()
    corpus.add_logs(build.run(pf, tag), progs, header)
    trun = time.time() - tm
    tm = time.time()
    mm, st = validate(corpus, work, module=module, env=env)
    ttlc = time.time() - tm
    if os.environ.get('VP_VERBOSE'):
        print('   %s: %d progs, %d distinct traces, %d recorded events, run %.1fs tlc %.1fs' % (tag, len(progs), len(corpus), corpus.events, trun, ttlc))
    if mm:
        # only a rejection that a fresh execution repeats counts
        c2 = Corpus()
        c2.add_logs(build.run(pf, tag + 'r'), progs, header)
        again = set(c2.keys)
        mm = [x for x in mm if corpus.order[x[0]][0] in again]
    seen = set()
    for idx, step in mm:
        info = describe(corpus, idx, step)
        info['where_s'] = ' '.join(info['where'])
        k = rep.match_known(info)
        if k: rep.knownhit[k['what']] = rep.knownhit.get(k['what'], 0) + 1; continue
        sig = (info['op'], info['type'], info['where_s'])
        if sig in seen: continue
        seen.add(sig)
        rep.violation(info)
    for isa, rc, cur, so in corpus.timeouts:
        rep.violation({'what': 'driver for %s ended abnormally (rc %s) at %s %s' % (isa, rc, cur, so), 'program': next((p.text() for p in progs if cur and p.id == cur[0]), '')})
    rep.cov['states'] += st['distinct']
    rep.cov['transitions'] += st['generated']
    rep.cov['traces_validated_against_impl'] += len(corpus)
    rep.cov['recorded_events'] = rep.cov.get('recorded_events', 0) + corpus.events
    rep.cov['executions'] = rep.cov.get('executions', 0) + sum(len(o[3]) for o in corpus.order)
    if corpus.order and len(rep.cov['samples']) < 3:
        o = corpus.order[len(corpus.order) // 2]
        rep.cov['samples'].append({'program': o[1].id, 'type': o[1].t, 'lanes': o[0][1], 'configurations': ['%s/%s' % l for l in o[3]],
                                   'steps': [i[0] for i in o[1].ins][:12], 'first_outcomes': o[0][3].splitlines()[:4]})
    return corpus

def run_fam(rep, work, tier, seed):
    f = families.FAMS[rep.pid]
    r = random.Random('%s-%s' % (rep.pid, seed))
    build = Build(work, f.fams, f.types, tier=tier, opt='-O1' if tier == 'quick' else '-O2', **f.kw)
    n = f.quick if tier == 'quick' else f.thorough
    progs = []
    for t in f.types:
        for i in range(n):
            r.small = r.random() < .2
            p = f.gen(r, t, i); p.id = t + p.id
            progs.append(p)
    if rep.pid in families.DIRECTED:
        r.small = False
        for k in range(1 if tier == 'quick' else 10):
            for t in f.types:
                for g in families.DIRECTED[rep.pid]:
                    for p in g(r, t): p.id += '_%d' % k; progs.append(p)
    try:
        tb = time.time()
        build.build()
        if os.environ.get('VP_VERBOSE'): print('   build %.1fs' % (time.time() - tb))
    except CompileFailure as e:
        compile_violation(rep, e); return
    # keep a single TLC run at a moderate size
    chunk = 1200 if tier == "quick" else 500
    r.shuffle(progs)
    for c in range(0, len(progs), chunk):
        conformance(rep, f, work, progs[c:c + chunk], build, 'c%d' % c)
        if len(rep.viol) > 5: break
    if rep.pid in families.GEN and len(rep.viol) <= 5: behaviours(rep, f, work, tier, r, build)
    # every fill level of one register: tails are selected by tables indexed with the length
    n = f.sweep if tier == 'quick' else f.sweep_thorough
    if len(rep.viol) > 5: return
    if n: sweep(rep, f, work, tier, r, n)
    if tier == 'thorough' and rep.pid in families.EXH and len(rep.viol) <= 5: exhaustive(rep, f, work)
    if tier == 'thorough' and rep.pid in SELF: selfcheck(rep, work, *SELF[rep.pid])

# the arithmetic the machine is built on, checked against independent laws on small domains
SELF = {'C01': ('MC_Words', 'MC_Words.cfg'), 'C02': ('MC_Words', 'MC_Words.cfg'), 'C03': ('MC_Words', 'MC_Words.cfg'),
        'C13': ('MC_Floats', 'MC_Floats_quick.cfg'), 'C14': ('MC_Floats', 'MC_Floats_quick.cfg'), 'C16': ('MC_Floats', 'MC_Floats_quick.cfg')}
def selfcheck(rep, work, module, cfg):
    rc, out, st = tlc(module, cfg=cfg, work=work, timeout=3000)
    if 'No error has been found' not in out: raise Broken('%s: %s' % (module, out[-1500:]))
    rep.cov['states'] += st['distinct']; rep.cov['transitions'] += st['generated']
    rep.cov.setdefault('spec_selfchecks', []).append('%s: %d states' % (module, st['distinct']))

def sweep(rep, f, work, tier, r, n):
    ty = [t for t in (['u8', 'u16', 'f32', 'f64'] if tier == 'quick' and rep.pid != 'C10' else INT + FLT) if t in f.types]
    if tier == 'quick' and set(ty) <= {'u8', 'u16'}: ty += ['u32', 'u64']
    build = Build(work, f.fams, ty, tier=tier, opt='-O1', abi_fn=sweep_abis, **f.kw)
    progs = []
    for t in ty:
        for i in range(n):
            r.small = r.random() < .2
            p = f.gen(r, t, i); p.id = t + 's' + p.id
            progs.append(p)
    try: build.build()
    except CompileFailure as e:
        compile_violation(rep, e); return
    chunk = 200
    for c in range(0, len(progs), chunk):
        conformance(rep, f, work, progs[c:c + chunk], build, 's%d' % c)
        if len(rep.viol) > 5: break

def behaviours(rep, f, work, tier, r, build):
    """every transition of the specification run forward at a small scope, replayed into the library"""
    steps = []
    for mode, ops in families.GEN[rep.pid]:
        rc, out, st = tlc('VecGen', work=work, workers=1, consts={'Mode': '"%s"' % mode})
        if 'No error has been found' not in out: raise Broken('VecGen %s: %s' % (mode, out[-1500:]))
        rep.cov['states'] += st['distinct']; rep.cov['transitions'] += st['generated']
        for l in out.splitlines():
            if 'STEP' not in l: continue
            v = json.loads(json.loads(l.strip()).replace('<<', '[').replace('>>', ']'))
            z = dict(zip(('o', 'f', 'w', 'd', 'a', 'b', 'c', 'k', 'x', 'M', 'R'), v[1:]))
            if z['o'] in ops and families.gen_keep(rep.pid, z): steps.append(z)
    steps.sort(key=str)
    progs = []
    for ti, t in enumerate(f.types):
        mine = steps if tier != 'quick' or len(steps) < 500 else steps[(ti + rep.seed) % len(f.types)::len(f.types)]
        for c in range(0, len(mine), 24):
            p = Prog('%sB%d' % (t, c), t)
            families.start(p, r, t, 4, 4)
            for z in mine[c:c + 24]: families.gen_step(p, r, t, z)
            progs.append(p)
    for c in range(0, len(progs), 400):
        conformance(rep, f, work, progs[c:c + 400], build, 'b%d' % c)
        if len(rep.viol) > 5: break
    rep.cov['spec_transitions_replayed'] = len(steps)

def exhaustive(rep, f, work):
    """every pair of bytes through every operation of the family"""
    ty = ['u8', 'i8']
    sub = os.path.join(work, 'exh'); os.makedirs(sub)
    build = Build(sub, f.fams, ty, tier='quick', opt='-O1', abi_fn=families.exh_abis, **f.kw)
    try: build.build()
    except CompileFailure as e:
        compile_violation(rep, e); return
    progs = []
    for t in ty:
        for p in families.EXH[rep.pid](t): p.id = t + p.id; progs.append(p)
    for c in range(0, len(progs), 32):
        conformance(rep, f, sub, progs[c:c + 32], build, 'x%d' % c)
        if len(rep.viol) > 5: break
    rep.cov['exhaustive_byte_pairs'] = [p for p in ty]

CUSTOM = {}
def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    # the properties with AVX-512 kernels behind them (everything, in the thorough tier)
    if HAVE512 and 'VP_ISAS' not in os.environ and (tier == 'thorough' or pid in ('C02', 'C13', 'C17', 'C19', 'C20', 'C21', 'C22')): QUICK_ISA.append('avx512')
    # ... and with overloads that exist for SSSE3 alone
    if 'VP_ISAS' not in os.environ and tier == 'quick' and pid in ('C06', 'C10'): QUICK_ISA.append('ssse3')
    rep = Report(pid, tier, seed)
    work = tempfile.mkdtemp(prefix='vp-%s-' % pid)
    try:
        try:
            import custom
            fn = custom.CHECKS.get(pid)
        except ImportError: fn = None
        (fn or run_fam)(rep, work, tier, seed)
    except Broken as e:
        if not rep.viol:
            print('CHECK-ERROR property=%s %s' % (pid, e)); return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return rep.finish()
if __name__ == '__main__': sys.exit(main())
