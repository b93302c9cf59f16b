#!/usr/bin/env python3
"""Writes MANIFEST.json and the fixed list of known_findings.json."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'TLA+ state machine (VecMachine) + TLC trace validation of recorded executions of the real library'
T2 = 'TLA+ specification of elementary functions (MathFns, MathTrace) + TLC trace validation of recorded evaluations'
CLAIMED = {
 'C01': (T, 'Integer arithmetic programs on every element type x ABI x instruction set; every recorded result checked by TLC against Words.tla; seeded boundary-biased values.'),
 'C02': (T, 'Bitwise/shift programs as C01; every in-range count reachable.'),
 'C03': (T, 'Comparison programs with near-equal operands, NaN/inf/zeros; masks reused by later steps.'),
 'C04': (T, 'Mask algebra histories on every mask type.'),
 'C05': (T, 'Mask reductions after varied mask producing histories with junk-filled storage.'),
 'C06': (T, 'min/max/minmax/clamp programs.'),
 'C07': (T, 'Load/store programs: every element type, conversion type, alignment flag and offset over a byte memory; the whole memory is part of the state.'),
 'C08': (T, 'Masked load/store programs; bytes of unselected lanes must not change, and guard pages catch accesses outside.'),
 'C09': (T, 'Blend programs over vectors and masks.'),
 'C10': (T, 'Horizontal reductions with lanes for which every association is exact.'),
 'C11': (T, 'Shuffles with generated index lists over vectors and masks.'),
 'C12': (T, 'Element access, references, generators, native views.'),
 'C13': (T, 'Conversions between all element types and ABIs, checked against exact dyadic semantics.'),
 'C14': (T, 'IEEE arithmetic, sqrt and fused operations against exact dyadic results; correct rounding as a relation.'),
 'C15': (T, 'Exponent manipulation incl. subnormals, extremes and exponent counts beyond every range.'),
 'C16': (T, 'Binary FP functions with special and near-equal operands; exact fmod/remainder.'),
 'C17': (T, 'Rounding functions in every rounding mode against exact values.'),
 'C18': (T, 'Classification and quiet comparisons.'),
 'C19': (T2, 'Special arguments of every elementary function in every lane position, mixed with ordinary ones; tables of required results in MathFns.tla.'),
 'C21': (T, 'Programs interleaving every family of operations; each of the 30+ ABI x instruction-set backends must produce a behaviour of the one specification, so all of them agree wherever it is deterministic.'),
 'C22': ('TLA+ model of ABI selection (AbiModel.tla): laws checked by TLC, every compile-time answer of the code validated as a trace', 'About 1100 trait queries per element type and instruction set; sizes 1..32, all alignments, generated combinations of hints.'),
 'C20': (T2, 'Accuracy relation of MathFns.tla against enclosures of the true values (computed with mpmath) and history-based determinism / lane independence.'),
}
CLAIMED['C23'] = (T, 'Programs compiled as constant expressions (static_assert-free: the lanes computed during compilation are recorded) and validated as behaviours of the same state machine the run-time executions are validated against.')
CLAIMED['C24'] = ('TLA+ model of the floating-point environment (FpEnv.tla inside VecMachine/MathTrace) + TLC trace validation of recorded executions', 'Histories that switch rounding modes and raise flags between pieces of every floating-point family; the control bits and sticky flags after every step and correctly rounded results in the mode in force are part of the state.')
CLAIMED['C26'] = (T, 'The library rebuilt with its options off (and extensions not inline): traces carry the option set, which tells the specification exactly what is left open; NaN, domain, pole and range arguments mixed with ordinary lanes.')
CLAIMED['C25'] = ('TLA+ model of processor identification (CpuModel.tla), processors generated by TLC and put under the real code, recorded questions and reports validated by TLC (CpuTrace.tla)', 'The cpuid and xgetbv instructions of the compiled detection code are calls into a virtual processor described by the model; every single feature bit, OS state, leaf count and junk pattern.')
CLAIMED['C27'] = (T, 'Programs calling every promoting overload with every pair of operand types; results judged against the function of the promoted values.')
exec(open(os.path.join(V, 'tools', 'claims.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'claims.py')) else None
NA = {}
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
PY = lambda p: 'python3-vt' if p in ('C19', 'C20', 'C24', 'C26', 'C27') else 'python3'
m = {'version': 1, 'setup_cmd': 'python3 tools/setup_check.py',
     'checks': [{'property': p, 'quick_cmd': 'VERIF_TIER=quick %s tools/check.py %s' % (PY(p), p), 'thorough_cmd': 'VERIF_TIER=thorough %s tools/check.py %s' % (PY(p), p),
                 'technique': CLAIMED[p][0], 'level': CLAIMED[p][2] if len(CLAIMED[p]) > 2 else 'model_checking', 'level_note': CLAIMED[p][1]} for p in props if p in CLAIMED],
     'not_applicable': [{'property': p, 'reason': NA.get(p, 'check not built yet')} for p in props if p not in CLAIMED],
     'notes': 'See DESIGN.md. No hooks: the drivers are built from /repo headers and sources as they are.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
kf = os.path.join(V, 'known_findings.json')
k = json.load(open(kf)) if os.path.exists(kf) else {'findings': [], 'fixed': []}
MAP = json.load(open(os.path.join(V, 'tools', 'fixmap.json'))) if os.path.exists(os.path.join(V, 'tools', 'fixmap.json')) else {}
k['fixed'] = []
for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s']).decode().splitlines():
    h, s = l.split(' ', 1)
    if s.startswith('fix:'):
        s = s[5:]
        k['fixed'].append('fixed: property=%s %s %s' % (MAP.get(s, 'C12'), h, s))
        if s not in MAP: print('unmapped fix:', s)
json.dump(k, open(kf, 'w'), indent=1)
