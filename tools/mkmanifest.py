"""Write MANIFEST.json: one check per scenario module present in sim/props."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 'C01': 'Per-field linearizability of every explored history against an executable reference layout. Sampling, not proof; trusts the reference model, CPython and CasADi; native CasADi calls are taken as atomic.',
 'C02': 'As C01 with failed operations as optional writes per named field; failures are injected at sampled instants (line, call or bytecode) of the real code. Not injected inside casts called back by CasADi, which crashes when they raise.',
 'C03': 'Real files behind a simulated disk that errors, transfers partly, runs full or stops the process; oracle is the value in memory at save time. Sampled crash and error points; bit rot and lost directory entries are not modelled.',
 'C04': 'Reference value per object in the graph; serialising threads are interleaved by the simulator. Numeric values, declarations and views; sampled.',
 'C05': 'Layout reported by the library compared with the reference layout in worker processes of different hash seeds, after cancelled and among concurrent constructions. Sampled declarations.',
 'C06': 'All views of one matrix or structure judged as windows on one array with the same per-field linearizability search as C01. Sampled.',
 'C07': 'Values built from drawn data, with cancelled, failing and concurrent builds, compared element by element with the data. Sampled.',
 'C08': 'Each answer is judged by the residuals of the collocation equations evaluated by an independent numpy reference, bitwise repeatability and the returned trajectory; failing and cancelled calls in between. Numeric tolerance 1e-7 relative.',
 'C09': 'Each query is judged by an independent Lagrange evaluation of the node data; object state is compared before and after. Numeric tolerance.',
 'C10': 'Scheme expressions evaluated at random points against formulas written in numpy; model callbacks record and fail as planned. Numeric tolerance.',
 'C11': 'Calls received by the supplied function are logged and judged by count, order and time; values are matched against the built equations. Sampled failures and interleavings.',
 'C12': 'Every operation is run undisturbed and disturbed at a sampled instant, then repeated; the observables must agree. Not injected inside casts called back by CasADi.',
}
TECH = 'deterministic simulation: seeded schedules and fault injection against a reference model'
NA = {
 'C20': 'A tableau is a pure function of its nodes: no schedule, failure, crash or history enters, so there is nothing for a simulator to vary.',
 'C21': 'Interpolation and differentiation matrices are pure functions of the nodes; only inputs vary (what shared use of a basis can break is part of C09).',
 'C22': 'Validation of constructor arguments is a pure function of the arguments.',
 'C23': 'Derivative and integral are pure functions of the samples; only inputs vary.',
 'C24': 'The threads of native parallel maps live inside CasADi and cannot be scheduled or failed from here, and without them the question is a pure comparison of inputs.',
}

checks = []
for p in sorted(NOTE):
    f = os.path.join(ROOT, 'sim', 'props', p.lower() + '.py')
    if not os.path.exists(f):
        continue
    level = 'fault_enumeration' if "LEVEL = 'fault_enumeration'" in open(f).read() else 'exploration'
    checks.append({'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'python3 check.py ' + p,
                   'evidence_file': 'evidence/%s.json' % p, 'technique': TECH, 'level': level, 'level_note': NOTE[p]})
have = [c['property'] for c in checks]
na = [{'property': k, 'reason': v} for k, v in sorted(NA.items())]
na += [{'property': p, 'reason': 'The scenario for this property is not built yet.'} for p in sorted(NOTE) if p not in have]
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
               'notes': 'No hooks in /repo: points in the code are taken with sys.monitoring from outside. '
                        'python3 check.py <ID> --replay <file> repeats a violation.'}, f, indent=1)
    f.write('\n')
print(have)
