"""writes /verif/MANIFEST.json; CLAIMED: properties whose spec module exists"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
REAL = ('symbolic execution of the LLVM IR of the real functions in every SIMD configuration; claims discharged by Z3 over exact reals (nonlinear arithmetic), counterexamples replayed on the compiled code', 'model_checking',
        'For all real inputs meeting the stated preconditions, in every configuration listed in the evidence; floats are read as exact reals, so rounding, overflow and NaN behaviour are outside (C24/C03/C05 look at those); trusts clang\'s front end, the IR semantics in engine/symex.py (validated against the gcc binary on each run) and Z3.')
BITS = ('symbolic execution of the LLVM IR of the real functions; bit-precise (IEEE floating-point / bit-vector) claims discharged by Z3, counterexamples replayed on the compiled code', 'model_checking',
        'For every bit pattern of every input within the enumerated control arguments; trusts clang\'s front end, the IR semantics in engine/symex.py (validated against the gcc binary on each run) and Z3.')
EQUIV = ('symbolic execution of both implementations from LLVM IR; equality of every output term discharged by Z3 for all inputs, counterexamples replayed on the compiled code', 'translation_validation',
         'Equality of both functions for all inputs within the enumerated control arguments and the stated loop bounds; trusts clang\'s front end, the IR semantics in engine/symex.py (validated against the gcc binary) and Z3.')
KIND = {}
for i in range(7, 31): KIND['C%02d' % i] = REAL
for i in ('C23', 'C24'): KIND[i] = BITS
for i in ('C01', 'C02', 'C03', 'C04', 'C30'): KIND[i] = EQUIV
for i in ('C05', 'C06'): KIND[i] = BITS
KIND['C31'] = (BITS[0], BITS[1], 'For every bit pattern of every element; formatted output is modelled as guarded events (format, stream, arguments), the C library itself is trusted; field widths are outside.')
KIND['C32'] = (BITS[0], BITS[1], 'For every bit pattern of every element; the values come from small shim functions compiled from /repo headers (one per field, macro and constant); trusts clang and Z3.')
KIND['C33'] = REAL
NA = {}
checks = []; na = []
for p in props:
    i = p['id']
    if i in NA: na.append(dict(property=i, reason=NA[i])); continue
    if not os.path.exists('%s/specs/%s.py' % (V, i.lower())):
        na.append(dict(property=i, reason='check not built yet')); continue
    t, l, n = KIND[i]
    checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
                       evidence_file='evidence/%s.json' % i, technique=t, level=l, level_note=n))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='check.py <id> [quick|thorough]; engine/ is the symbolic executor and prover, specs/ the per-property specifications.'),
          open(V + '/MANIFEST.json', 'w'), indent=1)
