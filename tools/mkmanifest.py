#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from properties.jsonl and the notes below.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {'C26': 'no CUDA or HIP toolchain or device is installed; the device branches cannot be compiled to the representation the verifier reads, so no contract on them can be generated or discharged here'}
COMMON = ('Every obligation generated from the LLVM IR of the current headers is discharged for all run-time inputs of each contract (exact rational-polynomial '
          'reasoning with proved rounding bounds, z3 for bit-vector obligations); template parameters are enumerated, not quantified. ')
N = {
 'C01': 'Shapes of rank 1-6 and index types are enumerated; indices and contents are universally quantified.',
 'C02': 'Indices range over their whole type; shapes and index types enumerated.',
 'C03': 'Shapes enumerated, with bounds checking on and off.',
 'C04': 'Shapes, element types and initialiser counts enumerated.',
 'C05': 'Range lists enumerated; includes injectivity and surjectivity as lemmas over the contract.',
 'C06': 'Range lists and start tuples enumerated by the engine itself (start indices are run-time inputs case-split over their finite domain).',
 'C07': 'Loop lengths and nests enumerated; argument values quantified.',
 'C08': 'Node identity with the exact roots certified by interval evaluation of the defining polynomials in rational arithmetic.',
 'C09': 'Exactness for all polynomials follows from the moment contracts by linearity.',
 'C10': 'Coordinates quantified over boxes; orders and spacings enumerated.',
 'C11': 'Coordinates quantified over boxes; orders and spacings enumerated.',
 'C12': 'Shapes enumerated; one-dimensional contracts are used at call sites and discharged in the same run.',
 'C13': 'Shapes enumerated; coordinates and nodal values quantified over boxes.',
 'C14': 'Shapes and quadrature points enumerated; vertices and coordinates quantified over boxes.',
 'C15': 'Determinants bounded away from zero; the Jacobian contract is used at the call site and discharged in the same run.',
 'C16': 'Lengths quantified within listed binades.',
 'C17': 'Determinants bounded away from zero; adjugate identity proved for all reals.',
 'C18': 'Constants: dimensions enumerated.',
 'C19': 'Bases quantified; exponents and N, K enumerated.',
 'C20': 'Condition value, line and arguments quantified; stdio is trusted (rendered text compared natively).',
 'C21': 'C++17, 20 and 23 with clang 18 IR (g++ 13 natively).',
 'C22': 'Undefined-behaviour and frame obligations of the instantiation families of all other checks, bounds checking on and off.',
 'C23': 'Functor forms and data types enumerated, captured values quantified; serial host wrappers only.',
 'C24': 'Shapes enumerated; list entries quantified.',
 'C25': 'Coefficients, affine maps and coordinates quantified over boxes.',
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for d in props:
    i = d['id']
    if i in NA:
        continue
    checks.append(dict(property=i, quick_cmd='./check.sh %s --tier quick' % i, thorough_cmd='./check.sh %s --tier thorough' % i,
        technique='contract-based deductive verification of the LLVM IR of the real headers (symbolic VC generation, rational-polynomial and SMT discharge)',
        level='proof', level_note=COMMON + N[i] + ' Trusts clang\'s IR generation, the VC generator in shivav/, z3 and IEEE-754 arithmetic; see DESIGN.md.'))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
    notes='No hooks in /repo: the contracts live in wrappers generated by shivav/fam/*.py that instantiate the unmodified headers of /repo on every run.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
