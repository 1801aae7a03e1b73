"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = dict(
C01='property-based testing against elementwise reference definitions and round trips',
C02='property-based testing of optimality conditions (feasibility, KKT, competitors) over generated systems',
C03='property-based testing against an explicit sum of rank-one terms',
C04='property-based testing over operation histories, invariant: the described array and the reference transformation',
C05='property-based testing against explicit slice formulas and padding',
C06='property-based testing, store/load round trips and model-based histories of operations on one file',
C07='property-based testing of every iteration against a reference ALS sweep, loss monotonicity',
C08='property-based testing of every iteration: feasibility, KKT optimality, loss monotonicity, reference sweep',
C09='property-based testing of every iteration: structure, constraints, loss monotonicity, reference step',
C10='property-based testing of every iteration against a reference coupled ALS step, loss monotonicity',
C11='property-based testing, differential against sums over data and decomposition at every iteration',
C12='property-based testing of histories with injected faults, differential against an uninterrupted run',
C13='model-based testing of interleavings of logging, storing, crashes and resumed runs',
C14='property-based testing of fit histories, differential against one uninterrupted fit; stop rule as reference model',
C15='property-based testing of starts against their definitions, and of generated unusable starts',
C16='property-based testing against brute-force matching, and metamorphic relations (gauge, permutation)',
C17='property-based testing against a least-squares Tucker core, and metamorphic relations',
C18='property-based testing against definitions and metamorphic relations',
C19='property-based testing against pseudo-inverse loadings, and invariance of the described tensor',
C20='model-based (stateful) testing of operation histories on log files',
C21='property-based testing: exact comparison of arguments before and after every call',
C22='property-based testing of structural invariants of generated data',
C23='metamorphic property-based testing of whole fits',
)
NOTE = ('Random search, not exhaustive: what the generators described in DESIGN.md reach within the case counts of the tier. Trusts numpy/scipy/h5py, the reference '
        'implementations in tkv/ref.py and the tolerances stated in the check.')
EXTRA = dict(
C02='Orthogonal solvers are judged only where the singular values decide the answer; non-negative solver for full row rank.',
C08='Orthonormal modes are judged only where the data determine them.',
C09='Widths and first mode at least the rank; projections judged only where the data determine them.',
C10='Matrices coupled to distinct modes.',
C12='Faults are exceptions raised from a logger, i.e. between iterations; torn writes inside HDF5 are not injected. Coupled models cannot be resumed and are only checked for what is stored.',
C14='Where the stop rule is within rounding errors of its threshold either outcome is accepted; equal results are demanded where the least-squares problems on the way are well posed.',
C19='Judged where the evidence is clearly nonzero.',
C23='Equal results are demanded where the least-squares problems on the way are well posed.',
)
checks = [dict(property=k, quick_cmd=f'/opt/venv/bin/python run_check.py {k}', thorough_cmd=f'/opt/venv/bin/python run_check.py {k} --tier thorough', evidence_file=f'evidence/{k}.json',
               technique=v, level='exploration', level_note=NOTE + (' ' + EXTRA[k] if k in EXTRA else '')) for k, v in sorted(T.items())]
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
assert ids == [c['property'] for c in checks], 'not in step with properties.jsonl'
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python -c "import numpy, scipy, h5py"', checks=checks, not_applicable=[],
                   notes='No hooks in /repo: the checks observe the fits through the public logger interface. Replay a failure with: /opt/venv/bin/python run_check.py <ID> --replay <file>.'), f, indent=1)
    f.write('\n')
