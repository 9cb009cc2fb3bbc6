"""Write MANIFEST.json: python3 tools/make_manifest.py"""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parents[1]

# Property: (deciding method, what it gives and trusts)
CHECKS = {
    'C01': ('property-based testing, model-based: generated trees of parameters and sequences of writes against a dictionary',
            'Trees up to three levels deep; every write operation; aliasing is tested by changing arrays in place.'),
    'C02': ('property-based testing, model-based: sequences of marking, reading and writing against a model of the flags',
            'Sequences of marks, bulk reads and writes, and rejected writes, on generated trees.'),
    'C03': ('property-based testing, round trip: containers to vectors and back, and layout of names and positions',
            'All container classes of the package plus generated ones; memory sharing tested by changing arrays in place.'),
    'C04': ('property-based testing: generated values in every accepted form against a reference normalisation, and rejections',
            'Numbers, lists, tuples, arrays of 0 to 2 dimensions; conflicting batches and too many dimensions must raise.'),
    'C05': ('property-based testing, round trip through JSON of evaluated and simulated objects, and equal predictions after',
            'Circuit and Thevenin classes; values must be finite, as JSON has no other ones.'),
    'C06': ('property-based testing, differential: scalar reference of interpolation and temperature laws for each entry',
            'Nine interpolation styles, batched tables, SOC and temperatures.'),
    'C07': ('property-based testing, differential: scalar closed-form solution of the circuit equations',
            'Generated circuits, states, pairs of inputs, both ways current may vary; errors relative to conditioning.'),
    'C08': ('property-based testing, metamorphic: one step against any division of it, and steps without duration',
            'Circuits without dependence on SOC or temperature, any number of pieces, constant and linear currents.'),
    'C09': ('property-based testing, differential: scalar sum of the contributions of each element',
            'Generated circuits, states and inputs; snapshots show that nothing is changed.'),
    'C10': ('property-based testing, metamorphic: members alone, permuted and duplicated against the batch',
            'Every subset of parameters, states and inputs may be batched.'),
    'C11': ('property-based testing: invariants along generated current histories',
            'Histories up to tens of steps with rests and reversals.'),
    'C12': ('property-based testing, differential and metamorphic: exact integral of the table, additivity, scaling, batches',
            'Accuracy is that of the documented trapezoidal rule.'),
    'C13': ('property-based testing, model-based: histories in generated groupings against a fold over the models',
            'With a degradation model which depends on everything it is given; caller objects are spoiled on the way.'),
    'C14': ('property-based testing, round trip: exported tables against the recorded history for each member and time',
            'Every quantity may be batched or not, at any time.'),
    'C15': ('property-based testing: inverses, point-by-point agreement, numerical Jacobians, covariances, no side effects',
            'Linear (scalar, vector, square, reducing) and absolute-value conversions.'),
    'C16': ('property-based testing, differential: moments by hand, isolation by spoiling copies, rejections',
            'Any number of parts; all conversion operators.'),
    'C17': ('property-based testing, differential: exact Kalman filter on generated linear systems',
            'Tolerances follow the amplification of rounding errors by the weights and the gain; one known finding.'),
    'C18': ('property-based testing: nearest matrix by eigenvalues, invariants of filters with singular and scaled covariances',
            'Up to rounding errors of the size which the repair itself tolerates.'),
    'C19': ('property-based testing, differential: textbook augmented unscented filter on generated nonlinear systems',
            'Positive definite covariances, so that sigma points are defined by the Cholesky factor; rejections.'),
    'C20': ('property-based testing, differential: textbook filter on a scalar model, in generated coordinates',
            'Circuits in diagonal and triangular coordinates, linear models in any affine coordinates.'),
    'C21': ('property-based testing, differential: two coupled textbook filters on a scalar model, in generated coordinates',
            'Circuits in diagonal and triangular coordinates, linear models in any affine coordinates.'),
    'C22': ('property-based testing, differential: rows of wrapped models against direct calls of the cell model',
            'All three wrappers, generated coordinates, degradation models, any selection of parameters.'),
    'C23': ('property-based testing: generated drive cycles with exact data, errors and variances along the history',
            'Errors relative to the stated uncertainties; problems for which the linearisation error is negligible.'),
    'C24': ('property-based testing, differential: stepping an estimator by hand over the rows of generated datasets',
            'Columns missing or not finite, from memory and file, with and without output.'),
    'C25': ('property-based testing, round trip and model-based: sequences of steps, cycles and modes, with interruptions',
            'All storage modes, sizes, groups and files; interruptions are exceptions in the middle of a run.'),
    'C26': ('property-based testing, differential: losses of generated candidates against scalar simulations',
            'Generated circuits, data and populations of candidates.'),
    'C27': ('property-based testing: results of generated fits against the recorded objective calls and solution vector',
            'Optimisers of SciPy are trusted; they are also replaced by stand-ins which record what they are given.'),
    'C28': ('property-based testing, differential and metamorphic: generated cycling records against their maximum',
            'With and without cycle summaries; order, scale and start of time varied.'),
    'C29': ('property-based testing, differential and metamorphic: generated splines, rows in any order, scalings',
            'Data sampling each interval between knots.'),
    'C30': ('property-based testing, differential: a recording stand-in of the external solver, members one by one',
            'The thevenin package is not installed: a stand-in with the interface the adapter uses takes its place.'),
    'C31': ('property-based testing: interleaved estimators, spoiled caller objects and returned objects',
            'Joint and dual estimators; equality is exact.'),
    'C32': ('property-based testing, differential: polynomials of each member by hand',
            'Batches of coefficients, SOC and temperatures.'),
    'C33': ('property-based testing: requested values read back, independence by spoiling, rejections',
            'All arguments of the templates.'),
    'C34': ('property-based testing, differential: generated cell models in simulators and estimators against the models themselves',
            'Models with inputs, states, outputs and health of generated layouts; smooth nonlinear dynamics.'),
}
NOT_APPLICABLE = {}


def main():
    ids = [json.loads(x)['id'] for x in (ROOT / 'properties.jsonl').read_text().splitlines()]
    checks, left = [], []
    for pid in ids:
        if pid in NOT_APPLICABLE:
            left.append({'property': pid, 'reason': NOT_APPLICABLE[pid]})
        elif not (ROOT / 'pbt' / 'props' / f'{pid.lower()}.py').exists():
            left.append({'property': pid, 'reason': 'The check is being written'})
        else:
            checks.append({'property': pid, 'quick_cmd': f'./check.sh {pid}',
                           'thorough_cmd': f'VERIF_TIER=thorough ./check.sh {pid}',
                           'evidence_file': f'evidence/{pid}.json', 'technique': CHECKS[pid][0], 'level': 'exploration',
                           'level_note': CHECKS[pid][1]})
    out = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': left,
           'notes': 'Checks import the code from /repo as it is: nothing is built. Hypothesis comes from the tooling '
                    'environment (pbt/boot.py), everything else from that of the repository.'}
    (ROOT / 'MANIFEST.json').write_text(json.dumps(out, indent=1) + '\n')


if __name__ == '__main__':
    main()
