"""what MANIFEST.json claims (tools/gen_manifest.py)"""
NOTE = ('symbolic execution of the real Python source over exact reals, every branch alternative and every check decided '
        'by z3/cvc5 (or by the simplifier\'s normal form), counterexamples replayed on the unpatched code; '
        'bounds per item in evidence; ')
CLAIMS = {
    'C01': NOTE + 'up to 3 jumps and 2 cuts (quick), 4 and 3 (thorough)',
    'C02': NOTE + '2-3 states, up to ~3 candidate transitions per bridge, partitions of up to 3 pieces',
    'C03': NOTE + '2-3 states, up to ~3 candidate transitions; the matrix exponential is an arbitrary positive '
                  'stochastic matrix',
    'C04': NOTE + '3 states, up to 3 (4) jumps',
    'C05': NOTE + 'up to 4 (6) points, dimension 1-3, batch sizes 1-3 (4)',
    'C06': NOTE + 'up to 3 (5) rounds',
    'C07': NOTE + 'no loop bound; both orders of the end points and every combination of truncation limits',
    'C08': NOTE + '8 (24) series terms, up to ~14 branch decisions; decisions also for every draw on concrete geometries',
    'C10': NOTE + 'paths of 3-4 stored points, 1-4 requested times',
    'C11': NOTE + '1-3 (5) times, dimension 1-3 (4)',
    'C12': NOTE + 'every model, up to 3 (5) observations, 2 (3) points per interval, 2 regimes',
    'C13': NOTE + 'every model, every parameter and state; likelihoods of 2-3 (5) observations, grids of 2-6 points, 2-3 regimes',
    'C14': NOTE + 'every model, every parameter, interval, state and bridge; grids of 1-3 pieces',
    'C15': NOTE + 'every OU-type model; free parameters, observations and ranges for the gradient bounds, fixed geometries and one mark for the flips',
    'C16': NOTE + 'clouds of up to 2 (3) marks in batches of 1-2 (3), paths of arbitrary values at the marks, arbitrary affine operators and discrepancies',
    'C17': NOTE + 'models with arbitrary priors, likelihoods, discrepancies and proposals; 1-2 (3) pieces, 1-2 sections, 2-3 regimes, one mark per piece in the first round of flips',
    'C21': NOTE + 'every sampling entry point, on the inputs of the other properties\' quick checks, a few seconds of exploration per item',
    'C25': NOTE + '1-2 (3) sweeps over 1-2 intervals or 2-3 observations with one change of regime; an arbitrary model (prior, likelihood and discrepancy bounds are arbitrary positive functions of their arguments), no Poisson marks, earlier sweeps steered to accept or reject; the library\'s models at fixed data with arbitrary acceptance draws; the steps of a sweep are those of C17; raw pieces and the mutation of regime pieces are replaced by stand-ins',
    'C26': NOTE + 'budgets of 0-2 (3) proposals, fixed geometries, every escape decision; one inner time',
    'C27': NOTE + 'every model, every positive parameter and state, 1-3 (4) regimes, every sign pattern of two negative parameters; bounds and defaults are concrete',
    'C28': NOTE + '2 (3) particles of 1-2 pieces, one support each, two parameters per regime, two regimes; objectives polynomial in the parameters with arbitrary coefficients; the numerical differentiation (numdifftools) is summarised by exact derivatives and used as it is in replays',
    'C30': NOTE + 'the inputs and bounds of the other checks with a shorter exploration of each; where the library keeps anything between calls, the calls are repeated on a fresh copy of it and on one used before with equal inputs, a third of them different, or all of them',
    'C29': NOTE + '1-3 pieces, up to one mark per flip and two rounds of coins; constant discrepancies (the outcome of every coin is free); the interpolation of path pieces is summarised by one that gives new times values of their own (C10)',
    'C24': NOTE + 'up to 2 (3) accepted paths from up to 4 proposals with at most one mark each, fixed geometry, every draw of the coins; end point densities for every parameter',
    'C22': NOTE + '2-3 (4) tangents, open and closed domains, every sign pattern of 2-3 (4) envelope segments; one rejection followed by one more candidate; the optimiser inside brace is summarised by an arbitrary mode',
    'C23': NOTE + '1-3 (6) steps, 1-2 (3) draws, constant, affine and quadratic coefficients',
    'C19': NOTE + '1-2 (3) particles of up to 3 intervals, 2-3 regimes, 1-2 (3) supports, every kind of bounds, 1-3 particles thinned by 1-3, 3 (4) iterations; likelihood, discrepancy and prior are polynomials with arbitrary coefficients; the optimiser returns an arbitrary optimum',
    'C18': NOTE + '1-3 (4) observation intervals with up to 2 (3) regime changes each, every subset of split points, two states mixed over 2-3 parts; the path pieces are summarised (C08, C09)',
    'C20': NOTE + 'every kind of bounds; batches of 3-4 (6) points in dimension 1-2 (3); 3-7 (6-11) adaptation calls; 2-4 (6) observation times; the regime resampling itself is summarised (C02)',
    'C09': NOTE + 'edges of layers 0-2 (0-4) for every geometry; layer and sector draws for every value of the draws on '
                  'concrete geometries; up to 2 proposals',
}
NOT_APPLICABLE = {}
