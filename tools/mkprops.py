#!/usr/bin/python3
"""Writes properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': [observe], 'hook_needed': None}
    if state:
        a['state'] = [{'name': n, 'meaning': w} for n, w in state]
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})


C = 'src/'
DRIVERS = [C + 'spectrum_1loop.c', C + 'spectrum_2loop.c', C + 'spectrum_bias_1loop.c', C + 'spectrum_A_1loop.c', C + 'spectrum_A_2loop.c', C + 'spectrum_B.c']
PY = 'pyregpt/pyregpt.py'

prop('C01', 'Results do not depend on the number of threads or on their scheduling',
     'Every calculation (1- and 2-loop spectra, bias terms, A and B terms at 1 and 2 loops) returns for every number of threads, including more threads than wavenumbers, and for every interleaving of these threads, the values it returns with one thread. This holds in every run of a sequence of runs, whatever numbers of threads the earlier ones used.',
     ['schedules', 'configurations'], 'all interleavings of the parallel section up to a preemption bound, all (number of threads, number of wavenumbers) pairs up to a bound, all sequences of thread counts',
     'The tests run at one thread count (8) and compare with stored values at a tolerance that hides a lost update; the schedule is whatever the machine does.',
     DRIVERS, [('parallel section over k', 'run_terms_* in each src/spectrum_*.c'), ('per-thread grids', 'gauss_legendre_q / gauss_legendre_mu of each src/calc_*.c and src/gamma*.c'), ('set_num_threads', 'src/regpt.c')],
     'arrays of a terms object after run_terms(nthreads=...)', [('grids of a thread', 'quadrature nodes, weights and tabulated spectrum, one set per thread')])
prop('C02', 'The parallel calculation is free of data races',
     'While a calculation runs on several threads, no memory location is written by one thread and read or written by another without synchronisation between the two accesses, in any calculation, with any verbosity and any pair of fields. Each thread uses only tables that it built itself in this run, and by the end of the run has released them exactly once.',
     ['schedules', 'configurations'], 'all accesses of all schedules up to a preemption bound of every calculation, field pair and number of threads of a bounded driver',
     'A race is invisible to a test that happens to see the winning order, and most orders give the right number because all threads write the same value.',
     DRIVERS, [('thread-private grids and spectra', '#pragma omp threadprivate in src/'), ('loop over k and its private variables', '#pragma omp parallel / for in run_terms_*'), ('init_*/free_* inside the parallel section', 'run_terms_*')],
     'memory accesses of the compiled library under a controlled scheduler')
prop('C03', 'Each wavenumber is computed independently of the other wavenumbers',
     'The values a calculation returns at a wavenumber depend on that wavenumber only: not on which other wavenumbers are requested, on how many, on their order, on duplicates or on its position. Values of sorted, reversed, permuted, repeated, single and concatenated wavenumber lists agree element by element, inside and outside the tabulated range.',
     ['inputs', 'configurations'], 'all arrangements (subsets, orders, duplicates, lengths up to a bound) of an alphabet of wavenumbers inside, at the edges of and outside the tabulated range, for every calculation',
     'The tests ask for one increasing list of wavenumbers per calculation.',
     DRIVERS + [C + 'common.c'], [('find_pk', 'src/common.c'), ('calc_running_sigmad2', 'src/common.c'), ('loop over k', 'run_terms_*')],
     'rows of the terms arrays; find_pk_lin and calc_running_sigmad2')
prop('C04', 'A precision or cutoff setting changes exactly what it names',
     'A setting of precision (number of nodes, range, interpolation) or of the running cutoff affects the calculations that it names, and those of the members of a named group, and no other; a number of nodes of zero, an empty range and an unknown interpolation each leave that part as it was. A call that names no calculation sets the momentum quadratures of all. A call that sets nothing restores the defaults of a quadrature, and resetting everything restores every default.',
     ['histories', 'configurations'], 'all sequences of settings up to a bounded depth over an alphabet with every setting name, each followed by probes of every calculation',
     'The tests set one or two precisions before one calculation and never look whether another calculation changed.',
     [PY, C + 'common.c'], [('PyRegPT.set_precision / set_running_uvcutoff', PY), ('set_precision, set_interpol', 'src/common.c'), ('setters of each module', 'set_precision_* / set_running_uvcutoff_* in src/')],
     'values returned by calculations run after the settings', [('settings of the library', 'nodes, range and interpolation of each quadrature; interpolation and cutoff of each calculation')])
prop('C05', 'Results depend on the current inputs and settings, not on the history',
     'A calculation run after any sequence of other calculations, changes of the linear power spectrum, changes of settings and resets returns what it returns in a fresh process given the same linear power spectrum and the same settings. After a reset of all settings, the library behaves as one that was never configured.',
     ['histories'], 'all sequences of operations up to a bounded depth over an alphabet of calculations, spectra, settings and resets',
     'The tests run each calculation in its own process, from the initial state; the library keeps all its settings, inputs and tables in global variables.',
     [PY] + DRIVERS + [C + 'calc_pkcorr_from_gamma3.c', C + 'calc_pkcorr_from_A_2loop_II_III.c'],
     [('PyRegPT.clear', PY), ('init_*/free_*', 'src/'), ('set_spectra_B / run_spectra_B_1loop', 'src/spectrum_B.c')],
     'terms arrays after a history vs. those of a fresh process', [('library state', 'everything in the writable data of the library')])
prop('C06', 'Objects do not interfere with one another',
     'Whatever the interleaving of calls on several objects, each object computes with the linear power spectrum and the wavenumbers that were given to it, writes its results in its own arrays, and leaves the arrays of the other objects untouched. This includes copies, subsets and modified arrays of an object: a calculation started from an object uses and fills the arrays that object has at that moment.',
     ['histories'], 'all interleavings up to a bounded depth of the operations of two or three objects of the same or of different calculations, including copying, slicing and replacing arrays',
     'The tests use one object at a time.',
     [PY], [('set_terms / run_terms / set_spectrum_lin', PY), ('set_terms_*', 'src/spectrum_*.c'), ('set_pk_lin', 'src/regpt.c')],
     'arrays of every object after every operation', [('bound arrays', 'the pointers to arrays that the library keeps between calls')])
prop('C07', 'No invalid memory access and no leak, whatever the sequence of calls',
     'No sequence of calls of the Python interface with well-formed arguments reads or writes memory outside its arrays, uses released memory, releases twice, or leaves memory allocated by a finished calculation unreleased. This holds for tables as short as three points, a single wavenumber or none, one quadrature node, any number of threads, and results of earlier calculations that the caller has dropped.',
     ['histories', 'inputs', 'configurations'], 'all sequences of calls up to a bounded depth, and all combinations of small table sizes, numbers of wavenumbers, nodes and threads, on the library built with an address sanitizer',
     'An out-of-bounds read of a few bytes returns a plausible number; nothing in the tests would fail.',
     [C + 'common.c', PY] + DRIVERS, [('interpol_poly / find_pk / get_dichotomy_index', 'src/common.c'), ('init_gauss_legendre_* / free_gauss_legendre_*', 'src/common.c'), ('arrays handed to the library', PY)],
     'address sanitizer reports and allocation balance around each run')
prop('C08', 'The linear power spectrum is interpolated and extrapolated as documented',
     'For every wavenumber and every table of at least three points: inside the table the value is that of the local polynomial through the at most five nearest-index points (two on each side) or of the straight line between the two neighbours, and equals the tabulated value at a tabulated wavenumber; above the last point it is a power law anchored at the last point, and below the first point one anchored at the second point, with the slope averaged over the outermost interior points (up to 14 below, 15 above, fewer in shorter tables). Where a tabulated value used for a slope is not positive, the extrapolation is zero.',
     ['inputs', 'configurations'], 'all table sizes up to a bound, all positions of the wavenumber relative to the table (each node, each interval, both outsides, the edges), both interpolations, tables with non-positive values, equal and unequal spacings',
     'The tests check a single table at its own nodes.',
     [C + 'common.c', PY], [('find_pk, extrapol_pk_lowk, extrapol_pk_highk, interpol_poly, get_dichotomy_index', 'src/common.c')],
     'find_pk_lin, and the linear spectrum column of every calculation')
prop('C09', 'The running displacement dispersion is the cumulative integral of the spectrum',
     'For every wavenumber k and cutoff c, the running dispersion is 1/(6 pi^2) times the integral of the linear power spectrum, joined by straight lines, from the first tabulated wavenumber up to c k: zero if c k is below the table and the integral over the whole table if c k is above it. It holds for wavenumbers in any order and in every calculation that reports or uses it with that calculation\'s own cutoff.',
     ['inputs', 'configurations'], 'all table sizes up to a bound, all positions of c k relative to the table, several cutoffs, all orders of short lists of wavenumbers, all calculations',
     'The tests compare one increasing list at one cutoff with a loose tolerance.',
     [C + 'common.c', PY], [('calc_running_sigmad2', 'src/common.c'), ('cutoffs', 'set_running_uvcutoff_* in src/')],
     'calc_running_sigmad2 and the sigmad2 column of every calculation')
prop('C10', 'Quadrature and interpolation routines are exact where they must be',
     'Gauss-Legendre nodes and weights are, for every number of nodes and every interval, those of Legendre\'s polynomial to rounding: increasing nodes inside the interval, symmetric, positive weights, exact for polynomials of degree 2n-1. Polynomial interpolation through n points reproduces every polynomial of degree below n and the tabulated values, for every n and every position, and linear interpolation reproduces straight lines.',
     ['inputs'], 'every number of nodes up to a bound covering all defaults, several intervals; every number of points up to a bound, every basis polynomial and every position relative to the points',
     'The tests check one number of nodes and one function.',
     [C + 'common.c', PY], [('nodes_weights_gauss_legendre, interpol_poly, interpol_lin', 'src/common.c')],
     'nodes_weights_gauss_legendre, interpol_poly, interpol_lin of the Python interface')
prop('C11', 'The 1-loop spectrum terms are those of regularized perturbation theory',
     'For every wavenumber, linear spectrum, quadrature and pair of fields, the 1-loop propagator terms are the published one-loop kernels of that field integrated over the linear spectrum, and the mode-coupling term is twice the integral of the product of the two second-order kernels and two linear spectra, restricted to wavenumbers inside the quadrature range. The kernels hold for every ratio of wavenumbers, including equal wavenumbers and extreme ratios, to the accuracy of the published series.',
     ['inputs', 'configurations'], 'a grid of wavenumber ratios over all branches of the kernels and their junctions, all field pairs, several spectra, numbers of nodes and ranges',
     'The tests compare with stored values at default precision over a narrow range of wavenumbers; branches of the kernels far from it contribute below the tolerance.',
     [C + 'gamma1_1loop.c', C + 'calc_pkcorr_from_gamma2.c', C + 'spectrum_1loop.c', C + 'kernels.c'], [('kernel_ff, kernel_gg, gamma1_1loop', 'src/gamma1_1loop.c'), ('kernel_pk_gamma2_tree, calc_pk_gamma2_tree', 'src/calc_pkcorr_from_gamma2.c')],
     'columns of Spectrum1Loop, and the shared columns of Spectrum2Loop')
prop('C12', 'The bias terms are the published one-loop integrals',
     'For every wavenumber, linear spectrum and quadrature, the seven bias spectra and the third-order dispersion are the integrals of McDonald and Roy: second-order kernels of density or velocity, times the tidal kernel where it appears, with the constant (zero-wavenumber) part of the pure bias terms subtracted. The density and velocity versions differ only by the kernel of the field.',
     ['inputs', 'configurations'], 'several spectra, numbers of nodes and ranges, wavenumbers below, inside and above the quadrature range, with one- and few-node quadratures that isolate every region of the domain',
     'The test compares with values stored from this code.',
     [C + 'spectrum_bias_1loop.c', C + 'calc_pkcorr_from_bias_1loop.c', C + 'kernels.c'], [('kernel_b2 ... kernel_sigma3sq', 'src/spectrum_bias_1loop.c'), ('calc_pk_bias_1loop', 'src/calc_pkcorr_from_bias_1loop.c')],
     'columns of Bias1Loop')
prop('C13', 'The 1-loop A term is the projected tree-level bispectrum',
     'For every wavenumber, linear spectrum and quadrature, the five components of the 1-loop A term are the coefficients (powers of the cosine and of the growth rate) of the redshift-space projection of the tree-level cross bispectra of density and velocity, integrated over the loop momentum. This includes the part where the loop wavenumber is much smaller or larger than the wavenumber or equal to it.',
     ['inputs', 'configurations'], 'several spectra, numbers of nodes and ranges, wavenumber ratios over all branches of the kernels and their junctions, each component',
     'The test compares with values stored from this code.',
     [C + 'calc_pkcorr_from_A_1loop.c', C + 'spectrum_A_1loop.c'], [('kernel_A_tA_1loop, kernel_a_1loop, calc_pk_A_1loop', 'src/calc_pkcorr_from_A_1loop.c')],
     'columns of A1Loop')
prop('C14', 'The B term is the projected product of two spectra',
     'For every wavenumber, linear spectrum and quadrature, the nine components of the B term are the coefficients of the redshift-space projection of the product of two velocity-weighted spectra, integrated over the loop momentum: of linear spectra at 1 loop, and of the 1-loop density-velocity and velocity-velocity spectra at 2 loops.',
     ['inputs', 'configurations'], 'several spectra, numbers of nodes and ranges, wavenumbers below, inside and above the range, each component, both loop orders',
     'The tests compare with stored values at one setting.',
     [C + 'calc_pkcorr_from_B.c', C + 'spectrum_B.c', PY], [('kernel_B, calc_pk_B', 'src/calc_pkcorr_from_B.c'), ('set_spectra_B, run_terms_B', 'src/spectrum_B.c'), ('B1Loop / B2Loop run_terms', PY)],
     'columns of B1Loop and B2Loop')
prop('C15', 'The 2-loop propagator is the published fit, assembled with the 1-loop one',
     'For every wavenumber, linear spectrum, quadrature and field, the 2-loop propagator term is the double integral of the published fitted kernel over two linear spectra, symmetric in the two loop wavenumbers, plus half the square of the 1-loop term of that field. It holds for all ratios of the three wavenumbers, including equal and very different loop wavenumbers.',
     ['inputs', 'configurations'], 'a grid of ratios of the two loop wavenumbers and the external one over all branches of the fit and their junctions, both fields, several quadratures',
     'Tests of the 2-loop terms need a library that is absent here and compare at one setting.',
     [C + 'gamma1_2loop.c', C + 'calc_pkcorr_from_gamma1.c'], [('beta, cc, dd, delta, alpha, gamma1_2loop', 'src/gamma1_2loop.c'), ('calc_pk_gamma1_2loop', 'src/calc_pkcorr_from_gamma1.c')],
     'gamma1a_2loop and gamma1b_2loop columns of Spectrum2Loop')
prop('C16', 'The 1-loop correction of the second-order propagator is right in every regime',
     'For every triangle of wavenumbers and loop wavenumber, the 1-loop correction of the second-order propagator of density and of velocity is the angular average of the fourth-order kernel of perturbation theory, to the accuracy of the expansions used in the special regimes (loop wavenumber far below, far above or near a side, isosceles, elongated or collapsed triangles). It is symmetric in the first two sides, homogeneous in the wavenumbers, and enters the 2-loop spectrum through the products of tree and 1-loop kernels.',
     ['inputs', 'configurations'], 'a grid of triangle shapes and loop wavenumbers over all regimes and their boundaries, both fields, both orders of the two first sides',
     'Nothing in the tests exercises these kernels one regime at a time; the stored values average over all of them.',
     [C + 'gamma2d_1loop.c', C + 'gamma2t_1loop.c', C + 'calc_pkcorr_from_gamma2.c'], [('kernel_gamma2d_* and kernel_gamma2d', 'src/gamma2d_1loop.c'), ('kernel_gamma2t_* and kernel_gamma2t', 'src/gamma2t_1loop.c'), ('calc_pk_gamma2_1loop', 'src/calc_pkcorr_from_gamma2.c')],
     'pk_gamma2_tree_1loop and pk_gamma2_1loop_1loop columns of Spectrum2Loop with one-node inner quadratures')
prop('C17', 'The third-order term integrates the published kernel over the whole domain',
     'The third-order term of the 2-loop spectrum is, for any sampling points the Monte-Carlo integrator chooses, in any order and in any of its worker processes, six times the average of the product of the two third-order kernels and three linear spectra with the right volume element, over the configured wavenumber range. The contribution of a sampling point depends on that point, the wavenumber, the fields, the linear spectrum and the range only.',
     ['inputs', 'schedules', 'configurations'], 'a grid of sampling points over the five-dimensional cube including its faces, all field pairs, several ranges and wavenumbers, all orders of short lists of points and all assignments of points to worker processes',
     'The tests that reach the Monte-Carlo integrator cannot run here, and where they run compare one stochastic estimate.',
     [C + 'calc_pkcorr_from_gamma3.c', C + 'kernels.c'], [('kernel_pk_gamma3_tree, calc_pk_gamma3_tree, init_gamma3_tree', 'src/calc_pkcorr_from_gamma3.c'), ('F3_sym, F2_sym_full', 'src/kernels.c')],
     'pk_gamma3_tree column of Spectrum2Loop with a stand-in for the integrator that evaluates given points')
prop('C18', 'The 2-loop A term is the projected 1-loop bispectrum',
     'The five components of the 2-loop A term are, for every wavenumber, linear spectrum and quadrature and for any sampling points of the Monte-Carlo integrator, the redshift-space projections of the regularized 1-loop cross bispectra of density and velocity: the part built from one- and two-point propagators plus the parts with three second-order kernels and with a third- and a second-order kernel, all damped by the running dispersion.',
     ['inputs', 'schedules', 'configurations'], 'a grid of wavenumbers, quadratures and sampling points over all branches (low wavenumber thresholds, all orderings of the internal momenta), orders of points and assignments to workers',
     'The test needs the absent integrator and compares with values stored from this code.',
     [C + 'spectrum_A_2loop.c', C + 'calc_pkcorr_from_A_2loop_I.c', C + 'calc_pkcorr_from_A_2loop_II_III.c', C + 'bispectrum_1loop.c'], [('bispectrum_1loop_I, bispectrum_1loop_II_III', 'src/bispectrum_1loop.c'), ('kernel_projection_A_tA', 'src/calc_pkcorr_from_A_2loop_I.c'), ('run_terms_A_2loop', 'src/spectrum_A_2loop.c')],
     'columns of A2Loop')
prop('C19', 'Exchanging the two fields exchanges the propagators and keeps the spectrum',
     'For every calculation that takes two fields, exchanging them exchanges the two sets of propagator terms and leaves the mode-coupling terms and the assembled spectrum unchanged; with equal fields the two sets are equal, and each propagator term depends on its own field only. A field that is not given is the density.',
     ['inputs', 'configurations'], 'all pairs of fields, both loop orders, several spectra, wavenumbers and quadratures',
     'The tests compare each pair with its own stored values at loose tolerance.',
     [C + 'spectrum_1loop.c', C + 'spectrum_2loop.c', C + 'calc_pkcorr_from_gamma1.c', C + 'calc_pkcorr_from_gamma2.c', C + 'calc_pkcorr_from_gamma3.c'], [('run_terms_spectrum_1loop / _2loop', 'src/spectrum_*loop.c'), ('calc_pk_gamma1_2loop', 'src/calc_pkcorr_from_gamma1.c')],
     'columns and pk() of Spectrum1Loop and Spectrum2Loop')
prop('C20', 'Terms scale with the amplitude of the linear spectrum as declared',
     'Multiplying the linear power spectrum by a constant multiplies each undamped term by that constant to the power declared for it, so that rescaling an object by s gives what a calculation with the linear spectrum multiplied by s squared gives, and rescaling by s then by 1/s restores it. Evaluating a spectrum with a growth factor equals rescaling by it and evaluating with growth one, for every calculation with a growth factor.',
     ['inputs', 'configurations'], 'all calculations and fields, several amplitudes, spectra and wavenumbers',
     'The tests use one amplitude.',
     [PY], [('SCALE, rescale, scale_factor, damping_factor, pk', PY), ('run_terms_*', 'src/spectrum_*.c')],
     'columns, rescale and pk(Dgrowth)')
prop('C21', 'Results do not depend on the unit of length',
     'Expressing the table, the wavenumbers and the ranges of integration in another unit of length changes every term as its dimension requires: dimensionless propagator terms stay, spectra scale as a volume and the running dispersion as a squared length. It holds for every calculation that has no fixed wavenumber scale, at every wavenumber.',
     ['inputs', 'configurations'], 'all calculations without a fixed scale, several scale factors over decades, spectra, wavenumbers and quadratures',
     'The tests use one unit.',
     [C + 'common.c'] + DRIVERS, [('update_gauss_legendre_q', 'src/common.c'), ('kernels in ratios of wavenumbers', 'src/')],
     'columns of every calculation without fixed scale')
prop('C22', 'Assembled spectra follow the published resummation',
     'The 1- and 2-loop spectra, the damped bias terms, the redshift-space A and B sums and the variances evaluated from the terms follow the published formulas for every growth factor (scalar or per wavenumber), every dispersion given or taken from the terms, every cosine and growth rate, and values given for wavenumbers out of range. The 1- and 2-loop spectra that the library assembles itself, those of the B term included, equal those assembled by the Python interface.',
     ['inputs', 'configurations'], 'all terms set one at a time to values of a small alphabet (the formulas are polynomials in them), growth factors, dispersions, cosines, growth rates, evaluation points inside, at the ends of and outside the range',
     'The tests evaluate the assembly at one growth factor per run and compare with stored values.',
     [PY, C + 'spectrum_1loop.c', C + 'spectrum_B.c'], [('pk, pk_interp, pk_*_damp, sigmav, sigmar, shotnoise', PY), ('spectrum_1loop', 'src/spectrum_1loop.c')],
     'methods of the terms objects')
prop('C23', 'Verbosity only affects what is printed',
     'The results of every calculation are the same for every verbosity and unaffected by changes of verbosity between calls; a quiet library prints nothing, and an unknown verbosity is ignored. Verbosity is common to all objects, and creating or copying an object or running a calculation does not change it.',
     ['histories', 'configurations'], 'all sequences of verbosity changes, object creations and calculations up to a bounded depth, all calculations',
     'The test sets the verbosity and checks nothing.',
     [PY, C + 'regpt.c'] + DRIVERS, [('set_verbosity', 'src/regpt.c and ' + PY), ('progress output', 'run_terms_*')],
     'bytes written on standard output, files created, results')
prop('C24', 'Containers of terms behave as aligned columns',
     'Every operation on a container of terms (reading, slicing and masking, assigning, copying, deep copying, padding, rescaling, replacing invalid values by zero, conversion) acts on all columns alike and as the same operation on independent arrays would: deep copies share nothing, slices select the same rows of every column, padding keeps the existing rows and adds those of the given wavenumbers outside the range with the requested values (the linear spectrum and its dispersion, where they are columns, are evaluated anew). No operation changes a column it does not name, or another container with which it shares no memory (slices and shallow copies share memory with their original, as those of arrays do).',
     ['histories', 'inputs'], 'all sequences of operations up to a bounded depth on small containers of every kind against a model made of plain lists',
     'The tests copy one object.',
     [PY], [('Terms', PY)], 'columns of the containers')
prop('C25', 'Inputs are taken as values, whatever their layout, and never modified',
     'Every array argument may be a list, a tuple, a view with any stride or order, another real type (one that numpy converts to double) or read-only, and gives the same results as the plain contiguous array of the same values. No call modifies the caller\'s arrays, and what the caller does later with the arrays it passed as such has no effect.',
     ['inputs', 'configurations'], 'all combinations of layouts and types of every array argument of every call',
     'The tests pass contiguous arrays of doubles.',
     [PY], [('set_pk_lin, set_spectrum_lin, set_terms, find_pk_lin, calc_running_sigmad2, interpol_poly', PY)], 'results and the arguments after the call')
prop('C26', 'The no-wiggle spectrum is the published fitting formula',
     'For every wavenumber and cosmology the no-wiggle spectrum is the amplitude times k to the spectral index times the square of the zero-baryon-wiggle transfer function of Eisenstein and Hu (1998), with densities given directly or through the reduced Hubble constant; without an amplitude it is normalised to the first value of the spectrum it is given. Its variance in a sphere and displacement dispersion are those of the tabulated values.',
     ['inputs', 'configurations'], 'grids of wavenumbers and of each cosmological parameter, all ways of passing densities and amplitude',
     'The test compares with nothing: it checks that the code runs.',
     [PY], [('SpectrumNoWiggle.transfer / run_terms', PY)], 'columns of SpectrumNoWiggle')

prop('C27', 'What is printed and written describes the calculation',
     'With the informative verbosity, each call that sets a linear spectrum or wavenumbers reports their number and range, and each calculation reports its kind, its two fields, the number of threads in use, percentages of progress that are those of the wavenumbers done (never above 100) and the time that the calculation took. With the debugging verbosity the files written contain the terms that the calculation returned, one row per wavenumber.',
     ['histories', 'configurations'], 'every calculation with every number of wavenumbers and threads up to a bound, and all short sequences of calls on two objects with changes of verbosity',
     'No test looks at the output.',
     [PY, C + 'regpt.c', C + 'common.c'] + DRIVERS, [('print_pk_lin, print_k, print_flags, set_num_threads', 'src/regpt.c'), ('timer', 'src/common.c'), ('write_terms_*, write_spectra_B', 'src/spectrum_*.c')],
     'bytes written on standard output, contents of the files written')

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(path, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
