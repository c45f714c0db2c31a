#!/usr/bin/python3
"""Writes properties.jsonl and MANIFEST.json from the one list below (run after editing it)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def prop(pid, title, statement, over, text, why, files, mech, note, technique, observe=(), state=(), hook=None):
    PROPS.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note,
                      technique=technique, observe=list(observe), state=list(state), hook=hook))


S = 'src/'
TRUST = 'Exploration: generated cases only. Trusts the oracle in vf/, NumPy, the compiler. '
SUAVE = 'The Monte Carlo integrator is replaced by one that averages over given points, so its own accuracy is outside. '

prop('C01', 'The linear power spectrum is evaluated from the table, for any k in any order',
     'Looking up the linear power spectrum returns, for each wavenumber, the polynomial (or linear) interpolation of the tabulated values around it, the tabulated '
     'value itself at a tabulated wavenumber, and beyond both ends the power law fitted on the nearest tabulated points. '
     'The value for one wavenumber does not depend on which others are looked up with it or in which order.',
     ['inputs'], 'all tables with at least 3 increasing wavenumbers, all lists of positive wavenumbers in any order, both interpolations',
     'The tests look up one CAMB table at sorted wavenumbers strictly inside it; ends, extrapolation, order and other tables are never reached.',
     [S + 'common.c', 'pyregpt/pyregpt.py'], [('find_pk, get_dichotomy_index, extrapol_pk_lowk, extrapol_pk_highk', 'src/common.c'), ('find_pk_lin', 'pyregpt/pyregpt.py')],
     TRUST + 'Oracle: Neville interpolation in extended precision on the documented 5-point window, power-law fit written independently.',
     'property-based testing (Hypothesis) against a reference model, plus a permutation relation', ['PyRegPT.find_pk_lin'])
prop('C02', 'The displacement dispersion is the integral of the table up to the cutoff',
     'The running displacement dispersion at k is 1/(6 pi^2) times the integral of the linear power spectrum from the start of the table to cutoff*k, '
     'the spectrum being piecewise linear and zero outside the table; it is the same for a k whatever other k are asked for and in whatever order.',
     ['inputs'], 'all tables, all lists of positive wavenumbers in any order, all positive cutoffs, asked for directly or as a column of a calculation',
     'The tests only see it through damping factors at sorted wavenumbers with the default cutoff.',
     [S + 'common.c', 'pyregpt/pyregpt.py'], [('calc_running_sigmad2', 'src/common.c'), ('set_running_uvcutoff', 'pyregpt/pyregpt.py')],
     TRUST + 'Oracle: exact integral of the piecewise linear function.', 'property-based testing against a reference model', ['PyRegPT.calc_running_sigmad2', "columns 'sigmad2'"])
prop('C03', 'Quadrature nodes and weights are the Gauss-Legendre rule of the order asked for',
     'For any order and interval (its bounds in either order), the nodes run from the first bound to the second, distinct, inside the interval, symmetric around its middle, the weights have the sign of the interval, and the rule '
     'integrates every polynomial of degree below twice the order exactly (to rounding).',
     ['inputs'], 'all orders from 1 to 3000 and all intervals', 'The tests compare one rule with SciPy.',
     [S + 'common.c'], [('nodes_weights_gauss_legendre', 'src/common.c')], TRUST + 'Oracle: residuals of the Legendre polynomial, exactness on Legendre polynomials and random polynomials.',
     'property-based testing of defining invariants and a differential oracle', ['PyRegPT.nodes_weights_gauss_legendre'])
prop('C04', 'Interpolation primitives reproduce polynomials and nodes',
     'Polynomial interpolation through n points returns the unique polynomial of degree below n, whatever the number and the spacing of the points and wherever it is evaluated; '
     'linear interpolation returns the line through its two points.',
     ['inputs'], 'all sets of up to 9 distinct abscissae, increasing or decreasing, all ordinates, lists and arrays of any layout, evaluation inside, at, between and beyond the points',
     'The tests interpolate one smooth function on one grid.', [S + 'common.c', 'pyregpt/pyregpt.py'], [('interpol_poly, interpol_lin', 'src/common.c')],
     TRUST + 'Oracle: Lagrange formula.', 'property-based testing against an exact reference', ['PyRegPT.interpol_poly', 'PyRegPT.interpol_lin'])
prop('C05', 'One-loop power spectrum terms equal their perturbation-theory definitions',
     'For every pair of fields among density and velocity divergence, the one-loop propagators and the tree-level mode-coupling term equal the integrals of the standard '
     'perturbation theory kernels (second order, and third order averaged over angles) times the linear spectra, on the quadrature and range the user set.',
     ['inputs', 'configurations'], 'all tables, wavenumbers (including q = k, q << k, q >> k), pairs of fields, numbers of points, ranges, interpolations, threads',
     'The tests compare four field pairs with stored results for one cosmology at one precision, at percent level.',
     [S + 'spectrum_1loop.c', S + 'gamma1_1loop.c', S + 'calc_pkcorr_from_gamma2.c', S + 'kernels.c'],
     [('gamma1_1loop', 'src/gamma1_1loop.c'), ('calc_pk_gamma2_tree', 'src/calc_pkcorr_from_gamma2.c'), ('run_terms_spectrum_1loop', 'src/spectrum_1loop.c')],
     TRUST + 'Oracle: SPT recursion relations evaluated in extended precision, not the closed forms of the code; the quadrature truncation is common to both.',
     'property-based testing against an independent derivation (SPT recursion)', ['Spectrum1Loop.run_terms'])
prop('C06', 'The two-loop one-point propagator is the symmetric double integral of its kernel',
     'The two-loop correction of each field is the double integral over two loop scales of the published kernel times the linear spectrum at both, '
     'continuous across the expansions the kernel is made of, and agreeing with the fifth-order kernel within the accuracy of the fit; the one-loop part is that of the one-loop calculation.',
     ['inputs', 'configurations'], 'all tables, wavenumbers, field pairs, quadratures of the one- and two-loop parts',
     'The 2-loop tests do not run in the baseline (no Cuba) and compare one cosmology.', [S + 'gamma1_2loop.c', S + 'calc_pkcorr_from_gamma1.c', S + 'spectrum_2loop.c'],
     [('gamma1_2loop', 'src/gamma1_2loop.c'), ('calc_pk_gamma1_2loop', 'src/calc_pkcorr_from_gamma1.c')],
     TRUST + SUAVE + 'The fit coefficients themselves are compared with exact fifth-order kernels within 16 % only.', 'property-based testing against a reference model and metamorphic limits', ['Spectrum2Loop.run_terms'])
prop('C07', 'One-loop corrections of the two-point propagator equal their loop integrals',
     'For every pair of fields the tree-loop and loop-loop mode-coupling terms are the integrals over pairs of modes of the second-order kernels times their one-loop corrections, the latter '
     'being the loop integral of the fourth-order kernel averaged over directions.',
     ['inputs', 'configurations'], 'all triangles within a factor 10, loop scales, field pairs, tables, quadratures',
     'The 2-loop tests do not run in the baseline and compare stored numbers of one cosmology.', [S + 'gamma2d_1loop.c', S + 'gamma2t_1loop.c', S + 'calc_pkcorr_from_gamma2.c'],
     [('one_loop_Gamma2d, one_loop_Gamma2t', 'src/gamma2d_1loop.c, src/gamma2t_1loop.c'), ('calc_pk_gamma2_1loop', 'src/calc_pkcorr_from_gamma2.c')],
     TRUST + SUAVE + 'Oracle: angular average of the SPT fourth-order kernel; tolerance follows the cancellation in the closed forms.', 'property-based testing against an independent derivation (SPT recursion)', ['Spectrum2Loop.run_terms'])
prop('C08', 'The three-point propagator term integrates the right function and domain',
     'The three-point term of the two-loop spectrum is the integral, over two wavevectors within the range set (or taken from the current table), of the product of third-order kernels of the two fields and three linear spectra; '
     'the integrand handed to the integrator is that at every point, for every output wavenumber, and the result is stored unchanged.',
     ['inputs', 'configurations', 'histories'], 'all points of the integration domain, tables, ranges, field pairs, wavenumbers, threads, and calculations made before',
     'These tests do not run in the baseline, and a Monte Carlo average hides errors over small regions.', [S + 'calc_pkcorr_from_gamma3.c', S + 'kernels.c', S + 'spectrum_2loop.c'],
     [('calc_pk_gamma3_tree and its integrand', 'src/calc_pkcorr_from_gamma3.c')], TRUST + SUAVE, 'property-based testing of the integrand, point by point, against a reference model', ['Spectrum2Loop.run_terms'])
prop('C09', 'One-loop bias terms equal their definitions',
     'Each bias term is the integral over pairs of modes of its kernel (second-order density or velocity kernel, tidal kernel and their products) times the linear spectra, with the constant limit subtracted where defined, '
     'and the third-order non-local term is the closed-form loop integral.',
     ['inputs', 'configurations'], 'all tables, wavenumbers, ranges, numbers of points, interpolations, threads',
     'The tests compare with a stored run of the same code.', [S + 'calc_pkcorr_from_bias_1loop.c', S + 'spectrum_bias_1loop.c', S + 'kernels.c'],
     [('calc_pk_bias_1loop', 'src/calc_pkcorr_from_bias_1loop.c'), ('run_terms_bias_1loop', 'src/spectrum_bias_1loop.c')], TRUST + 'Oracle: McDonald & Roy definitions, angular integrals in extended precision.',
     'property-based testing against an independent derivation', ['Bias1Loop.run_terms'])
prop('C10', 'The one-loop cubic redshift-space correction equals its bispectrum integral',
     'The five columns of the one-loop A correction are the angular decomposition, in powers of the cosine to the line of sight and of the growth rate, of the integral of the tree-level bispectrum of density and velocity fields.',
     ['inputs', 'configurations'], 'all tables, wavenumbers relative to the scales, ranges, numbers of points, interpolations, cutoffs, threads',
     'The test compares with a stored run of the same code at one precision.', [S + 'calc_pkcorr_from_A_1loop.c', S + 'spectrum_A_1loop.c'],
     [('calc_pk_A_1loop', 'src/calc_pkcorr_from_A_1loop.c'), ('run_terms_A_1loop', 'src/spectrum_A_1loop.c')], TRUST + 'Oracle: azimuthal averages derived symbolically from the definition of A, tree bispectra from F2 and G2.',
     'property-based testing against an independent derivation', ['A1Loop.run_terms'])
prop('C11', 'The two-loop cubic correction uses the regularised bispectrum of propagators',
     'The part of the two-loop A correction made of one- and two-point propagators is the angular decomposition of the integral of the regularised bispectrum, each propagator with its one-loop correction and counter term '
     'where the scales are large enough, damped by the displacement dispersions at the three sides.',
     ['inputs', 'configurations'], 'all triangles, loop scales, tables, quadratures, interpolations, cutoffs, threads',
     'These tests do not run in the baseline and compare stored numbers for one cosmology.', [S + 'calc_pkcorr_from_A_2loop_I.c', S + 'bispectrum_1loop.c', S + 'spectrum_A_2loop.c'],
     [('calc_pk_A_2loop_I', 'src/calc_pkcorr_from_A_2loop_I.c'), ('bispectrum_1loop_I', 'src/bispectrum_1loop.c')], TRUST + SUAVE + 'Kernel tolerances as for the propagators.', 'property-based testing against a reference model', ['A2Loop.run_terms'])
prop('C12', 'The Monte Carlo part of the cubic correction integrates the right function',
     'The rest of the two-loop A correction is the integral over two wavevectors of the 222 and 321 terms of the one-loop bispectrum, damped, with the same angular decomposition, over the range set or taken from the current table; '
     'it is added to the first part column by column.',
     ['inputs', 'configurations', 'histories'], 'all points of the integration domain, tables, ranges, wavenumbers, cutoffs, threads, and calculations made before',
     'These tests do not run in the baseline; a Monte Carlo average hides local errors.', [S + 'calc_pkcorr_from_A_2loop_II_III.c', S + 'bispectrum_1loop.c', S + 'spectrum_A_2loop.c'],
     [('calc_pk_A_2loop_II_III', 'src/calc_pkcorr_from_A_2loop_II_III.c'), ('bispectrum_1loop_II_III', 'src/bispectrum_1loop.c')], TRUST + SUAVE, 'property-based testing of the integral on generated points against a reference model', ['A2Loop.run_terms'])
prop('C13', 'The quartic redshift-space correction equals its definition for any spectra',
     'The nine columns of the B correction are the angular decomposition of the product of two velocity-weighted spectra at the two wavevectors of each pair, whether the spectra are linear, one-loop, computed by the library itself or given as tables.',
     ['inputs', 'configurations'], 'all tables (also different ones for density-velocity and velocity-velocity), wavenumbers, ranges, numbers of points, interpolations, threads',
     'The tests compare with stored runs of the same code for one cosmology.', [S + 'calc_pkcorr_from_B.c', S + 'spectrum_B.c', 'pyregpt/pyregpt.py'],
     [('calc_pk_B', 'src/calc_pkcorr_from_B.c'), ('run_terms_B, set_spectra_B', 'src/spectrum_B.c'), ('B1Loop.run_terms, B2Loop.run_terms', 'pyregpt/pyregpt.py')],
     TRUST + 'Oracle: azimuthal averages derived from the definition of B.', 'property-based testing against an independent derivation', ['B1Loop.run_terms', 'B2Loop.run_terms'])

prop('C14', 'Spectra are the regularised, damped combination of their terms at any growth',
     'A spectrum is the published regularised combination of its terms: propagators completed by their counter terms and damped by the displacement dispersion (that of the calculation or one the user gives), '
     'every term raised to the power of the growth factor its perturbative order requires. The combination made in Python and that made by the library agree, and shot noise and bias accessors are the stated multiples of columns.',
     ['inputs', 'configurations'], 'all values of the columns, growth factors, displacement dispersions (number or array), kinds of spectra',
     'The tests combine terms at one growth factor with the default damping.', ['pyregpt/pyregpt.py', S + 'spectrum_1loop.c', S + 'spectrum_2loop.c'],
     [('pk of Spectrum1Loop, Spectrum2Loop, Bias1Loop, A1Loop, A2Loop, B1Loop, B2Loop', 'pyregpt/pyregpt.py'), ('spectrum_1loop, run_spectrum_1loop', 'src/spectrum_1loop.c'), ('spectrum_2loop', 'src/spectrum_2loop.c')],
     TRUST + 'Oracle: the equations of Taruya et al. 2012 written independently.', 'property-based testing against a reference model', ['pk()', 'Bias1Loop accessors', 'PyRegPT.spectrum_1loop'])
prop('C15', 'Interpolated spectra and corrections follow their nodes for any k, mu and growth',
     'The spectrum, or the redshift-space correction as a function of wavenumber, cosine and growth rate, interpolated at any wavenumber is the linear interpolation of its values at the computed ones, '
     'with the powers of cosine and rate of each column, the growth factor and the values beyond the ends the user asks for.',
     ['inputs'], 'all columns, wavenumbers inside, at and beyond the ends, cosines, growth rates and factors', 'The tests call it at a few points of one result.',
     ['pyregpt/pyregpt.py'], [('pk_interp', 'pyregpt/pyregpt.py')], TRUST + 'Oracle: interpolation of the sum over powers, written independently.', 'property-based testing against a reference model', ['pk_interp()'])
prop('C16', 'Settings amount to what was last asked for each calculation, and reach it',
     'After any history of precision settings and cutoffs (of one calculation or of a group), of clears, of new instances, spectra and runs, a calculation gives what it gives in a fresh process '
     'to which the values last asked for it, or the documented defaults, are given in full. A group setting reaches every member of the group, and no other calculation.',
     ['histories', 'configurations'], 'all histories of up to about ten operations over all settings', 'The tests set two settings once, before one run.',
     ['pyregpt/pyregpt.py', S + 'common.c', 'src/*.c set_precision_*'], [('set_precision, set_running_uvcutoff, clear', 'pyregpt/pyregpt.py'), ('set_precision', 'src/common.c')],
     TRUST + SUAVE, 'stateful property-based testing against a model of the settings', ['set_precision', 'set_running_uvcutoff', 'clear', 'run_terms'])
prop('C17', 'Results do not depend on threads, batching, order or contents of memory',
     'The value computed for a wavenumber is the same whatever the number of threads, the other wavenumbers of the batch, their order and repetitions, and whatever fresh memory and the columns to fill contained before.',
     ['inputs', 'schedules'], 'all batches of wavenumbers, 1 to 16 threads, contents of memory', 'The tests run one sorted batch, and compare at percent level.',
     ['src/*.c'], [('parallel loops of run_terms_*', 'src/spectrum_*.c'), ('threadprivate quadratures', 'src/calc_pkcorr_from_*.c')], TRUST + SUAVE + 'Schedules are those the machine gives: no control of the scheduler here (C19 has race detection).',
     'property-based testing with a metamorphic relation (one wavenumber at a time on one thread)', ['run_terms'])
prop('C18', 'Instances do not disturb one another, whatever their history',
     'The columns of an instance are those it would have if nothing else existed: other instances, spectra given to them, runs, copies and deletions, and arrays of the user overwritten after they were given, change nothing.',
     ['histories'], 'all histories of up to about fifteen operations over up to four instances of any kind', 'The tests use one instance at a time.',
     ['pyregpt/pyregpt.py', S + 'common.c'], [('set_pk_lin, set_terms, run_terms, copy, deepcopy', 'pyregpt/pyregpt.py'), ('pk_lin and the pointers terms_*', 'src/*.c')], TRUST + SUAVE,
     'stateful property-based testing, differential against an undisturbed process', ['columns of every instance', 'find_pk_lin', 'calc_running_sigmad2'],
     [('pk_lin', 'the one linear spectrum of the library', 'src/common.c'), ('terms_*', 'where results are written', 'src/spectrum_*.c')])
prop('C19', 'No calculation reads or writes memory it should not, or races',
     'Whatever the tables, wavenumbers, settings, threads and order of calls, the library accesses only the arrays it was given (in their size and lifetime) and its own, reads nothing before it is written, '
     'performs no undefined operation, frees what it allocates, and its threads never access the same memory unsynchronised.',
     ['inputs', 'histories', 'schedules'], 'all scripts of about ten library calls on arrays of exact size', 'Overruns, reads of freed memory and races rarely change the values tests compare.',
     ['src/*.c'], [('allocation and release of quadratures and spectra', 'src/common.c, src/spectrum_B.c'), ('find_pk', 'src/common.c'), ('threadprivate', 'src/*.c')],
     TRUST + SUAVE + 'Races are found by ThreadSanitizer on an OpenMP runtime of our own (vf/san/gomp.c); leaks by growth over repeated runs.', 'property-based testing (generated call sequences) under AddressSanitizer, UndefinedBehaviorSanitizer, MemorySanitizer and ThreadSanitizer', ['the C library'])

prop('C20', 'Columns of an instance are what the history of operations on it amounts to',
     'After any history of creations, assignments, selections, masks, writes to rows, removals, copies, deep copies, replacement of NaN and rescalings of instances of any class, each instance has the columns, shapes, '
     'length and attributes that the operations on it (and on those it shares its columns with) amount to. A deep copy shares nothing; what cannot be done raises an error and changes nothing.',
     ['histories'], 'all histories of up to about fifteen operations on up to three instances of any class', 'The tests never slice, copy or change an instance.',
     ['pyregpt/pyregpt.py'], [('class Terms, PowerSpectrum and others', 'pyregpt/pyregpt.py')], TRUST + 'Oracle: a dict of arrays per instance.', 'stateful property-based testing against a model', ['columns, shape, size, len, indexing, copy, deepcopy, rescale'])
prop('C21', 'Padding keeps what an instance had and fills the rest as asked',
     'Padding an instance with lower, higher or intermediate wavenumbers keeps the rows it had where they were, in order, and gives the others the value of the mode asked for (constant, edge, interpolation, computed by the library, user values). '
     'Nothing else changes, and the result can be used (run, padded again) as any other instance.',
     ['inputs', 'histories'], 'all instances, wavenumbers below, between and above, modes and values', 'The tests do not pad.',
     ['pyregpt/pyregpt.py'], [('pad_k', 'pyregpt/pyregpt.py')], TRUST + 'Oracle: an independent statement of each mode.', 'property-based testing against a reference model', ['pad_k'])
prop('C22', 'Verbosity decides what is printed and written, and changes nothing else',
     'Nothing is printed or written while quiet was the last verbosity asked for; in other modes what is documented is printed, and files are written in debug mode only. '
     'The columns are the same whatever the verbosity.',
     ['histories', 'configurations'], 'all histories of about eight operations over all verbosities', 'The tests do not look at what is printed.',
     ['pyregpt/pyregpt.py', S + 'common.c', 'src/*.c'], [('set_verbosity', 'pyregpt/pyregpt.py, src/common.c'), ('print calls of run_terms_*', 'src/*.c')], TRUST + SUAVE,
     'stateful property-based testing, differential against the same history in quiet mode', ['standard output and error, files of the working directory, columns'])
prop('C23', 'The smooth spectrum is that of Eisenstein and Hu (1998) for the cosmology given',
     'The spectrum without wiggles is k to the tilt times the square of the zero-baryon transfer function of Eisenstein and Hu (1998, eqs. 26 and 28-31) of the cosmology given, at any wavenumber and growth. '
     'Its amplitude is the one given, or that of the spectrum it is matched to; it does not depend on how, how often or for which other wavenumbers it is computed.',
     ['inputs', 'configurations'], 'all cosmologies in the range of the fit, tilts, wavenumbers, amplitudes', 'The tests compare one cosmology with stored values at the percent level.',
     ['pyregpt/pyregpt.py'], [('SpectrumNoWiggle', 'pyregpt/pyregpt.py')], TRUST + 'Oracle: the published equations in 30-digit arithmetic.', 'property-based testing against a reference model (mpmath)', ['SpectrumNoWiggle'])
prop('C24', 'Dispersions are the integrals over the wavenumbers of the instance',
     'The dispersion of displacements, and of the density in spheres of any radius (sigma 8 is that of radius 8), is the square root of the trapezoidal integral over the wavenumbers of the instance of its spectrum at the growth asked for, '
     'with the weight of the definition.',
     ['inputs'], 'all spectra, growth factors, dispersions and radii (numbers or arrays)', 'The tests compute one value.',
     ['pyregpt/pyregpt.py'], [('sigmav, sigmar, sigma8', 'pyregpt/pyregpt.py')], TRUST + 'Oracle: sums in extended precision.', 'property-based testing against a reference model', ['sigmav, sigmar, sigma8'])
prop('C25', 'Multiplying the spectrum, or changing the units of k, rescales results',
     'Multiplying the linear spectrum by a constant multiplies each column by the power of it that its order requires, and is the same as rescaling the results. '
     'Expressing all wavenumbers in another unit changes each column by the power of the unit its dimension requires.',
     ['inputs', 'configurations'], 'all tables, wavenumbers and settings, constants over several orders of magnitude', 'The tests use one amplitude and one unit.',
     ['src/*.c', 'pyregpt/pyregpt.py'], [('integrands and normalisations', 'src/*.c'), ('rescale', 'pyregpt/pyregpt.py')], TRUST + SUAVE, 'property-based testing with metamorphic relations', ['run_terms, rescale'])
prop('C26', 'Calculations that have something in common agree on it',
     'For one spectrum and one set of settings: exchanging the two fields exchanges their propagators and keeps the rest, auto and cross spectra obey the Cauchy-Schwarz inequality, columns that one-loop and two-loop calculations share are equal, '
     'and two-loop corrections tend to the one-loop ones when the amplitude of the spectrum tends to zero.',
     ['inputs', 'configurations'], 'all tables, wavenumbers, settings, pairs of fields', 'The tests never compare two calculations with each other.',
     ['src/*.c', 'pyregpt/pyregpt.py'], [('run_terms_*', 'src/*.c'), ('run_terms', 'pyregpt/pyregpt.py')], TRUST + SUAVE, 'property-based testing with metamorphic relations', ['run_terms, pk'])
prop('C27', 'Arrays may be given in any form, and are left as they were',
     'Lists, tuples, integers, single precision, other byte orders, strided, reversed, transposed, read-only arrays and views give the results of the same numbers in plain arrays, for every function and calculation. '
     'The arrays of the user are never changed, and no result refers to memory of another.',
     ['inputs'], 'all functions and calculations, all forms of each array', 'The tests give contiguous double-precision arrays.',
     ['pyregpt/pyregpt.py'], [('new_double and the pointers given to the library', 'pyregpt/pyregpt.py')], TRUST, 'property-based testing with a metamorphic relation (the same numbers in a plain array)', ['every function taking arrays'])
prop('C28', 'Default settings give the integrals of perturbation theory to about 1 percent',
     'For a smooth spectrum tabulated densely and wide enough, the results obtained with every setting left at its default are the integrals of perturbation theory over all couplings of modes, within about one percent of what is added up. '
     'Asking for more points brings them closer, or changes little.',
     ['inputs'], 'all smooth spectra with a turnover, with or without wiggles, wavenumbers from 0.001 to 2 h/Mpc', 'The tests have one cosmology, with stored runs of the same code.',
     ['src/*.c'], [('default precisions and ranges', 'src/*.c')], TRUST + 'Oracle: integrals in bipolar coordinates of the spectrum as a function; for two loops, runs with more points. ' + SUAVE,
     'property-based testing against independent integrals', ['run_terms'])

NOT_APPLICABLE = []


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['title']
            assert p['statement'].count('. ') <= 2, p['pid']
            f.write(json.dumps({'id': p['pid'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                                'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                                                                        'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']],
                                                                        'observe_at': p['observe'], 'hook_needed': p['hook']}}) + '\n')
    checks = [{'property': p['pid'], 'quick_cmd': './check.sh %s quick' % p['pid'], 'thorough_cmd': './check.sh %s thorough' % p['pid'],
               'evidence_file': 'evidence/%s.json' % p['pid'], 'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']} for p in PROPS]
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': NOT_APPLICABLE}, f, indent=1)
        f.write('\n')


main()
