#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run after editing; both are committed)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PK, HMI, HOD, IA, ADD, BNL = (f'src/onepower/{n}.py' for n in ('pk', 'hmi', 'hod', 'ia', 'add', 'bnl'))
POI, FRW = 'src/onepower/utils/poisson.py', 'src/onepower/utils/framework.py'
COS = 'cosmosis_modules/onepower_interface.py'

# id, title, statement, over, quantifier, why tests cannot, files, mechanisms, technique, note
P = []


def add(pid, title, statement, over, text, why, files, mech, technique, note):
    P.append((pid, title, statement, over, text, why, files, mech, technique, note))


REFNOTE = ('Random search over generated models against an independent implementation of the documented formulae (agreement to 1e-6 of each value, '
           '5e-5 for alignments). Trusts halomod, hmf, astropy, scipy and numpy; analytic transfer functions stand in for CAMB.')

add('C01', 'Results after updates equal those of a freshly built model',
    'After any history of parameter updates and of reading results in between, every result of a model (spectra, halo, galaxy and alignment quantities) '
    'equals the result of a model freshly built with the current parameters. This holds for the matter, galaxy and alignment model, for the combined '
    'spectra of two populations and for the alignment and non-linear bias classes, whichever option an update switches and also when an update goes '
    'back to earlier values.',
    ['histories', 'configurations', 'inputs'],
    'all histories of updates (any parameter, in any order, several at a time) interleaved with reads of any results',
    'Tests update one or two parameters once; the caches make the result depend on which results were read before and which options were on then.',
    [PK, HMI, HOD, IA, ADD, BNL, FRW],
    [('parameters and cached quantities', HMI), ('cached quantities are dropped when an option changes', FRW)],
    'model-based history generation against a fresh model',
    'Random histories of up to six (thorough: ten) updates with reads, and every parameter on its own in several contexts. Trusts that a fresh model is '
    'right (other properties).')
add('C02', 'Reading, cloning and building never disturb inputs or other models',
    'Results do not depend on the order or number of times they are read; a model never modifies the arrays and dictionaries its caller passed in, and '
    'clones or other models built from the same arguments never influence one another.',
    ['histories', 'inputs', 'configurations'],
    'all models, all orders and repetitions of reads, all interleavings of two models that share arguments',
    'Tests read few results once, on one model, and never look at the arguments afterwards.',
    [PK, HMI, HOD, IA, ADD], [('copies of dictionaries', PK), ('spectra computed without in-place changes of shared arrays', PK)],
    'randomised operation sequences with snapshots of arguments, differential against a separately built model',
    'Random read orders, clones and shared arguments; results to 1e-9, arguments bit by bit.')
add('C03', 'Halo ingredients follow the chosen models at each redshift',
    'For every cosmology, mass, redshift and wavenumber grid and every choice of mass function, bias, concentration, profile, mass definition, transfer and '
    'growth model, the halo quantities (mass function, bias, peak height, concentration, radii, normalised profiles of centrals and satellites, densities, '
    'power spectra) are those of the chosen model evaluated at each redshift, with the concentration normalisation and bloating applied. With the '
    'HMCode ingredients they are those of Mead et al. 2020 instead.',
    ['inputs', 'configurations'], 'all cosmologies, grids, model names and options',
    'Tests check shapes and a few values for one cosmology and the default models.',
    [HMI], [('halo models per redshift', HMI), ('ingredients of Mead et al.', HMI)],
    'differential testing against a reference built directly on halomod',
    REFNOTE)
add('C04', 'Growth and spherical collapse of the HMCode ingredients are accurate',
    'For every cosmology with dark energy (w0, wa), radiation and neutrinos, the growth factor, its integral, the collapse threshold and the virial '
    'overdensity used by the HMCode ingredients solve the linear growth equation and the fitting formulae of Mead (2017) at every redshift.',
    ['inputs'], 'all cosmologies and redshifts',
    'Tests compare a single cosmology with stored numbers.',
    [HMI], [('growth equation and collapse fits', HMI)],
    'differential testing against independent integrations',
    'Random cosmologies; 1e-5 against the same numerical set-up, and 2e-3 to 5e-3 against an accurate integration.')
add('C05', 'The matter power spectrum is the halo model of the chosen mode',
    'For every model the matter power spectrum (one-halo, two-halo, total) is the documented halo-model sum for the chosen non-linear mode: integrals over '
    'the mass function with the correction for mass below the lowest halo mass, the one- and two-halo truncation, and in HMCode mode the damped '
    'linear power, its own truncations and the smoothed transition.',
    ['inputs', 'configurations'], 'all cosmologies, grids, halo options, modes, truncations and external power spectra',
    'Tests check that spectra exist and have the right shape in a few modes.',
    [PK, HMI], [('matter profiles, integrals, truncations', PK)], 'differential testing against a reference halo model', REFNOTE)
add('C06', 'Baryonic feedback enters the matter profile as documented',
    'With feedback ingredients the matter profile of the one-halo terms splits matter into dark matter, gas that depends on halo mass and stars: after '
    'Mead et al. 2020 (temperature parameter, redshift), or with stars from the galaxies of the occupation model and the gas pivot mass; without feedback none of these '
    'parameters changes any spectrum.',
    ['inputs', 'configurations'], 'all feedback parameters, galaxies, modes and redshifts',
    'Tests evaluate one feedback model at its defaults.',
    [PK, HMI, HOD], [('gas and stellar fractions', PK)], 'differential testing against a reference halo model', REFNOTE)
add('C07', 'The galaxy-galaxy spectrum and bias follow the halo model',
    'For every occupation model, set of galaxy bins and Poisson model, the galaxy power spectrum of each bin (one-halo, two-halo, total) and its linear '
    'bias are the documented sums over central-satellite and satellite-satellite pairs and over the large-scale terms of centrals and satellites.',
    ['inputs', 'configurations'], 'all occupation models, bins, Poisson parameters, modes and ingredients',
    'Tests check shapes for one bin of one occupation model.',
    [PK, POI, HOD], [('galaxy profiles, pair terms', PK), ('Poisson models', POI)], 'differential testing against a reference halo model', REFNOTE)
add('C08', 'The galaxy-matter spectrum and bias follow the halo model',
    'For every occupation model, set of galaxy bins and matter ingredient (feedback, point mass), the galaxy-matter power spectrum of each bin (one-halo, '
    'two-halo, total) and its linear bias are the documented sums over centrals and satellites.',
    ['inputs', 'configurations'], 'all occupation models, bins, modes and ingredients',
    'Tests check shapes for one bin of one occupation model.',
    [PK, HOD], [('galaxy and matter profiles', PK)], 'differential testing against a reference halo model', REFNOTE)
add('C09', 'The alignment spectra follow the halo model of alignments',
    'The matter-intrinsic, intrinsic-intrinsic and galaxy-intrinsic power spectra of each bin are the documented combinations of central and satellite '
    'alignments, with their mass dependence, sign, truncation and satellite shear profile, in every non-linear mode including the one of Fortuna et al.',
    ['inputs', 'configurations'], 'all alignment parameters, occupation models, modes and ingredients',
    'Tests check shapes for the default alignment parameters.',
    [PK, IA], [('alignment profiles and terms', PK), ('satellite shear', IA)], 'differential testing against a reference halo model', REFNOTE)
add('C10', 'Beyond-linear halo bias enters every spectrum consistently',
    'In the non-linear bias mode every two-halo term gains the double mass integral of the given beta(k, M1, M2, z), including the terms for mass below '
    'the lowest halo mass, for the matter, galaxy and alignment spectra alike; with beta identically zero all spectra are those without the '
    'correction and without two-halo truncation.',
    ['inputs', 'configurations'], 'all beta arrays (constant or varying with redshift), models and bins',
    'Tests run the mode once and check the shape.',
    [PK], [('non-linear bias integrals', PK)], 'differential testing and the beta = 0 limit', REFNOTE)
add('C11', 'Power spectra supplied from outside are used as documented',
    'Linear and non-linear matter power given by the caller replace the internal ones wherever these enter; the response option multiplies every '
    'galaxy and alignment spectrum by the ratio of non-linear to halo-model matter power and delivers the former as matter spectrum; the effective power of the '
    'Fortuna mode interpolates between linear and non-linear power; dewiggling damps only the wiggles.',
    ['inputs', 'configurations'], 'all supplied spectra, modes, effective fractions and models',
    'Tests use internal spectra only.',
    [PK], [('linear, non-linear and effective power', PK)], 'differential testing against a reference halo model', REFNOTE)
add('C12', 'Occupation numbers are those of the chosen occupation model',
    'For each occupation model, parameters (shared or one per bin), observable bins from arrays or from a file, and assembly bias, the mean '
    'numbers of centrals and satellites per halo are the documented functions of halo mass, and conditional observable functions integrate to them; centrals stay '
    'between 0 and 1 and numbers never turn negative.',
    ['inputs', 'configurations'], 'all occupation models, parameters, bins and halo populations',
    'Tests evaluate default parameters on one mass grid.',
    [HOD], [('occupation models', HOD)], 'differential testing on synthetic halo populations',
    'Random models on synthetic halo populations against independent formulae (1e-6), and range invariants.')
add('C13', 'Galaxy densities, fractions, masses and biases are population averages',
    'Number densities, central and satellite fractions, mean halo masses and linear biases of every galaxy bin are averages of the occupation over the '
    'halo mass function, at the bin\'s own redshifts and brought to the redshifts of the model; units of the observable are converted as requested.',
    ['inputs', 'configurations'], 'all bins (covering, overlapping or missing the model redshifts), occupation models and populations',
    'Tests evaluate one bin that coincides with the model redshifts.',
    [HOD], [('averages over the mass function', HOD)], 'differential testing on synthetic halo populations',
    'Random models on synthetic halo populations against independent averages (1e-6).')
add('C14', 'The observable function (luminosity or stellar mass) is consistent',
    'The predicted observable functions of centrals, satellites and all galaxies are the conditional observable functions averaged over the halo mass function, on '
    'the requested observables and redshifts, and integrate to the number densities of the bins.',
    ['inputs', 'configurations'], 'all parameters of the conditional observable functions, bins, units and redshifts',
    'Tests check the shape at default parameters.',
    [HOD, PK], [('observable functions', HOD)], 'differential testing and integration back to number densities',
    'Random models, directly and through the full model; 1e-6 against independent formulae.')
add('C15', 'Bins, redshifts and wavenumbers do not influence one another',
    'The results of a galaxy bin, a redshift or a wavenumber do not depend on which other bins, redshifts or wavenumbers are computed with it, nor on the '
    'order of the bins: a model of a selection delivers the selection of the results (the first wavenumber being kept; alignments that depend on luminosity '
    'excepted, which take the galaxies between neighbouring redshifts).',
    ['inputs', 'configurations'], 'all models and all selections or reorderings of their bins, redshifts and wavenumbers',
    'Tests never compare two grids; broadcasting mistakes give plausible arrays of the right shape.',
    [PK, HMI, HOD, IA], [('arrays over bin, redshift, wavenumber and mass', PK)], 'metamorphic testing: selections of bins, redshifts, wavenumbers',
    'Random models and selections, to 1e-7.')
add('C16', 'Spectra obey sum rules, signs and scaling laws',
    'Totals are sums of the one- and two-halo parts (HMCode matter excepted, where the total is never below a part); matter and galaxy spectra are finite and, '
    'without the non-linear bias correction, not negative; central and satellite fractions add up to one. Two-halo terms are proportional to the linear power, the galaxy one-halo term is affine in the '
    'Poisson parameter, alignment spectra scale as the amplitudes, and the response multiplies all galaxy and alignment spectra alike.',
    ['inputs', 'configurations'], 'all models whose bins lie within the tabulated redshifts and whose mass grid is fine enough for the quadrature',
    'Tests check shapes and a few values.',
    [PK, HOD, IA], [('spectra', PK)], 'metamorphic relations between models, invariants within each',
    'Random models and scale factors; relations to 1e-7. Independent of the reference model.')
add('C17', 'Alignment amplitudes follow luminosity, mass or neither as requested',
    'The alignment amplitudes of centrals and satellites at each redshift are the given amplitude, multiplied for a luminosity dependence by the mean of the '
    '(single or broken) power law of luminosity over the galaxies of the catalogue in that redshift bin; redshifts without galaxies have zero amplitude.',
    ['inputs', 'configurations'], 'all catalogues, pivots, slopes and evenly spaced redshifts',
    'Tests use one small catalogue file, not bin edges, empty bins or broken power laws.',
    [IA], [('luminosity distribution and amplitudes', IA)], 'differential testing with generated catalogues',
    'Random catalogues, including galaxies on bin edges and empty bins; 1e-8.')
add('C18', 'The satellite shear profile is the multipole sum of its transform',
    'The Fourier-space satellite alignment is the modulus of the sum over even multipoles of angular factors times the spherical Bessel transform of the '
    'truncated or untruncated, capped shear profile weighted by the halo density, for each mass and redshift, and is interpolated to any wavenumbers.',
    ['inputs', 'configurations'], 'all slopes, multipoles, halo grids, both transform methods and output wavenumbers',
    'Tests compare one mass grid with stored values.',
    [IA], [('transforms and angular factors', IA)], 'differential testing against the formulae and direct quadrature',
    'Random halos; 1e-6 against the same transforms coded independently, 10 % of the maximum against direct quadrature.')
add('C19', 'Combined spectra weight two populations by their fractions',
    'Combined spectra are those of the two populations, interpolated in redshift and logarithmic wavenumber (or extrapolated, or filled, as requested) and weighted by '
    'the fraction and its complement: to the first power for galaxy-matter and matter-intrinsic, squared for galaxy and intrinsic auto- and cross-spectra, and not at all for matter. Only requested '
    'spectra and parts are delivered.',
    ['inputs', 'configurations'], 'all pairs of populations, fractions, output redshifts and wavenumbers, in any order',
    'Tests combine two equal populations once.',
    [ADD], [('interpolation and weights', ADD)], 'differential testing against separately built models',
    'Random pairs; 1e-8 against spectra of separately built models combined independently.')
add('C20', 'The non-linear bias emulator is driven inside its range and read right',
    'The emulator of halo spectra only ever sees cosmologies clipped to its range, with the amplitude that reproduces the given sigma_8 or A_s, and '
    'beta(k, M1, M2) is the smoothed ratio of halo to linear spectra less its large-scale value, symmetric in the masses, zero on large and very small scales and '
    'constant beyond the emulated masses.',
    ['inputs', 'configurations'], 'all cosmologies inside and outside of the range, mass, redshift and wavenumber grids',
    'Tests use one cosmology and check the shape.',
    [BNL, PK], [('emulator set-up, clipping, smoothing, interpolation', BNL)], 'differential testing with a stand-in emulator and the real one',
    'A stand-in emulator records what it is given (19 of 20 cases); the rest use the real one. 1e-6 of the maximum.')
add('C21', 'Invalid options are refused and leave no trace',
    'An unknown option, model or argument, an array of the wrong shape, a missing pivot, slope or catalogue, or a combination that is not implemented is '
    'refused with an exception, at the latest when a result that needs it is asked for, both when a model is built and when it is updated; an update refused '
    'for an unknown option leaves all results as they were.',
    ['inputs', 'histories', 'configurations'], 'all valid models spoilt in one way, when built or by an update',
    'Tests try a few invalid values on construction only.',
    [PK, HMI, IA, POI, BNL], [('validation of parameters', PK)], 'fault injection into generated valid models',
    'Random valid models with one of 18 kinds of fault.')

add('C22', 'The CosmoSIS modules refuse faulty input and recover from it',
    'An option or parameter that is needed but missing, an unknown name of a model, mode, transform, unit or observable, a number of redshifts other than that of the bins, '
    'or tabulated power that does not cover the redshifts of the model makes the CosmoSIS modules raise (never deliver results), and evaluations that follow a refused one '
    'through the same set-up deliver what a freshly built model does.',
    ['inputs', 'configurations', 'histories'], 'all valid pipelines with one fault in the options or the values, before or after valid evaluations',
    'The modules have no tests.',
    [COS, 'cosmosis_modules/convert_theta/convert_theta.py'] + [f'cosmosis_modules/pk_to_real/{n}.py' for n in ('pk_to_real', 'pk_to_real_ogata', 'correct_cosmo_real')],
    [('setup and execute', COS)], 'fault injection into generated pipelines, and differential testing of the evaluation that follows',
    'Random pipelines with one of 24 kinds of fault; the valid evaluation that follows a fault is compared to 1e-8.')
add('C23', 'The CosmoSIS interface computes what its options and values describe',
    'For every set of options and every sequence of evaluations through one set-up, the values the interface writes (power spectra on the wavenumbers and '
    'redshifts of the linear power, halo, galaxy and observable sections, biases, with the section names and bin suffixes asked for) are those of a model '
    'freshly built with the parameters in the block, whatever earlier evaluations did; values given in the block are not changed.',
    ['inputs', 'configurations', 'histories'], 'all options, blocks and sequences of evaluations (CosmoSIS itself replaced by a stand-in for its data block)',
    'The interface has no tests: CosmoSIS is not a dependency of the test suite.',
    [COS], [('setup and execute', COS)], 'differential testing of pipelines against fresh models',
    'Random options with one to three evaluations each; 1e-8. Trusts Spectra (other properties), replaces the emulator by a stand-in.')
add('C24', 'Projected observables are the transforms of the power spectra',
    'The projected correlation function and excess surface density of every bin are the Hankel transforms (order 0 and 2) of the tabulated power spectra, '
    'averaged over the redshift distribution of the bin, at the returned separations, which lie evenly in logarithm within the range asked for; the excess surface density of pk_to_real is '
    'in units of the mean density.',
    ['inputs', 'configurations'], 'all spectra (positive or negative), redshift distributions, numbers of points, ranges and section names',
    'These modules have no tests.',
    [f'cosmosis_modules/pk_to_real/{n}.py' for n in ('pk_to_real', 'pk_to_real_ogata', 'pyfftlog')],
    [('transforms and projection', 'cosmosis_modules/pk_to_real/pk_to_real.py')], 'analytic transform pairs with random parameters',
    'Random sums of analytic pairs; 2e-3 (1e-2 for the Ogata module) of the largest value nearby, scaling to 1e-6.')
add('C25', 'Angles and projected observables convert between units and cosmologies',
    'Angles converted between units stay the same angles, in any number of steps, with their unit recorded. Projected observables of a bin moved from the cosmology of '
    'the data to that of the run have their separations multiplied by the ratio of comoving distances (in Mpc/h), correlation functions by the inverse ratio of expansion rates '
    'and surface densities by the inverse ratio of critical surface densities (in h units).',
    ['inputs', 'configurations'], 'all units, angles, cosmologies and redshifts',
    'These modules have no tests.',
    ['cosmosis_modules/convert_theta/convert_theta.py', 'cosmosis_modules/pk_to_real/correct_cosmo_real.py'],
    [('unit conversion', 'cosmosis_modules/convert_theta/convert_theta.py'), ('correction factors', 'cosmosis_modules/pk_to_real/correct_cosmo_real.py')],
    'differential testing against independent distances',
    'Random angles, cosmologies and bins; 1e-12 and 1e-6. One open finding (separations shared by several bins).')


def main():
    only = [p for p in P if os.path.exists(os.path.join(HERE, 'pbt', 'props', p[0].lower() + '.py'))]
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for pid, title, stmt, over, text, why, files, mech, _, _ in P:
            assert len(title) <= 80, (pid, len(title))
            f.write(json.dumps(dict(id=pid, title=title, statement=stmt, quantifier=dict(over=over, text=text), why_tests_cant=why,
                                    anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                                                 observe_at=['public attributes of the classes in the files listed']))) + '\n')
    m = dict(version=1, setup_cmd='./setup.sh', checks=[
        dict(property=p[0], quick_cmd=f'./run.sh {p[0]}', thorough_cmd=f'VERIF_TIER=thorough ./run.sh {p[0]}',
             evidence_file=f'evidence/{p[0]}.json', technique='property-based testing: ' + p[8], level='exploration', level_note=p[9])
        for p in only], not_applicable=[dict(property=p[0], reason='no check yet') for p in P if p not in only])
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
