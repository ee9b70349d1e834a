"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = 'src/kcorrect/fitter.py'
K = 'src/kcorrect/kcorrect.py'
R = 'src/kcorrect/response.py'
T = 'src/kcorrect/template.py'
U = 'src/kcorrect/utils.py'
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, bounds, claim=True):
    P.append((dict(id=id, title=title, statement=statement,
                   quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                                observe_at=observe, hook_needed=None)), bounds, claim))


prop('C01', 'Fits are the nonnegative least-squares optimum',
     'The coefficients returned for an object minimise, over all nonnegative combinations of the templates, the inverse-variance weighted squared difference between observed and model fluxes at its redshift; they are never negative. '
     'Bands with zero inverse variance have no influence, a solver iteration limit is answered by retrying and not by a wrong answer, and objects outside the redshift range get all-zero coefficients.',
     ['inputs', 'configurations', 'fault_sequences'],
     'every redshift, flux and inverse variance (zeros included), every design matrix; scalars and arrays; first-attempt solver failures',
     'tests fit a handful of noiseless template spectra and compare coefficients; optimality is a statement over all fluxes, weights and redshifts',
     [F], [('weighted design matrix and data', F + ':_fit_coeffs'), ('retry with a larger iteration limit', F + ':_fit_coeffs'),
           ('dispatch of scalars and arrays', F + ':fit_coeffs')],
     ['Fitter.fit_coeffs(), Kcorrect.fit_coeffs()'],
     '1-3 bands, 1-3 templates, 3 grid redshifts with arbitrary entries, 1-2 objects')

prop('C02', 'Each object is treated independently of the rest of its batch',
     'The results for row i of a batch equal those obtained for that object alone, and permuting the objects permutes the results. '
     'This holds for fits, reconstructions, K-corrections, absolute magnitudes and derived quantities, including batches where other rows are out of range, have no data or have zero coefficients.',
     ['inputs', 'histories'], 'every batch content and order; batches of up to three objects',
     'tests compare batches of identical objects; leakage between rows shows only for particular mixtures of rows',
     [F, K], [('loop over objects', F + ':fit_coeffs'), ('einsum over objects', F + ':_reconstruct'),
              ('masks over objects', K + ':kcorrect, absmag, derived')],
     ['fit_coeffs(), reconstruct(), kcorrect(), absmag(), derived()'],
     'batches of 2-3 objects, 2 bands, 2 templates, 2-3 grid redshifts')

prop('C03', 'K-correction equals its definition for every band pair and shift',
     'The K-correction of an output band is -2.5 log10 of the model flux in its mapped input band at the object\'s redshift over the model flux in the output band, blueshifted by the band shift, at redshift zero. '
     'Objects with all-zero coefficients have zero K-correction in every band and do not disturb the others; a band observed at redshift z and itself shifted by z has exactly -2.5 log10(1+z).',
     ['inputs', 'configurations'], 'every redshift, band shift, coefficient vector and response projection; default, permuted, longer, shorter and disjoint output band sets',
     'tests use a few redshifts with one spectral shape; the identity must hold for all shapes, shifts and band maps',
     [K, F], [('ratio of reconstructions through imap', K + ':kcorrect'), ('band shift normalisation', F + ':_reconstruct')],
     ['Kcorrect.kcorrect()'], '2 input and 1-3 output bands, 2 templates, 3 grid redshifts with arbitrary entries, 1-2 objects')

prop('C04', 'Reconstructed fluxes are the design matrix applied at the shifted redshift',
     'Reconstructed fluxes equal the piecewise-linear interpolation in redshift of the template projections, evaluated at (1+z)(1+band shift)-1, applied to the coefficients and divided by (1+band shift), for input and output bands alike. '
     'They are linear in the coefficients, and a shifted redshift outside the grid is refused with an error and never extrapolated.',
     ['inputs', 'configurations'], 'every redshift, band shift, coefficient vector; grids of several sizes and ranges',
     'tests check a few redshifts on a fine grid within loose tolerances; interpolation and range behaviour must hold everywhere',
     [F, K], [('interpolation and band shift', F + ':_reconstruct'), ('interpolator', F + ':_interpolate_Amatrix')],
     ['reconstruct(), reconstruct_out()'], '1-3 bands, 1-3 templates, 2-5 grid redshifts, 1-2 objects')

prop('C05', 'Absolute magnitudes equal m - DM - K, or the no-value marker',
     'An absolute magnitude is the apparent magnitude of the mapped input band minus the distance modulus minus the K-correction whenever flux and inverse variance are positive, and -9999 otherwise (NaN data included). '
     'The optional reconstructed magnitudes, one-sigma limits and K-corrections are added in their documented order, follow the same formula from model fluxes and errors, and are -9999 for objects with all-zero coefficients; a distance given by the user replaces the cosmology\'s.',
     ['inputs', 'configurations'], 'every flux (negative, zero, NaN), inverse variance, redshift, distance, cosmology, coefficient vector and combination of options',
     'tests run one option combination on positive fluxes; the formula has sign, zero and NaN cases per band and eight option combinations',
     [K], [('masks and formula', K + ':absmag')], ['Kcorrect.absmag()'],
     '2 input and 1-3 output bands, 2 templates, 1-2 objects')

prop('C06', 'Derived masses and ratios follow from coefficients and distance',
     'Stellar mass and integrated star formation are the coefficient-weighted template values times the distance factor; metallicity and birth-rate fractions are mass-weighted ratios independent of distance; mass-to-light ratios are mass over solar luminosities in each output band. '
     'Objects with all-zero coefficients yield zeros, never NaN, and a response without a solar magnitude gives mass per maggy.',
     ['inputs', 'configurations'], 'every coefficient vector, template property, redshift, distance, cosmology, band shift and output band set',
     'tests check one template set at few redshifts; formula and degenerate objects must hold for all',
     [K], [('distance factor and dot products', K + ':derived')], ['Kcorrect.derived()'],
     '2 input and 1-3 output bands, 2 templates, 1-2 objects')

prop('C07', 'Monte Carlo samples are faithful perturbations, fitted independently',
     'Each sample adds an independent unit-normal deviate times one sigma to every band that has data, leaves bands without data alone, and its coefficients are the optimum for its own fluxes; the central fit equals the ordinary fit. '
     'Monte Carlo absolute magnitudes and derived quantities equal, sample by sample, those of the sample\'s own fluxes and coefficients.',
     ['inputs', 'configurations'], 'every flux, inverse variance, redshift and noise draw; scalars, one-element and longer arrays; one to three samples',
     'tests look at shapes and rough scatter of random draws; the relation is per draw, band, object and sample',
     [F, K], [('sample loop', F + ':_fit_coeffs'), ('per-sample evaluation', K + ':absmag_mc, derived_mc')],
     ['fit_coeffs(mc=...), absmag_mc(), derived_mc()'], '2 bands, 2 templates, 1-2 objects, 1-3 samples')

prop('C08', 'The AB correction is applied exactly once where it should be',
     'Native SDSS fluxes are multiplied by 10^(-0.4 dm) and inverse variances divided by its square, band by band in any array shape; instruments correct only their SDSS bands. '
     'An object with the correction switched on gives for native data exactly what one with it switched off gives for corrected data, in fits, asinh-magnitude fits and absolute magnitudes.',
     ['inputs', 'configurations', 'histories'], 'every flux, inverse variance, offset set and redshift; both instruments; correction on and off',
     'tests compare with the same few numbers; double or missing correction shows only along chains of calls',
     [U, K, F], [('flux correction', U + ':sdss_ab_correct'), ('per-instrument correction', K + ':to_ab'), ('where it is applied', F + ':_process_inputs')],
     ['sdss_ab_correct(), to_ab(), fit_coeffs(), fit_coeffs_asinh(), absmag()'], '5 or 10 bands, 2 templates, 1-2 objects')

prop('C09', 'Asinh magnitudes convert to the fluxes they encode',
     'Converting asinh magnitudes gives 2 b sinh(-ln b - 0.4 ln10 m) per band with extinction removed, and inverse variances that are the squared derivative\'s propagation of the magnitude errors including extinction. '
     'Brighter magnitudes give more flux, the softening magnitude gives none, and bright objects follow the ordinary magnitude scale.',
     ['inputs'], 'every magnitude, error and extinction; one- and two-dimensional arrays, with and without errors and extinction',
     'tests check round numbers; transcendental identity over all magnitudes and band parameters',
     [U], [('conversion', U + ':sdss_asinh_to_maggies')], ['sdss_asinh_to_maggies()'], '5 bands, 1-2 objects')

prop('C10', 'Error floors only ever reduce weight, to exactly the floor',
     'Applying a fractional error floor replaces each positive inverse variance by the smaller of itself and 1/(floor x flux)^2 and leaves zeros alone. '
     'It never increases an inverse variance, applying it twice changes nothing more, and no flux, negative or zero, gives NaN or a false weight.',
     ['inputs'], 'every floor, flux (zero and negative), inverse variance; one- and two-dimensional, integer and float arrays',
     'tests check a handful of values around the threshold', [U], [('floor', U + ':error_floor')], ['error_floor()'],
     '1-3 bands, 1-2 objects')

prop('C11', 'Calls leave their inputs alone and do not remember earlier calls',
     'No calculation changes the arrays, lists or defaults given to it, and its result depends only on its arguments and on the object it is called on, not on earlier calls with other data, on earlier failures, or on other objects.',
     ['inputs', 'histories'], 'every pair of calls and arguments; interleavings of two objects with different bands, grids and templates',
     'tests call each function once on fresh data; aliasing and retained state show only over histories',
     [F, K, U, R, T], [('copies on input', F + ':_process_inputs'), ('shared template redshift', F + ':_calc_Amatrix'), ('shared response dictionary', R + ':ResponseDict')],
     ['all public functions'], '2 bands, 2 templates, histories of 2-4 calls')

prop('C12', 'Mismatched inputs are refused, matching ones accepted',
     'Arrays whose dimensions or lengths do not match the redshifts, bands or templates are refused with an error before anything is computed; every consistent combination is accepted. '
     'Band maps of the wrong length or naming unknown bands, missing redshifts and missing band files are refused too.',
     ['inputs', 'configurations'], 'every combination of dimensions (0 to 3) and lengths of redshifts, fluxes, inverse variances, coefficients and floors',
     'tests try about one wrong shape per argument; acceptance is a condition over all shapes',
     [F, K, U, R], [('shape checks', F + ':_process_inputs'), ('band map checks', K + ':__init__'), ('shape checks', U + ':sdss_ab_correct, error_floor, sdss_asinh_to_maggies'), ('shape checks', R + ':project')],
     ['fit_coeffs(), reconstruct(), kcorrect(), absmag(), derived(), utilities, constructors'],
     'symbolic lengths 0-200 per dimension, 0 to 3 dimensions per argument; consistent inputs of lengths 1-3, 5 and 10 are also run through; band maps of up to 3 bands')

prop('C13', 'Projection is the photon-weighted AB flux through the band',
     'Projecting a spectrum gives the photon-weighted integral over the band relative to that of a 3631 Jy source, whatever the relative sampling and overlap of spectrum and band; one spectrum, a stack and a spectrum object give the same numbers. '
     'It is linear in the spectrum, gives k for k times the AB source through any band, does not depend on the normalisation of the band, and gives zero for a band wholly outside the spectrum.',
     ['inputs', 'configurations'], 'every flux on a set of grids and bands that overlap in all ways (for the value itself: bands whose response is zero at their ends)',
     'tests use two spectral shapes through well-sampled bands',
     [R], [('integration grid and quadrature', R + ':project')], ['Response.project()'],
     'spectra of 8-16 samples with arbitrary fluxes, bands of 4-9 samples; listed relative grids')

prop('C14', 'The design matrix holds every template through every band',
     'Entry (band, template) at a grid redshift is the projection of that template, redshifted there, through that band; bands and templates keep their given order for input and output bands alike, whatever the number of templates. '
     'Building it leaves the templates at redshift zero with their rest frame intact.',
     ['inputs', 'configurations', 'histories'], 'every projection value; template counts around the internal grouping size; templates previously shifted',
     'tests never exceed the group size and look at one band and template',
     [F], [('loops over redshift, band, group', F + ':_calc_Amatrix')], ['Amatrix, AmatrixOut'],
     '2-3 bands, 1-3 templates (arbitrary entries), 1-2001 templates (scaled entries)')

prop('C15', 'Redshifting conserves energy and can be repeated or undone',
     'At redshift z wavelengths are the rest-frame ones times (1+z) and fluxes the rest-frame ones over (1+z), conserving the integral, whatever redshifts were set before. '
     'The rest frame never changes, setting zero restores the original, and the interpolation follows the current redshift with nothing outside the sampled range.',
     ['inputs', 'histories'], 'every spectrum and sequence of up to three redshifts, negative ones included',
     'tests set one or two redshifts', [T], [('redshifting from the rest frame', T + ':set_redshift')], ['SED.set_redshift(), wave, flux, interp'],
     '5 wavelengths, 1-2 spectra, up to 3 redshifts')

prop('C16', 'Saved objects come back equal and usable',
     'A K-correction object, template set, spectrum or band written to a file and read back has the same settings, bands, band map, grids, design matrices and template properties, and gives the same results for every input, also when read into an existing object.',
     ['inputs', 'configurations', 'histories'], 'every design-matrix and template value; default and other output bands, correction on and off; repeated saves',
     'tests save one default object and compare a few attributes',
     [K, T, R], [('write', K + ':tofits'), ('read', K + ':fromfits'), ('template files', T + ':tofits, fromfits, Template'), ('band files', R + ':tofits, fromfits')],
     ['tofits(), fromfits(), constructors with filename'], '2-3 bands, 1-3 templates, 2-3 grid redshifts')

prop('C17', 'A bandpass is the same however its samples are given',
     'A band given in any wavelength order, from arrays, a text table or a binary table is the same band: increasing wavelengths with their own response values, the same interpolation, effective wavelength and half-maximum limits. '
     'The half-maximum limits are where the response first and last crosses half of its maximum, or the band\'s edge.',
     ['inputs', 'configurations'], 'every response value on a set of grids and all orders of samples',
     'tests load sorted files only', [R], [('sorting', R + ':__init__, fromdat, fromfits'), ('half maximum', R + ':set_fwhm_limits'), ('effective wavelength', R + ':set_lambda_eff')],
     ['Response attributes'], '4-6 samples, arbitrary response values')

prop('C18', 'The band dictionary is shared, consistent and survives failures',
     'There is one band dictionary; loading a band keeps what is there unless told to reload, and a failed load or reload leaves the dictionary as it was. '
     'Listing a directory names every response file in it and nothing else, and with validation leaves out malformed files, without altering bands loaded earlier.',
     ['histories', 'fault_sequences', 'configurations'], 'every sequence of loads, reloads and listings over good, bad and missing files',
     'tests load each band once from good files', [R], [('singleton', R + ':ResponseDictSingleton'), ('loading', R + ':load_response'), ('listing', R + ':all_responses')],
     ['ResponseDict, all_responses()'], 'histories of up to 4 operations over up to 6 files')

prop('C19', 'Every redshift of the declared range is usable, none outside',
     'The redshift grid has the requested number of equally spaced points from exactly the minimum to exactly the maximum, so that every representable redshift within the range can be fitted, reconstructed and K-corrected. '
     'A redshift outside, by however little, gives zero coefficients in fits and an error in reconstructions.',
     ['inputs', 'configurations'], 'every 32-bit floating-point minimum, maximum and redshift, bit for bit; grids of several sizes',
     'rounding at the edges concerns single representable numbers among billions',
     [F], [('grid', F + ':__init__'), ('shifted redshift', F + ':_reconstruct'), ('range error', F + ':_fit_coeffs')], ['redshifts, fit_coeffs(), reconstruct(), kcorrect()'],
     'grids of 2-7 points (bit-precise), 2-50 points (real arithmetic)')

prop('C20', 'Solar magnitudes and Vega offsets follow from the model spectra',
     'A band\'s solar magnitude and Vega offset are -2.5 log10 of the projection of the model spectrum, converted from surface flux per frequency to flux per wavelength at ten parsecs or at Vega\'s distance; a band outside the model has neither. '
     'Model files are read as wavelengths followed, model by model, by six parameters and the fluxes.',
     ['inputs', 'configurations'], 'every model flux, parameter and band normalisation on a set of grids',
     'tests compare two bands with tabulated values', [R, U], [('conversion', R + ':set_solar_magnitude, set_vega2ab'), ('file format', U + ':read_basel')],
     ['solar_magnitude, vega2ab, read_basel()'], 'model values arbitrary; bands of 5-9 samples')

prop('C21', 'Maggies convert to flux densities at the effective wavelength',
     'Fluxes in maggies become the AB source spectrum (3631 Jy at every wavelength) at each band\'s effective wavelength times the maggies, inverse variances are divided by its square, and rows and bands keep their order.',
     ['inputs', 'configurations'], 'every flux, inverse variance and effective wavelength; one- and two-dimensional input',
     'tests check one object', [U], [('conversion', U + ':maggies2flambda, sed_ab')], ['maggies2flambda(), sed_ab()'],
     '1-3 bands, 1-2 objects')


def main():
    import sys
    sys.path.insert(0, HERE)
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    import check
    have = set(check.registry('quick'))
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p, b, c in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    checks = []
    na = []
    for p, b, c in P:
        i = p['id']
        if i not in have:
            na.append(dict(property=i, reason='harnesses not finished yet'))
            continue
        checks.append(dict(
            property=i, quick_cmd='./check.py %s --tier quick' % i,
            thorough_cmd='./check.py %s --tier thorough' % i,
            technique='path-exhaustive symbolic execution of the package source (symk) with z3 '
                      'deciding every obligation; counterexamples replayed on the real package',
            level='model_checking',
            level_note='Bounded: %s. Every value within the bounds is decided by the solver, in exact '
                       'real arithmetic with rounding tolerances except where a harness is bit-precise '
                       '(mode fp); numpy, scipy and astropy calls are models (DESIGN.md), checked by '
                       'replaying path witnesses on the real libraries.' % b))
    m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
             notes='See DESIGN.md. No hooks: the checks read and import /repo/src unmodified.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
