"""
Generators of JSON-able cases, and the conversion of a case into keyword arguments.
"""
import os
import tempfile

import numpy as np
from hypothesis import strategies as st


def num(lo, hi, nd=4):
    """Floats with a few digits, so that a shrunk case reads well."""
    return st.floats(lo, hi, allow_nan=False).map(lambda x: min(hi, max(lo, round(x, nd))))


def weighted(*pairs):
    """One of several strategies, with integer weights (one_of drops repeated alternatives)."""
    idx = [i for i, (w, _) in enumerate(pairs) for _ in range(w)]
    return st.sampled_from(idx).flatmap(lambda i: pairs[i][1])


def maybe(s, none=0.3):
    return st.one_of(st.none(), s) if none >= 0.5 else st.one_of(s, s, st.none())


@st.composite
def cosmology(draw, neutrinos=True):
    c = dict(
        omega_c=draw(num(0.15, 0.4)),
        omega_b=draw(num(0.03, 0.07)),
        h0=draw(num(0.6, 0.8)),
        n_s=draw(num(0.85, 1.05)),
        sigma_8=draw(num(0.6, 1.0)),
        w0=draw(st.one_of(st.just(-1.0), num(-1.3, -0.7))),
        wa=draw(st.one_of(st.just(0.0), num(-0.3, 0.3))),
        m_nu=draw(st.one_of(st.just(0.0), st.just(0.06), num(0.0, 0.4))),
        log10T_AGN=draw(st.one_of(st.just(7.8), num(7.3, 8.3))),
    )
    # parameters that callers rarely change
    if draw(st.integers(0, 3)) == 0:
        c['tcmb'] = draw(num(2.5, 2.9))
        c['Neff'] = draw(num(3.0, 3.6))
    if draw(st.integers(0, 4)) == 0:
        # far from the usual values
        for key, lo, hi in (('omega_c', 0.08, 0.55), ('h0', 0.5, 0.95), ('n_s', 0.8, 1.15), ('sigma_8', 0.4, 1.3),
                            ('w0', -1.6, -0.5), ('wa', -0.6, 0.4), ('log10T_AGN', 7.0, 8.8)):
            if draw(st.booleans()):
                c[key] = draw(num(lo, hi))
    return c


@st.composite
def redshifts(draw, min_size=2, max_size=3, zmax=2.0):
    n = draw(st.integers(min_size, max_size))
    z0 = draw(st.one_of(st.just(0.0), num(0.0, 0.6 * zmax, 3)))
    z = [z0]
    for _ in range(n - 1):
        z.append(round(z[-1] + draw(num(0.05, 0.4 * zmax / max(1, n - 1), 3)), 4))
    return z


@st.composite
def grids(draw, min_z=2, max_z=3, kmax=24, tail=True):
    if tail and draw(st.integers(0, 4)) == 0:
        # larger arrays, higher redshifts, wider ranges
        z = [draw(st.sampled_from([0.0, 0.5, 2.0]))]
        for _ in range(draw(st.integers(max(2, min_z), 6)) - 1):
            z.append(round(z[-1] + draw(num(0.05, 1.0, 3)), 4))
        return dict(
            z=z,
            k=[draw(num(-4.0, -2.0, 2)), draw(num(1.0, 2.5, 2)), draw(st.integers(10, 60))],
            Mmin=draw(st.sampled_from([8.0, 9.0, 10.0])),
            Mmax=draw(st.sampled_from([15.5, 16.0, 16.5])),
            dlog10m=draw(st.sampled_from([0.2, 0.25, 0.3])),
        )
    return dict(
        z=draw(redshifts(min_z, max_z)),
        k=[draw(num(-3.0, -1.5, 2)), draw(num(0.3, 2.0, 2)), draw(st.integers(6, kmax))],
        Mmin=draw(st.sampled_from([9.0, 10.0, 10.5, 11.0, 12.0])),
        Mmax=draw(st.sampled_from([15.0, 15.5, 16.0, 14.5])),
        dlog10m=draw(st.sampled_from([0.2, 0.25, 0.1, 0.3, 0.37])),
    )


HMF = ['Tinker10', 'Tinker08', 'ST', 'PS', 'SMT', 'Jenkins', 'Warren']
BIAS = ['Tinker10', 'ST99', 'SMT01', 'Mo96', 'Tinker05', 'Jing98']
CONC = ['Duffy08', 'Bullock01', 'Zehavi11', 'Ludlow16Empirical', 'duffy08', 'ishiyama21', 'diemer19', 'child18']
PROFILE = ['NFW', 'NFW', 'NFW', 'Hernquist', 'CoredNFW', 'GeneralizedNFW']
MDEF = ['SOMean', 'SOMean', 'SOCritical', 'SOVirial']
TRANSFER = ['EH', 'EH', 'EH_NoBAO', 'BBKS', 'BondEfs']
GROWTH = ['GrowthFactor', 'GrowthFactor', 'Carroll1992']


@st.composite
def halo(draw, ingredients=(None, 'mead2020', 'mead2020_feedback', 'fit'), conc=CONC, profiles=PROFILE, nz=2):
    h = dict(
        hmcode_ingredients=draw(st.sampled_from(list(ingredients))),
        mdef_model=draw(st.sampled_from(MDEF)),
        hmf_model=draw(st.sampled_from(HMF)),
        bias_model=draw(st.sampled_from(BIAS)),
        halo_concentration_model_dm=draw(st.sampled_from(conc)),
        halo_concentration_model_sat=draw(st.sampled_from(conc)),
        halo_profile_model_dm=draw(st.sampled_from(profiles)),
        halo_profile_model_sat=draw(st.sampled_from(profiles)),
        transfer_model=draw(st.sampled_from(TRANSFER)),
        growth_model=draw(st.sampled_from(GROWTH)),
        overdensity=draw(st.one_of(st.just(200.0), num(180.0, 500.0, 1))),
        delta_c=draw(st.one_of(st.just(1.686), num(1.6, 1.75))),
    )
    for key, lo, hi in (('norm_cen', 0.5, 1.5), ('norm_sat', 0.5, 1.5), ('eta_cen', -0.2, 0.4), ('eta_sat', -0.2, 0.4)):
        per_z = st.lists(num(lo, hi, 3), min_size=nz, max_size=nz)
        h[key] = draw(st.one_of(num(lo, hi, 3), num(lo, hi, 3), per_z))
    return h


@st.composite
def simple_halo(draw, ingredients=(None, 'mead2020', 'mead2020_feedback', 'fit'), nz=2):
    """Halo options of moderate variety, for the checks of the spectra."""
    h = dict(
        hmcode_ingredients=draw(st.sampled_from(list(ingredients))),
        mdef_model=draw(st.sampled_from(['SOMean', 'SOVirial', 'SOCritical'])),
        hmf_model=draw(st.sampled_from(['Tinker10', 'ST', 'Tinker08'])),
        bias_model=draw(st.sampled_from(['Tinker10', 'ST99', 'SMT01'])),
        halo_concentration_model_dm=draw(st.sampled_from(['Duffy08', 'Bullock01'])),
        halo_concentration_model_sat=draw(st.sampled_from(['Duffy08', 'Bullock01'])),
        transfer_model=draw(st.sampled_from(['EH', 'EH_NoBAO', 'BBKS'])),
        growth_model='GrowthFactor',
        norm_cen=draw(num(0.6, 1.4, 3)),
        norm_sat=draw(num(0.6, 1.4, 3)),
        eta_cen=draw(st.one_of(st.just(0.0), num(-0.2, 0.4, 3))),
        eta_sat=draw(st.one_of(st.just(0.0), num(-0.2, 0.4, 3))),
        overdensity=draw(st.sampled_from([200.0, 178.0, 320.0])),
    )
    if draw(st.integers(0, 3)) == 0:
        # one value per redshift
        for key, lo, hi in (('norm_cen', 0.6, 1.4), ('norm_sat', 0.6, 1.4), ('eta_cen', -0.2, 0.4), ('eta_sat', -0.2, 0.4)):
            if draw(st.booleans()):
                h[key] = [draw(num(lo, hi, 3)) for _ in range(nz)]
    return h


@st.composite
def truncations(draw):
    t = {}
    for key, lo, hi in (('one_halo_ktrunc', 0.02, 0.5), ('two_halo_ktrunc', 0.5, 4.0),
                        ('one_halo_ktrunc_ia', 1.0, 8.0), ('two_halo_ktrunc_ia', 2.0, 10.0)):
        v = draw(st.one_of(st.just('default'), st.none(), num(lo, hi, 3), num(0.01, 20.0, 3)))
        if v != 'default':
            t[key] = v
    return t


def _per_bin(draw, s, nb):
    return [draw(s) for _ in range(nb)]


@st.composite
def hod_bins(draw, nb, zspan=(0.0, 1.5), nobs=(12, 40), file_ok=True, obs=(8.0, 12.0)):
    """Bins in the observable and redshift; occasionally the observables come from a file."""
    unit = draw(st.sampled_from(['1/h^2', '1/h']))
    n_obs = draw(st.integers(*nobs))
    if file_ok and nb == 1 and draw(st.integers(0, 3)) == 0:
        n = draw(st.integers(2, 4))
        z = [draw(num(zspan[0], zspan[1] / 2, 3))]
        for _ in range(n - 1):
            z.append(round(z[-1] + draw(num(0.05, 0.5, 3)), 4))
        rows = []
        for zi in z:
            lo = draw(num(obs[0], obs[1] - 1.5, 2))
            rows.append([zi, lo, round(lo + draw(num(0.5, 1.5, 2)), 2)])
        return dict(table=rows, nobs=n_obs, observable_h_unit=unit)
    b = dict(obs_min=[], obs_max=[], zmin=[], zmax=[], nz=draw(st.integers(2, 5)), nobs=n_obs, observable_h_unit=unit)
    for _ in range(nb):
        lo = draw(num(obs[0], obs[1] - 1.0, 2))
        b['obs_min'].append(lo)
        b['obs_max'].append(round(lo + draw(num(0.4, 2.0, 2)), 2))
        z0 = draw(num(zspan[0], zspan[1] - 0.1, 3))
        b['zmin'].append(z0)
        b['zmax'].append(round(z0 + draw(num(0.1, 1.5, 3)), 4))
    return b


@st.composite
def covering_bins(draw, nb, z, nobs=(12, 40), file_ok=True, beyond=False):
    """
    Bins whose redshift range covers the redshifts of the model, so that galaxies exist at each of them; with ``beyond``
    some cover only a part of the range, and the model extrapolates.
    """
    b = draw(hod_bins(nb, nobs=nobs, file_ok=file_ok))
    lo, hi = z[0], z[-1]
    if 'table' in b:
        n = len(b['table'])
        for r, zi in zip(b['table'], np.linspace(max(0.0, lo - draw(num(0, 0.2, 3))), hi + draw(num(0, 0.4, 3)), n)):
            r[0] = float(zi)
    else:
        b['zmin'] = [round(max(0.0, lo - draw(num(0, 0.3, 3))), 4) for _ in range(nb)]
        b['zmax'] = [round(hi + draw(num(0.0, 0.5, 3)), 4) for _ in range(nb)]
        b['zmin'] = [min(v, lo) for v in b['zmin']]
        b['zmax'] = [max(v, hi) for v in b['zmax']]
        if beyond and draw(st.integers(0, 2)) == 0:
            for i in range(nb):
                if draw(st.booleans()):
                    b['zmin'][i] = round(lo + draw(num(0.0, 0.4, 3)) * (hi - lo), 4)
                if draw(st.booleans()):
                    b['zmax'][i] = round(hi - draw(num(0.0, 0.4, 3)) * (hi - lo), 4)
    return b


@st.composite
def occupation(draw, model, nb, decorated=True):
    """Parameters of one occupation model, per bin where the model allows it."""
    p = {}
    if model == 'Cacciato':
        for key, lo, hi in (('log10_obs_norm_c', 9.0, 11.0), ('log10_m_ch', 10.8, 12.5), ('g1', 1.5, 6.0),
                            ('g2', 0.1, 0.7), ('sigma_log10_O_c', 0.1, 0.35), ('norm_s', 0.3, 1.0),
                            ('pivot', 11.5, 13.0), ('alpha_s', -1.4, -0.6), ('beta_s', 0.8, 2.5),
                            ('b0', -1.6, 0.2), ('b1', 0.6, 1.8), ('b2', -0.3, 0.05)):
            if draw(st.integers(0, 2)):
                p[key] = draw(num(lo, hi, 3))
    else:
        ranges = {
            'Simple': (('log10_Mmin', 11.0, 13.5), ('log10_Msat', 12.0, 14.5), ('alpha', 0.4, 1.6)),
            'Zehavi': (('log10_Mmin', 11.0, 13.5), ('log10_Msat', 12.0, 14.5), ('alpha', 0.4, 1.6)),
            'Zheng': (('log10_Mmin', 11.0, 13.5), ('log10_M0', 11.0, 13.5), ('log10_M1', 12.0, 14.5),
                      ('sigma', 0.0, 0.9), ('alpha', 0.4, 1.6)),
            'Zhai': (('log10_Mmin', 11.0, 13.8), ('log10_Msat', 12.0, 14.9), ('log10_Mcut', 11.0, 13.5),
                     ('sigma', 0.0, 0.9), ('alpha', 0.4, 1.6)),
        }[model]
        some = nb == 1 and draw(st.integers(0, 2)) == 0
        for key, lo, hi in ranges:
            s = num(lo, hi, 3)
            if key.startswith('log10_M'):
                s = s.map(lambda x: x + 1.41421356e-4)  # never on a point of the mass grid, where rounding would decide
            if some and draw(st.booleans()):
                continue  # left at its default
            if key == 'sigma':
                s = st.one_of(st.just(0.0), num(0.05, hi, 3))
            # slopes and scatter may be shared by the bins
            shared = key in ('alpha', 'sigma') and draw(st.integers(0, 2)) == 0
            if (nb > 1 and not shared) or (nb == 1 and draw(st.booleans())):
                p[key] = _per_bin(draw, s, nb)
            else:
                p[key] = draw(s)
    if decorated:
        for key, lo, hi in (('A_cen', -1.0, 1.0), ('A_sat', -0.9, 1.5)):
            v = draw(st.one_of(st.just('default'), st.none(), num(lo, hi, 3), st.just(0.0)))
            if v != 'default':
                p[key] = v
    return p


@st.composite
def poisson(draw):
    m = draw(st.sampled_from(['constant', 'power_law']))
    if m == 'constant':
        return dict(poisson_model=m, poisson_params=draw(st.one_of(st.just({}), st.fixed_dictionaries(
            {'poisson': num(0.3, 1.6, 3)}))))
    p = dict(pivot=draw(num(11.0, 14.0, 2)), slope=draw(num(-0.4, 0.4, 3)))
    if draw(st.integers(0, 3)):
        p['poisson'] = draw(num(0.3, 1.6, 3))
    return dict(poisson_model=m, poisson_params=p)


@st.composite
def galaxies(draw, z, max_bins=3, models=('Cacciato', 'Zheng', 'Zhai', 'Simple', 'Zehavi'), covering=True, file_ok=True, beyond=False):
    model = draw(st.sampled_from(list(models)))
    nb = draw(st.integers(1, max_bins))
    if draw(st.integers(0, 9)) == 0:
        nb = draw(st.integers(4, 6))
    bins = draw(covering_bins(nb, z, file_ok=file_ok, beyond=beyond) if covering else hod_bins(nb, file_ok=file_ok))
    g = dict(hod_model=model, hod_params=draw(occupation(model, nb)), hod_settings=bins)
    g.update(draw(poisson()))
    return g


@st.composite
def alignments(draw, slopes=True):
    a = {}
    for key, s in (('gamma_2h_amplitude', st.one_of(num(0.5, 8.0, 3), num(0.5, 8.0, 3), num(-6.0, 6.0, 3))), ('gamma_1h_amplitude', num(0.0003, 0.01, 5)),
                   ('beta_cen', st.one_of(st.none(), num(-0.3, 1.0, 3))), ('beta_sat', st.one_of(st.none(), num(-0.3, 1.0, 3))),
                   ('mpivot_cen', num(12.5, 14.5, 2)), ('mpivot_sat', num(12.5, 14.5, 2)),
                   ('ell_max', st.sampled_from([2, 4, 6, 8, 10])), ('truncate', st.booleans())):
        if draw(st.integers(0, 2)):
            a[key] = draw(s)
    if draw(st.booleans()):
        a['gamma_1h_slope'] = draw(st.one_of(st.just(-2), st.just(-2.0), st.just(0.0), num(-2.8, 0.6, 2)))
    if draw(st.integers(0, 2)) == 0:
        a['central_ia_depends_on'] = 'constant'
    if draw(st.integers(0, 2)) == 0:
        a['satellite_ia_depends_on'] = 'constant'
    return a


@st.composite
def external_power(draw, nz):
    """Coefficients of a positive, smoothly wiggling power spectrum given from outside."""
    return dict(amp=draw(num(0.5, 3.0, 3)), k0=draw(num(0.01, 0.05, 4)), tilt=draw(num(0.8, 1.1, 3)),
                wig=draw(num(0.0, 0.1, 3)), freq=draw(num(2.0, 12.0, 2)), boost=draw(num(0.0, 2.0, 2)),
                growth=[draw(num(0.3, 1.0, 3)) for _ in range(nz)])


@st.composite
def beta(draw, nz):
    """Coefficients of beta_nl(k, M1, M2), optionally not symmetric in the masses and varying with redshift."""
    return dict(d=draw(st.one_of(st.just(0.0), num(-0.1, 0.1, 3))), a=draw(num(-0.4, 0.6, 3)), b=draw(num(-0.1, 0.1, 3)), c=draw(num(-0.05, 0.05, 3)),
                kp=draw(num(-1.5, 0.5, 2)), z=draw(st.one_of(st.none(), st.lists(num(0.2, 1.5, 3), min_size=nz, max_size=nz))))


# ---------------------------------------------------------------- cases -> arguments

def power_array(c, z, k):
    k = np.asarray(k)
    p = c['amp'] * 2e4 * (k / c['k0']) ** c['tilt'] / (1.0 + (k / c['k0']) ** 2) ** 1.4
    p = p * (1.0 + c['wig'] * np.sin(c['freq'] * np.log(k / 0.01))) * (1.0 + c['boost'] * k**1.5 / (1.0 + k))
    return np.array([p * g**2 for g in c['growth']])


def mass_grid(cfg):
    return 10.0 ** np.arange(cfg['Mmin'], cfg['Mmax'], cfg['dlog10m'])


def beta_array(c, cfg, k):
    lm = np.log10(mass_grid(cfg)) - 13.0
    s = lm[:, None] + lm[None, :]
    pr = lm[:, None] * lm[None, :]
    x = np.exp(-((np.log10(k) - c['kp']) ** 2))
    b = x[:, None, None] * (c['a'] + c['b'] * s + c['c'] * pr + c.get('d', 0.0) * (lm[:, None] - lm[None, :]))
    if c['z'] is None:
        return b[None]
    return np.array([f * b for f in c['z']])


class Args:
    """The keyword arguments of a case; holds the scratch files they refer to."""

    def __init__(self, cfg):
        self.tmp = None
        self.kw = self.convert(cfg)

    def settings(self, s):
        if not s:
            return dict(s or {})
        s = dict(s)
        if 'table' in s:
            if self.tmp is None:
                self.tmp = tempfile.TemporaryDirectory()
            path = os.path.join(self.tmp.name, f'obs{len(os.listdir(self.tmp.name))}.txt')
            np.savetxt(path, [[r[0], 10.0 ** r[1], 10.0 ** r[2]] for r in s.pop('table')], fmt='%.17g')
            s['observables_file'] = path
            return s
        for key in ('obs_min', 'obs_max', 'zmin', 'zmax'):
            if key in s:
                s[key] = np.array(s[key], float)
        if 'obs_min' in s:
            s['observables_file'] = None
        return s

    def luminosities(self, a):
        """Writes the galaxy catalogues that the alignments refer to."""
        a = dict(a or {})
        for key in ('z_loglum_file_centrals', 'z_loglum_file_satellites'):
            if isinstance(a.get(key), dict):
                a[key] = self.catalogue(a[key])
        return a

    def catalogue(self, c):
        from astropy.io import fits

        if self.tmp is None:
            self.tmp = tempfile.TemporaryDirectory()
        rng = np.random.default_rng(c['seed'])
        z = rng.uniform(min(c['z0'], c['z1']), max(c['z0'], c['z1']), c['n'])
        lum = rng.normal(c['mean'], c['width'], c['n']) + c['evol'] * z
        path = os.path.join(self.tmp.name, f'lum{len(os.listdir(self.tmp.name))}.fits')
        cols = [fits.Column(name='z', format='D', array=z), fits.Column(name='loglum', format='D', array=lum)]
        fits.BinTableHDU.from_columns(cols).writeto(path)
        return path

    def convert(self, cfg):
        kw = {}
        for key, v in cfg.items():
            if key == 'z':
                kw['z_vec'] = np.array(v, float)
            elif key == 'k':
                kw['k_vec'] = np.logspace(*v)
            elif key in ('hod_settings', 'hod_settings_mm', 'obs_settings'):
                kw[key] = self.settings(v)
            elif key == 'hod_params':
                kw[key] = {a: (np.array(b, float) if isinstance(b, list) else b) for a, b in v.items()}
            elif key in ('norm_cen', 'norm_sat', 'eta_cen', 'eta_sat'):
                kw[key] = np.array(v, float) if isinstance(v, list) else v
            elif key in ('matter_power_lin', 'matter_power_nl'):
                kw[key] = None if v is None else power_array(v, cfg['z'], np.logspace(*cfg['k']))
            elif key == 'beta_nl':
                kw[key] = None if v is None else beta_array(v, cfg, np.logspace(*cfg['k']))
            elif key == 'transfer_array':
                # a transfer function and growth factor tabulated by the caller, as the CosmoSIS interface does
                if v is not None:
                    k = np.logspace(-5, 4, 200)
                    q = k / v['q']
                    kw['transfer_model'] = 'FromArray'
                    kw['transfer_params'] = {'k': k, 'T': np.log(1.0 + 2.34 * q) / (2.34 * q) * (1.0 + 3.89 * q + (16.1 * q) ** 2
                                                          + (5.46 * q) ** 3 + (6.71 * q) ** 4) ** -0.25}
            elif key == 'growth_array':
                if v is not None:
                    z = np.linspace(0.0, 6.0, 61)
                    kw['growth_model'] = 'FromArray'
                    kw['growth_params'] = {'z': z, 'd': (1.0 + z) ** -v['s']}
            elif key == 'align_params':
                kw[key] = self.luminosities(v)
            elif key.startswith('_'):
                continue
            else:
                kw[key] = v
        from .ref import DEFAULTS

        for key in cfg.get('_implicit', ()):
            if key in kw and type(kw[key]) is type(DEFAULTS[key]) and kw[key] == DEFAULTS[key]:
                del kw[key]  # left to its default
        return kw


def uniform_z(z):
    """Luminosity distributions are binned by half the first redshift step: the redshifts have to be evenly spaced."""
    d = np.diff(z)
    return len(z) > 1 and np.allclose(d, d[0], rtol=1e-6)


@st.composite
def catalogue(draw, z):
    step = z[1] - z[0]
    return dict(seed=draw(st.integers(0, 10**6)), n=draw(st.integers(2, 400)), z0=round(z[0] - step * draw(num(-1.5, 1.0, 2)), 4),
                z1=round(z[-1] + step * draw(num(0.0, 1.0, 2)), 4), mean=draw(num(9.5, 11.0, 2)), width=draw(num(0.05, 0.5, 2)),
                evol=draw(num(-0.3, 0.3, 2)))


@st.composite
def luminosity_alignments(draw, z):
    """Alignments of which at least one depends on luminosity."""
    a = draw(alignments())
    which = draw(st.sampled_from(['central', 'satellite', 'both']))
    for key in ('mpivot_cen', 'mpivot_sat'):
        if draw(st.integers(0, 3)) == 0:
            a[key] = None
    if which in ('central', 'both'):
        a['central_ia_depends_on'] = 'luminosity'
        a['lpivot_cen'] = draw(num(9.5, 11.0, 2))
        a['beta_cen'] = draw(num(-0.5, 1.5, 2))
        if draw(st.booleans()):
            a['beta_two'] = draw(num(-0.5, 1.5, 2))
        a['z_loglum_file_centrals'] = draw(catalogue(z))
    if which in ('satellite', 'both'):
        a['satellite_ia_depends_on'] = 'luminosity'
        a['lpivot_sat'] = draw(num(9.5, 11.0, 2))
        a['beta_sat'] = draw(num(-0.5, 1.5, 2))
        a['z_loglum_file_satellites'] = draw(catalogue(z))
    for t in ('central', 'satellite'):
        # a dependence on halo mass needs its pivot
        if a.get(f'{t}_ia_depends_on', 'halo_mass') == 'halo_mass':
            key = f'mpivot_{t[:3]}'
            if key in a and a[key] is None:
                del a[key]
    return a


FAST = dict(lnk_min=float(np.log(1e-4)), lnk_max=float(np.log(1e3)), dlnk=0.1)


def spectra_kwargs(cfg):
    a = Args(cfg)
    for key, v in FAST.items():
        a.kw.setdefault(key, v)
    a.kw.setdefault('transfer_model', 'EH')
    a.kw.setdefault('growth_model', 'GrowthFactor')
    return a


def copy_kwargs(kw):
    """A deep copy for the reference, so that the two sides share no object."""
    import copy

    return copy.deepcopy(kw)


# ---------------------------------------------------------------- whole models

NUMBERS = ('omega_c', 'omega_b', 'h0', 'n_s', 'sigma_8', 'w0', 'wa', 'm_nu', 'log10T_AGN', 'norm_cen', 'norm_sat', 'eta_cen', 'eta_sat', 'overdensity')
NAMES = ('response', 'pointmass', 'dewiggle', 'nonlinear_mode', 'hmcode_ingredients', 'mdef_model', 'hmf_model', 'bias_model',
         'halo_profile_model_dm', 'halo_profile_model_sat', 'halo_concentration_model_dm', 'halo_concentration_model_sat', 'hod_model', 'poisson_model')


@st.composite
def implicit(draw, c):
    """Some arguments at their documented defaults, and not given."""
    from .ref import DEFAULTS

    if draw(st.integers(0, 2)):
        return {}
    out = {key: DEFAULTS[key] for key in NUMBERS if key in c and draw(st.integers(0, 2)) == 0}
    out['_implicit'] = [*out, *(key for key in NAMES if key in c)]
    return out


@st.composite
def nonlinear(draw, cfg, modes=(None, 'bnl', 'fortuna', 'hmcode')):
    ok = [m for m in modes if m != 'hmcode' or cfg['hmcode_ingredients'] in ('mead2020', 'mead2020_feedback')]
    mode = draw(st.sampled_from(ok))
    out = dict(nonlinear_mode=mode)
    if mode == 'bnl':
        out['beta_nl'] = draw(beta(len(cfg['z'])))
    return out


@st.composite
def powers(draw, nz):
    """Power spectra given from outside, or None."""
    out = {}
    for key in ('matter_power_lin', 'matter_power_nl'):
        if draw(st.integers(0, 2)) == 0:
            out[key] = draw(external_power(nz))
    return out


@st.composite
def model(draw, what='all', ingredients=(None, None, 'mead2020', 'mead2020_feedback', 'fit'), modes=(None, 'bnl', 'fortuna', 'hmcode'),
          max_bins=3, max_z=3, kmax=24, wide=False, hod_models=('Cacciato', 'Zheng', 'Zhai', 'Simple', 'Zehavi'), luminosity=True, beyond=False):
    c = draw(grids(max_z=max_z, kmax=kmax))
    lum = luminosity and what == 'all' and draw(st.integers(0, 3)) == 0
    if lum:
        # the luminosity distributions take evenly spaced redshifts for granted
        c['z'] = [float(x) for x in np.linspace(c['z'][0], c['z'][-1], len(c['z']))]
    c.update(draw(cosmology()))
    c.update(draw(halo(ingredients, nz=len(c['z'])) if wide else simple_halo(ingredients, nz=len(c['z']))))
    c.update(draw(nonlinear(c, modes)))
    c.update(draw(truncations()))
    c.update(draw(powers(len(c['z']))))
    if draw(st.integers(0, 5)) == 0:
        # the wavenumbers start below the grid of the linear power: by less than one of its steps, as the default ones end above it
        c['lnk_min'] = float(np.log(10.0) * c['k'][0] + 0.1 * draw(num(0.01, 1.0, 2)))
    c['response'] = draw(st.sampled_from([False, False, True]))
    c['pointmass'] = draw(st.booleans())
    c['dewiggle'] = draw(st.sampled_from([False, False, True]))
    # left out, the default settings are used
    if draw(st.integers(0, 5 if c['hmcode_ingredients'] == 'fit' else 3)) > (0 if c['hmcode_ingredients'] == 'fit' else 2):
        c['hod_settings_mm'] = draw(covering_bins(1, c['z']))
    if draw(st.booleans()):
        c['mb'] = 10.0 ** draw(num(12.5, 15.0, 2))
    if what in ('galaxies', 'all'):
        c.update(draw(galaxies(c['z'], max_bins=max_bins, models=hod_models, beyond=beyond)))
    else:
        c.update(hod_model=draw(st.sampled_from(list(hod_models))))
        c['hod_params'] = draw(occupation(c['hod_model'], 1))
    if what == 'all':
        c['align_params'] = draw(luminosity_alignments(c['z']) if lum else alignments())
        if draw(st.booleans()):
            c['t_eff'] = draw(num(0.0, 1.0, 3))
    c.update(draw(implicit(c)))
    return c
