"""
An independent reference halo model.

Written from the documented formulae (Asgari, Mead & Heymans 2023; Mead et al. 2021; Fortuna et al. 2021;
Cacciato et al. 2013) and the documentation of onepower; it shares no code with onepower and keeps no state:
every call starts from the parameters. halomod/hmf, astropy, scipy and numpy are trusted.
"""
import numpy as np
from astropy import units as u
from astropy.cosmology import Flatw0waCDM
from scipy.integrate import quad, simpson, solve_ivp
from scipy.interpolate import CubicSpline, interp1d
from scipy.special import erf

DEFAULTS = dict(
    z_vec=np.linspace(0.0, 3.0, 15), h0=0.7, omega_c=0.25, omega_b=0.05, w0=-1.0, wa=0.0, n_s=0.9,
    tcmb=2.7255, Neff=3.044, m_nu=0.06, sigma_8=0.8, log10T_AGN=7.8,
    k_vec=np.logspace(-4, 4, 100), lnk_min=np.log(1e-4), lnk_max=np.log(1e4), dlnk=np.log(1e8) / 100,
    Mmin=9.0, Mmax=16.0, dlog10m=0.05, mdef_model='SOMean', hmf_model='Tinker10', bias_model='Tinker10',
    halo_profile_model_dm='NFW', halo_concentration_model_dm='Duffy08',
    halo_profile_model_sat='NFW', halo_concentration_model_sat='Duffy08',
    transfer_model='CAMB', transfer_params=None, growth_model='CambGrowth', growth_params=None,
    norm_cen=1.0, norm_sat=1.0, eta_cen=0.0, eta_sat=0.0, overdensity=200.0, delta_c=1.686,
    hmcode_ingredients=None,
    nonlinear_mode=None, dewiggle=False, response=False, pointmass=False, compute_observable=False,
    matter_power_lin=None, matter_power_nl=None, mb=10.0**13.87, beta_nl=None, one_halo_ktrunc=0.1,
    two_halo_ktrunc=2.0, poisson_model='constant', poisson_params=None, hod_model='Cacciato', hod_params=None,
    hod_settings=None, hod_settings_mm=None, obs_settings=None, t_eff=0.0, one_halo_ktrunc_ia=4.0,
    two_halo_ktrunc_ia=6.0, align_params=None,
)

HOD_SETTINGS = dict(observables_file=None, obs_min=[8.0], obs_max=[12.0], zmin=[0.0], zmax=[0.2], nz=15, nobs=300,
                    observable_h_unit='1/h^2')

HOD_PARAMS = {
    'Cacciato': dict(log10_obs_norm_c=9.95, log10_m_ch=11.24, g1=3.18, g2=0.245, sigma_log10_O_c=0.157, norm_s=0.562,
                     pivot=12.0, alpha_s=-1.18, beta_s=2, b0=-1.17, b1=1.53, b2=-0.217, A_cen=None, A_sat=None),
    'Simple': dict(log10_Mmin=12.0, log10_Msat=13.0, alpha=1.0, A_cen=None, A_sat=None),
    'Zehavi': dict(log10_Mmin=12.0, log10_Msat=13.0, alpha=1.0, A_cen=None, A_sat=None),
    'Zheng': dict(log10_Mmin=12.0, log10_M0=12.0, log10_M1=13.0, sigma=0.15, alpha=1.0, A_cen=None, A_sat=None),
    'Zhai': dict(log10_Mmin=13.68, log10_Msat=14.87, log10_Mcut=12.32, sigma=0.82, alpha=0.41, A_cen=None, A_sat=None),
}

ALIGN = dict(central_ia_depends_on='halo_mass', satellite_ia_depends_on='halo_mass', gamma_2h_amplitude=5.33,
             beta_cen=0.44, beta_two=None, gamma_1h_amplitude=0.0015, gamma_1h_slope=-2.0, beta_sat=0.44,
             mpivot_cen=13.5, mpivot_sat=13.5, lpivot_cen=None, lpivot_sat=None, z_loglum_file_centrals=None,
             z_loglum_file_satellites=None, ell_max=6, truncate=False)

MEAD = ('mead2020', 'mead2020_feedback')


def lin(x, y, xq, fill=None):
    """Piecewise-linear interpolation of y (leading axis along x) at xq; linear extrapolation, or a fill value."""
    x = np.asarray(x, float)
    y = np.asarray(y, float)
    out = []
    for q in np.atleast_1d(xq):
        if fill is not None and (q < x[0] or q > x[-1]):
            out.append(np.full(y.shape[1:], fill))
            continue
        j = int(np.clip(np.searchsorted(x, q), 1, len(x) - 1))
        t = (q - x[j - 1]) / (x[j] - x[j - 1])
        out.append(y[j - 1] + t * (y[j] - y[j - 1]))
    return np.array(out)


def cosmology(P):
    return Flatw0waCDM(H0=100.0 * P['h0'], Om0=P['omega_c'] + P['omega_b'], Ob0=P['omega_b'], Neff=P['Neff'],
                       m_nu=[0.0, 0.0, P['m_nu']] * u.eV, Tcmb0=P['tcmb'], w0=P['w0'], wa=P['wa'])


# ---------------------------------------------------------------- growth and collapse (Mead 2017, 2021)

def growth_ode(P, accurate=False):
    """
    Linear growth D(a), normalised to D = a deep in matter domination, neutrinos counted as matter.
    accurate=False follows the numerical set-up of the code (129 points, default tolerances, cubic interpolation).
    """
    c = cosmology(P)
    om = c.Om0 + c.Onu0
    ode = 1.0 - om
    w0, wa = P['w0'], P['wa']

    def x(a):
        return a ** (-3.0 * (1.0 + w0 + wa)) * np.exp(-3.0 * wa * (1.0 - a))

    def h2(a):
        return om / a**3 + ode * x(a)

    def ah(a):
        w = w0 + wa * (1.0 - a)
        return -0.5 * (om / a**3 + (1.0 + 3.0 * w) * ode * x(a))

    def rhs(a, y):
        return (y[1], -(2.0 + ah(a) / h2(a)) * y[1] / a + 1.5 * om / a**3 / h2(a) * y[0] / a**2)

    ai = 1e-4
    f = 1.0 - om / ai**3 / h2(ai)
    n = 1.0 - 0.6 * f
    y0 = (ai**n, n * ai ** (n - 1.0))
    if accurate:
        s = solve_ivp(rhs, (ai, 1.0), y0, method='DOP853', rtol=1e-10, atol=1e-14, dense_output=True)
        return lambda a: s.sol(a)[0]
    grid = np.linspace(ai, 1.0, 129)
    s = solve_ivp(rhs, (ai, 1.0), y0, t_eval=grid)
    return CubicSpline(grid, s.y[0], bc_type='not-a-knot')


def collapse(P, accurate=False):
    """g, G, delta_c and Delta_v at each redshift."""
    c = cosmology(P)
    z = np.asarray(P['z_vec'], float)
    D = growth_ode(P, accurate)
    ai = 1e-4
    g, G, dc, dv = [], [], [], []
    fnu = c.Onu0 / (c.Om0 + c.Onu0)
    for zi in z:
        a = 1.0 / (1.0 + zi)
        gi = float(D(a))
        Gi = quad(lambda s: float(D(s)) / s, ai, a, limit=200 if accurate else 50)[0] + float(D(ai))
        lo = np.log10(c.Om(zi) + c.Onu(zi))
        p, q = 1.0 - gi / a, 1.0 - Gi / a

        def f(c0, c1, c2, c3):
            return c0 + c1 * p + c2 * p**2 + c3 * q

        dci = 1.0 + f(-0.0069, -0.0208, 0.0312, 0.0021) * lo + f(0.0001, -0.0647, -0.0417, 0.0646)
        dvi = 1.0 + f(-0.79, -10.17, 2.51, 6.51) * lo + f(-1.89, 0.38, 18.8, -15.87) * lo**2
        g.append(gi)
        G.append(Gi)
        dc.append(0.15 * (12.0 * np.pi) ** (2.0 / 3.0) * (1.0 - 0.041 * fnu) * dci)
        dv.append(18.0 * np.pi**2 * (1.0 + 0.763 * fnu) * dvi)
    return tuple(np.array(v) for v in (g, G, dc, dv))


# ---------------------------------------------------------------- halo ingredients

def _conc(name):
    import halomod.concentration as hc

    cls = getattr(hc, name, None)
    return hc.interp_concentration(cls if cls is not None else hc.make_colossus_cm(name))


class Halo:
    """Everything the halo model needs at one redshift, from halomod directly."""


def _mead_mdef():
    from hmf.halos.mass_definitions import SphericalOverdensity

    class RefVirial(SphericalOverdensity):
        _defaults = {'overdensity': 200.0}

        def halo_density(self, z=0, cosmo=None):
            return self.params['overdensity'] * self.mean_density(z, cosmo)

        @property
        def colossus_name(self):
            return '200c'

        def __str__(self):
            return 'SOVirial'

    return RefVirial


_MEAD_MDEF = None


def ingredients(P, nonlinear=False):
    global _MEAD_MDEF
    from halomod.halo_model import DMHaloModel

    if _MEAD_MDEF is None:
        _MEAD_MDEF = _mead_mdef()
    DMHaloModel.ERROR_ON_BAD_MDEF = False
    c = cosmology(P)
    z = np.asarray(P['z_vec'], float)
    mead = P['hmcode_ingredients'] in MEAD
    one = np.ones(len(z))
    norm_c, norm_s = np.atleast_1d(P['norm_cen']) * one, np.atleast_1d(P['norm_sat']) * one
    eta_c, eta_s = np.atleast_1d(P['eta_cen']) * one, np.atleast_1d(P['eta_sat']) * one
    if mead:
        _, _, dcs, dvs = collapse(P)
    out = []
    for i, zi in enumerate(z):
        kw = dict(z=zi, lnk_min=P['lnk_min'], lnk_max=P['lnk_max'], dlnk=P['dlnk'], Mmin=P['Mmin'], Mmax=P['Mmax'],
                  dlog10m=P['dlog10m'], cosmo_model=c, sigma_8=P['sigma_8'], n=P['n_s'],
                  transfer_model=P['transfer_model'], transfer_params=dict(P['transfer_params'] or {}),
                  growth_model=P['growth_model'], growth_params=dict(P['growth_params'] or {}))
        if mead:
            kw.update(hmf_model='ST', bias_model='ST99', mdef_model=_MEAD_MDEF, mdef_params={'overdensity': dvs[i]},
                      disable_mass_conversion=True, delta_c=dcs[i])
            if P['hmcode_ingredients'] == 'mead2020':
                K = 5.196
            else:
                th = P['log10T_AGN'] - 7.8
                K = (3.44 - 0.496 * th) * 10.0 ** (-zi * (0.0671 + 0.0371 * th)) * 5.196 / 4.0
        else:
            kw.update(hmf_model=P['hmf_model'], bias_model=P['bias_model'], mdef_model=P['mdef_model'],
                      mdef_params={} if P['mdef_model'] == 'SOVirial' else {'overdensity': P['overdensity']},
                      disable_mass_conversion=False)
            if P['mdef_model'] == 'SOVirial':
                kw['delta_c'] = 0.15 * (12.0 * np.pi) ** (2.0 / 3.0) * (1.0 + 0.0123 * np.log10(c.Om(zi)))
            else:
                kw['delta_c'] = P['delta_c']
        both = []
        for cen in (True, False):
            prof = P['halo_profile_model_dm'] if cen else P['halo_profile_model_sat']
            con = P['halo_concentration_model_dm'] if cen else P['halo_concentration_model_sat']
            norm = (norm_c if cen else norm_s)[i]
            eta = (eta_c if cen else eta_s)[i]
            cpar = {'norm': norm}
            if mead:
                con = 'Bullock01'
                cpar['K'] = K
                eta = 0.1281 * float(np.squeeze(DMHaloModel(**kw).sigma8_z)) ** -0.3644
            both.append(DMHaloModel(**kw, halo_profile_model=prof, halo_concentration_model=_conc(con),
                                    halo_concentration_params=cpar,
                                    halo_profile_params={'cosmo': c, 'eta_bloat': eta}))
        x, y = both
        h = Halo()
        k = np.asarray(P['k_vec'], float)
        h.m = x.m
        h.kh = x.k
        h.power = x.power
        if nonlinear:
            h.nlpower = x.nonlinear_power
        h.dndlnm = x.dndlnm
        h.bias = x.halo_bias
        h.nu = np.sqrt(x.nu)
        h.delta = float(np.squeeze(x.halo_overdensity_mean))
        h.rho0 = float(np.squeeze(x.mean_density0))
        h.rhoz = float(np.squeeze(x.mean_density))
        h.neff = float(np.squeeze(x.n_eff_at_collapse))
        h.sigma8 = float(np.squeeze(x.sigma8_z))
        h.growth = float(np.squeeze(x.growth.growth_factor(zi)))
        for s, d in (('cen', x), ('sat', y)):
            uk = d.halo_profile.u(k, d.m)
            setattr(h, f'u_{s}', uk / uk[0][None, :])
            setattr(h, f'uraw_{s}', uk)
            setattr(h, f'c_{s}', d.cmz_relation)
            # radius enclosing the mass at the halo density, in comoving units, and the NFW scale radius
            setattr(h, f'rvir_{s}', d.halo_profile.halo_mass_to_radius(d.m))
            setattr(h, f'rs_{s}', d.halo_profile._rs_from_m(d.m))
        out.append(h)
    return out


# ---------------------------------------------------------------- halo occupation

def hod_grid(settings):
    s = settings if settings else HOD_SETTINGS
    if s['observables_file'] is not None:
        d = np.atleast_2d(np.loadtxt(s['observables_file']))
        return [(d[:, 0], np.log10(d[:, 1]), np.log10(d[:, 2]))], s
    bins = []
    for lo, hi, z0, z1 in zip(s['obs_min'], s['obs_max'], s['zmin'], s['zmax']):
        n = s['nz']
        bins.append((np.linspace(z0, z1, n), np.full(n, float(lo)), np.full(n, float(hi))))
    return bins, s


def _pick(v, b):
    """A parameter that may be given per bin."""
    if hasattr(v, '__len__'):
        return v[b] if len(v) > 1 else v[0]
    return v


def cof(par, m, obs):
    """Conditional observable functions of centrals and satellites, (mass, obs)."""
    ratio = m / 10.0 ** par['log10_m_ch']
    mean = 10.0 ** par['log10_obs_norm_c'] * ratio ** par['g1'] * (1.0 + ratio) ** (par['g2'] - par['g1'])
    s = par['sigma_log10_O_c']
    O = obs[None, :]
    M = mean[:, None]
    cen = np.exp(-0.5 * (np.log10(O / M) / s) ** 2) / (np.sqrt(2.0 * np.pi) * np.log(10.0) * s * O)
    star = par['norm_s'] * M
    lm = np.log10(m) - par['pivot']
    phi = 10.0 ** (par['b0'] + par['b1'] * lm + par['b2'] * lm**2)
    sat = phi[:, None] / star * (O / star) ** par['alpha_s'] * np.exp(-((O / star) ** par['beta_s']))
    return cen, sat


def occupation(model, par, m, b=0, log_obs=None, nobs=None):
    """Mean number of centrals and satellites per halo of mass m in one bin."""
    g = {k: (v if k in ('A_cen', 'A_sat') else _pick(v, b)) for k, v in par.items()}
    if model == 'Cacciato':
        obs = np.logspace(log_obs[0], log_obs[1], nobs)
        cc, cs = cof(par, m, obs)
        nc, ns = simpson(cc, x=obs, axis=-1), simpson(cs, x=obs, axis=-1)
    else:
        step = (m >= 10.0 ** g['log10_Mmin']).astype(float)
        if model in ('Zheng', 'Zhai'):
            if g['sigma'] == 0.0:
                nc = step
            else:
                nc = 0.5 * (1.0 + erf((np.log10(m) - g['log10_Mmin']) / g['sigma']))
        else:
            nc = step
    if par['A_cen'] is not None:
        nc = nc + par['A_cen'] * np.minimum(nc, 1.0 - nc)
    if model == 'Simple':
        ns = nc * (m / 10.0 ** g['log10_Msat']) ** g['alpha']
    elif model == 'Zehavi':
        ns = (m / 10.0 ** g['log10_Msat']) ** g['alpha']
    elif model == 'Zheng':
        ex = np.where(m >= 10.0 ** g['log10_M0'], m - 10.0 ** g['log10_M0'], 0.0) / 10.0 ** g['log10_M1']
        ns = ex ** g['alpha']
    elif model == 'Zhai':
        ns = (m / 10.0 ** g['log10_Msat']) ** g['alpha'] * np.exp(-(10.0 ** g['log10_Mcut']) / m)
    if par['A_sat'] is not None:
        ns = ns * (1.0 + par['A_sat'])
    return nc, ns


class HodResult:
    pass


def hod(model, params, settings, z_vec, m, dndlnm, bias, h, fstar=False):
    """All quantities of the HOD on z_vec: arrays (bin, z) or (bin, z, mass)."""
    par = {**HOD_PARAMS[model], **(params or {})}
    bins, s = hod_grid(settings)
    keys = ['ncen', 'nsat', 'ntot', 'fc', 'fs', 'mcen', 'msat', 'mtot', 'bcen', 'bsat', 'btot', 'Nc', 'Ns', 'N',
            'fstar_c', 'fstar_s', 'fstar']
    res = {k: [] for k in keys}
    for b, (zb, lo, hi) in enumerate(bins):
        raw = {k: [] for k in keys}
        n_at = lin(z_vec, dndlnm, zb)
        b_at = lin(z_vec, bias, zb)
        for j in range(len(zb)):
            nc, ns = occupation(model, par, m, b, (lo[j], hi[j]), s['nobs'])
            dn = n_at[j] / m
            I = lambda f: simpson(f * dn, x=m)
            ntot = I(nc + ns)
            raw['ncen'].append(I(nc))
            raw['nsat'].append(I(ns))
            raw['ntot'].append(ntot)
            raw['fc'].append(I(nc) / ntot)
            raw['fs'].append(I(ns) / ntot)
            for t, f in (('cen', nc), ('sat', ns), ('tot', nc + ns)):
                raw[f'm{t}'].append(I(f * m))
                raw[f'b{t}'].append(I(f * b_at[j]) / ntot)
            raw['Nc'].append(nc)
            raw['Ns'].append(ns)
            raw['N'].append(nc + ns)
            if fstar and model == 'Cacciato':
                obs = np.logspace(lo[j], hi[j], s['nobs'])
                cc, cs = cof(par, m, obs)
                fac = h if s['observable_h_unit'] == '1/h^2' else 1.0
                raw['fstar_c'].append(simpson(cc * obs, x=obs, axis=-1) / m * fac)
                raw['fstar_s'].append(simpson(cs * obs, x=obs, axis=-1) / m * fac)
                raw['fstar'].append(simpson((cc + cs) * obs, x=obs, axis=-1) / m * fac)
            else:
                for t in ('fstar_c', 'fstar_s', 'fstar'):
                    raw[t].append(np.zeros_like(m))
        for k in keys:
            fill = 0.0 if k in ('fc', 'fs', 'mcen', 'msat', 'mtot') else None
            res[k].append(lin(zb, np.array(raw[k]), z_vec, fill))
    out = HodResult()
    for k in keys:
        setattr(out, k, np.array(res[k]))
    out.nbins = len(bins)
    return out


def observable_function(params, settings, z_vec, m, dndlnm):
    """Observable function per dex (Phi * O * ln 10), per bin and redshift of the bin, for centrals/satellites/all."""
    par = {**HOD_PARAMS['Cacciato'], **(params or {})}
    bins, s = hod_grid(settings)
    O, Z, C, S = [], [], [], []
    for zb, lo, hi in bins:
        n_at = lin(z_vec, dndlnm, zb)
        o_, c_, s_ = [], [], []
        for j in range(len(zb)):
            obs = np.logspace(lo[j], hi[j], s['nobs'])
            cc, cs = cof(par, m, obs)
            w = (n_at[j] / m)[:, None]
            o_.append(obs)
            c_.append(np.log(10.0) * obs * simpson(cc * w, x=m, axis=0))
            s_.append(np.log(10.0) * obs * simpson(cs * w, x=m, axis=0))
        O.append(o_)
        Z.append(zb)
        C.append(c_)
        S.append(s_)
    C, S = np.array(C), np.array(S)
    return np.array(O), np.array(Z), C, S, C + S


# ---------------------------------------------------------------- intrinsic alignments

def f_ell(ell, b):
    """Angular part of the satellite alignment (Fortuna et al. 2021, appendix B) for k perpendicular to the line of sight."""
    from scipy.special import binom, gamma

    if b == 0:
        # a constant shear (Schneider & Bridle 2010): only its projection, sin(theta), is left; the convention of CCL
        b = 1.0

    def Ix(a, n):
        if n % 2:
            return 0.0
        return gamma(a / 2.0 + 1.0) * gamma((n + 1.0) / 2.0) / gamma((a + n + 3.0) / 2.0)

    gj = [0, 0, np.pi / 2, 0, np.pi / 2, 0, 15 * np.pi / 32, 0, 7 * np.pi / 16, 0, 105 * np.pi / 256, 0]
    tot = 0.0
    for m in range(ell + 1):
        # theta_k = pi/2: only j = m survives
        if gj[m] == 0:
            continue
        tot += binom(ell, m) * binom(0.5 * (ell + m - 1.0), ell) * gj[m] * Ix(m + b, 0)
    return 2.0**ell * tot


def satellite_profile(r, rs, rvir, a, b, truncate):
    rr = np.maximum(r, 0.06)
    gam = np.minimum(a * (rr / rvir) ** b, 0.3)
    x = r / rs
    p = gam / (x * (1.0 + x) ** 2)
    if truncate:
        p = np.where(r < rvir, p, 0.0)
    return p


def w_satellite(P, halos, amp, A):
    """|w(k|M,z)| of the satellite shear, on k_vec: array (z, k, m); fftlog of each multipole."""
    from scipy.fft import fht, fhtoffset

    r = np.logspace(-8, 8, 512)
    dl = np.log(r[1] / r[0])
    kk = np.logspace(-3, 3, 100)
    b = A['gamma_1h_slope']
    out = []
    for i, h in enumerate(halos):
        mn = 4.0 * np.pi * h.rs_cen**3 * (np.log(1.0 + h.c_cen) - h.c_cen / (1.0 + h.c_cen))
        tot = np.zeros((len(h.m), len(kk)))
        prof = satellite_profile(r[None, :], h.rs_cen[:, None], h.rvir_cen[:, None], amp[i], b, A['truncate'])
        for n, ell in enumerate(range(0, A['ell_max'] + 1, 2)):
            mu = ell + 0.5
            q = -0.5 * (n + 2.0)
            off = fhtoffset(dl, mu=mu, initial=-2 * np.log(10.0), bias=q)
            k = np.exp(off) / r[::-1]
            ft = fht(prof * r**1.5 * np.sqrt(np.pi / 2.0), dl, mu=mu, offset=off, bias=q) / k**1.5 / mn[:, None]
            at = np.array([np.interp(kk, k, row) for row in ft])
            # i^ell is real for even ell
            tot = tot + (-1.0) ** (ell // 2) * (2 * ell + 1) * f_ell(ell, b) * at
        out.append(lin(kk, np.abs(tot).T, P['k_vec']))
    return np.array(out)


def luminosity_mean(file, z_vec, f):
    """<f(L)> of the galaxies of each redshift bin, each at the centre of its one of 10000 linear bins in L."""
    res = []
    for lum in luminosities(file, z_vec):
        if lum.size == 0:
            res.append(0.0)
            continue
        scale = lum.mean()
        n, e = np.histogram(lum / scale, bins=10000)
        res.append(np.average(f(scale * (e[:-1] + 0.5 * (e[-1] - e[0]) / 10000)), weights=n))
    return np.array(res)


def luminosities(file, z_vec):
    """The luminosities of the galaxies of each redshift bin."""
    from astropy.io import fits

    with fits.open(file) as hd:
        zg = np.array(hd[1].data['z'], float)
        ll = np.array(hd[1].data['loglum'])
    z = np.asarray(z_vec, float)
    dz = 0.5 * (z[1] - z[0])
    out = []
    for i, zi in enumerate(z):
        hi = z[i + 1] - dz if i + 1 < len(z) else zi + dz
        out.append(10.0 ** ll[(zg >= zi - dz) & (zg < hi)])
    return out


def amplitudes(z_vec, align):
    """Two-halo amplitude of the centrals and one-halo amplitude of the satellites at each redshift."""
    A = {**ALIGN, **{k: v for k, v in (align or {}).items()}}
    one = np.ones(len(z_vec))
    cen = A['gamma_2h_amplitude'] * one
    if A['central_ia_depends_on'] == 'luminosity':
        l0 = 10.0 ** A['lpivot_cen']
        b1, b2 = A['beta_cen'], A['beta_two']

        def f(L):
            if b2 is None:
                return (L / l0) ** b1
            return np.where(L > l0, (L / l0) ** b1, (L / l0) ** b2)

        cen = A['gamma_2h_amplitude'] * luminosity_mean(A['z_loglum_file_centrals'], z_vec, f)
    sat = A['gamma_1h_amplitude'] * one
    if A['satellite_ia_depends_on'] == 'luminosity':
        l0 = 10.0 ** A['lpivot_sat']
        sat = A['gamma_1h_amplitude'] * luminosity_mean(A['z_loglum_file_satellites'], z_vec,
                                                        lambda L: (L / l0) ** A['beta_sat'])
    return A, cen, sat


# ---------------------------------------------------------------- the power spectra

class Model:
    """Reference spectra for one set of parameters. Arrays are (bin, z, k)."""

    def __init__(self, **kw):
        P = dict(DEFAULTS)
        P.update(kw)
        self.P = P
        self.k = np.asarray(P['k_vec'], float)
        self.z = np.asarray(P['z_vec'], float)
        need_nl = (P['response'] or P['nonlinear_mode'] == 'fortuna') and P['matter_power_nl'] is None
        self.halos = ingredients(P, nonlinear=need_nl)
        self.cosmo = cosmology(P)
        self.m = self.halos[0].m
        self._cache = {}

    def memo(self, key, fn):
        if key not in self._cache:
            self._cache[key] = fn()
        return self._cache[key]

    # -- linear and non-linear matter power
    @property
    def plin(self):
        return self.memo('plin', self._plin)

    def _plin(self):
        P = self.P
        if P['matter_power_lin'] is None:
            p = np.array([lin(h.kh, h.power, self.k) for h in self.halos])
        else:
            p = np.array(P['matter_power_lin'], float)
        if P['nonlinear_mode'] == 'hmcode' or P['dewiggle']:
            p = self.dewiggle(p)
        return p

    def dewiggle(self, p):
        from hmf.density_field.transfer_models import EH_NoBAO
        from scipy.ndimage import gaussian_filter1d

        k = self.k
        d = np.log(k[1] / k[0])
        smooth = k ** self.P['n_s'] * np.exp(2.0 * EH_NoBAO(self.cosmo).lnt(np.log(k)))
        out = []
        for row in p:
            sv = np.sqrt(simpson(row * k, dx=d) / (6.0 * np.pi**2))
            wig = row - gaussian_filter1d(row / smooth, 0.25 / d) * smooth
            out.append(row - (1.0 - np.exp(-((k * sv) ** 2))) * wig)
        return np.array(out)

    @property
    def pnl(self):
        P = self.P
        if P['matter_power_nl'] is not None:
            return np.array(P['matter_power_nl'], float)
        return self.memo('pnl', lambda: np.array([lin(h.kh, h.nlpower, self.k) for h in self.halos]))

    # -- integrals over mass
    def I(self, i, f):
        """Integral of f(m) n(m) dm at redshift index i, mass on the last axis."""
        h = self.halos[i]
        return simpson(f * (h.dndlnm / h.m), x=h.m, axis=-1)

    def missing(self, i):
        """What the halos on the mass grid do not account for in the large-scale matter clustering."""
        h = self.halos[i]
        return 1.0 - self.I(i, h.bias * h.m / h.rho0)

    def i_m(self, i):
        h = self.halos[i]
        return self.I(i, h.bias * h.m / h.rho0 * h.u_cen) + self.missing(i)

    # -- matter profiles (k, m)
    def w_m(self, i, kind, fstar=None):
        P, h = self.P, self.halos[i]
        W = h.m / h.rho0
        if kind == 'dm':
            return W * h.u_cen
        om = P['omega_c'] + P['omega_b']
        fc, fb = P['omega_c'] / om, P['omega_b'] / om
        if kind == 'agn':
            th = P['log10T_AGN'] - 7.8
            z = self.z[i]
            fs = (2.01 - 0.3 * th) * 1e-2 * 10.0 ** (z * (0.409 + 0.0224 * th))
            mb = 10.0 ** (13.87 + 1.81 * th + z * (0.195 * th - 0.108))
        else:
            fs = fstar
            mb = P['mb']
        x2 = (h.m / mb) ** 2
        gas = (fb - fs) * x2 / (1.0 + x2)
        return W * ((fc + gas) * h.u_cen + fs)

    def trunc(self):
        P, k = self.P, self.k
        one = np.ones_like(k)
        x = (k / P['one_halo_ktrunc']) ** 4 if P['one_halo_ktrunc'] is not None else None
        t1 = one if x is None else x / (1.0 + x)
        y = (k / 0.05699) ** 2.853
        t2 = one if P['two_halo_ktrunc'] is None else 1.0 - 0.05 * y / (1.0 + y)
        a1 = one if P['one_halo_ktrunc_ia'] is None else 1.0 - np.exp(-((k / P['one_halo_ktrunc_ia']) ** 2))
        a2 = one if P['two_halo_ktrunc_ia'] is None else np.exp(-((k / P['two_halo_ktrunc_ia']) ** 2))
        return t1, t2, a1, a2

    def hod(self, which='hod_settings', fstar=False):
        def f():
            P = self.P
            dn = np.array([h.dndlnm for h in self.halos])
            bs = np.array([h.bias for h in self.halos])
            return hod(P['hod_model'], P['hod_params'], P[which], self.z, self.m, dn, bs, self.cosmo.h, fstar)

        return self.memo(('hod', which, fstar), f)

    # -- beta_nl: int int b1 b2 beta W1 W2 n1 n2, with the mass below the grid in the first mass bin
    def beta_term(self, i, W1, W2):
        h = self.halos[i]
        B = np.asarray(self.P['beta_nl'], float)
        B = B[i] if B.shape[0] > 1 else B[0]
        m = h.m
        w = np.zeros_like(m)
        d = np.diff(m)
        w[:-1] += d / 2
        w[1:] += d / 2
        g = h.bias * h.dndlnm / m * w
        lost = self.missing(i) * h.rho0 / m[0]
        out = np.zeros(len(self.k))
        for j in range(len(self.k)):
            v1, v2 = g * W1[j], g * W2[j]
            v1, v2 = v1.copy(), v2.copy()
            v1[0] += lost * W1[j][0]
            v2[0] += lost * W2[j][0]
            out[j] = v1 @ B[j] @ v2
        return out

    # -- matter
    def mm_halo(self):
        return self.memo('mm', self._mm)

    def _kind(self, galaxy):
        P = self.P
        k = P['hmcode_ingredients']
        if k == 'mead2020_feedback':
            return 'agn'
        if k == 'fit' or (galaxy and P['pointmass'] and k != 'mead2020'):
            return 'fit'
        return 'dm'

    def _mm(self):
        P, k = self.P, self.k
        t1, t2, _, _ = self.trunc()
        kind = self._kind(False)
        fst = None
        if kind == 'fit':
            if P['hod_model'] == 'Cacciato':
                fst = self.hod('hod_settings_mm', fstar=True).fstar
            else:
                fst = np.zeros((1, len(self.z), len(self.m)))
        nb = 1 if fst is None else fst.shape[0]
        one, two, tot = [np.zeros((nb, len(self.z), len(k))) for _ in range(3)]
        for b in range(nb):
            for i, h in enumerate(self.halos):
                W = self.w_m(i, kind, None if fst is None else fst[b, i])
                p1 = self.I(i, W * W)
                if P['nonlinear_mode'] == 'hmcode':
                    x = (k / (0.05618 * h.sigma8**-1.013)) ** 4
                    p1 = p1 * x / (1.0 + x)
                    y = (k / (0.05699 * h.sigma8**-1.089)) ** 2.853
                    p2 = self.plin[i] * (1.0 - 0.2696 * h.sigma8**0.9403 * y / (1.0 + y))
                    al = 1.875 * 1.603**h.neff
                    pt = (p1**al + p2**al) ** (1.0 / al)
                else:
                    p1 = p1 * t1
                    p2 = self.plin[i] * self.i_m(i) ** 2
                    if P['nonlinear_mode'] == 'bnl':
                        Wd = self.w_m(i, 'dm')
                        p2 = p2 + self.plin[i] * self.beta_term(i, Wd, Wd)
                    else:
                        p2 = p2 * t2
                    pt = p1 + p2
                one[b, i], two[b, i], tot[b, i] = p1, p2, pt
        return one, two, tot

    def mm(self):
        if self.P['response']:
            z = np.zeros_like(self.pnl[None])
            return z, z, self.pnl[None]
        return self.mm_halo()

    def _respond(self, parts):
        if not self.P['response']:
            return parts
        r = self.pnl[None] / self.mm_halo()[2]
        return tuple(p * r for p in parts)

    # -- galaxies
    def w_c(self, b, i):
        H = self.hod()
        return H.fc[b, i] * H.Nc[b, i] / H.ncen[b, i] * np.ones((len(self.k), 1))

    def w_s(self, b, i):
        H = self.hod()
        return H.fs[b, i] * H.Ns[b, i] / H.nsat[b, i] * self.halos[i].u_sat

    def poisson(self):
        P = self.P
        p = dict(poisson=1.0, pivot=None, slope=None)
        p.update(P['poisson_params'] or {})
        if P['poisson_model'] == 'constant':
            return p['poisson'] * np.ones_like(self.m)
        return p['poisson'] * (self.m / 10.0 ** p['pivot']) ** p['slope']

    def _each(self, fn):
        nb = self.hod().nbins
        res = [[fn(b, i) for i in range(len(self.z))] for b in range(nb)]
        return tuple(np.array([[r[j] for r in row] for row in res]) for j in range(len(res[0][0])))

    def gg(self):
        """one-halo, two-halo, total, linear bias"""
        t1, t2, _, _ = self.trunc()
        po = self.poisson()
        bnl = self.P['nonlinear_mode'] == 'bnl'

        def f(b, i):
            h = self.halos[i]
            c, s = self.w_c(b, i), self.w_s(b, i)
            p1 = (2.0 * self.I(i, c * s) + self.I(i, po * s * s)) * t1
            bias = self.I(i, h.bias * (c + s))
            p2 = self.plin[i] * bias**2
            p2 = p2 + self.plin[i] * self.beta_term(i, c + s, c + s) if bnl else p2 * t2
            return p1, p2, np.abs(bias)

        p1, p2, bias = self._each(f)
        return self._respond((p1, p2, p1 + p2)) + (bias,)

    def gm(self):
        t1, t2, _, _ = self.trunc()
        bnl = self.P['nonlinear_mode'] == 'bnl'
        kind = self._kind(True)
        fst = self.hod(fstar=True).fstar if kind == 'fit' else None

        def f(b, i):
            h = self.halos[i]
            g = self.w_c(b, i) + self.w_s(b, i)
            W = self.w_m(i, kind, None if fst is None else fst[b, i])
            p1 = self.I(i, g * W) * t1
            ig, im = self.I(i, h.bias * g), self.i_m(i)
            p2 = self.plin[i] * ig * im
            p2 = p2 + self.plin[i] * self.beta_term(i, g, self.w_m(i, 'dm')) if bnl else p2 * t2
            return p1, p2, np.sqrt(ig * im)

        p1, p2, bias = self._each(f)
        return self._respond((p1, p2, p1 + p2)) + (bias,)

    # -- intrinsic alignments
    def align(self):
        def f():
            A, cen, sat = amplitudes(self.z, self.P['align_params'])
            return A, cen, w_satellite(self.P, self.halos, sat, A)

        return self.memo('align', f)

    def mass_avg(self):
        H = self.hod()
        return H.mcen / H.ntot

    def w_ia(self, b, i):
        """Alignment profiles of centrals and satellites, (k, m)."""
        A, cen, wk = self.align()
        H, h = self.hod(), self.halos[i]
        ma = self.mass_avg()[b, i]
        sc = ss = 1.0
        # no galaxies of this bin, no alignments (a coarse grid of steep numbers can integrate to less than none)
        if A['beta_cen'] is not None and A['mpivot_cen'] is not None:
            sc = (ma / 10.0 ** A['mpivot_cen']) ** A['beta_cen'] if ma > 0 else 0.0
        if A['beta_sat'] is not None and A['mpivot_sat'] is not None:
            ss = (ma / 10.0 ** A['mpivot_sat']) ** A['beta_sat'] if ma > 0 else 0.0
        c = H.fc[b, i] * 5e-14 * cen[i] / h.growth * sc * h.m * np.ones((len(self.k), 1))
        s = H.fs[b, i] * H.Ns[b, i] / H.nsat[b, i] * ss * wk[i]
        return c, s

    def i_ia(self, i, W):
        h = self.halos[i]
        return self.I(i, h.bias * W) + self.missing(i) * W[:, 0] * h.rho0 / h.m[0]

    def nla(self, i):
        h = self.halos[i]
        return 5e-14 * self.align()[1][i] * h.rho0 / h.growth

    def peff(self, i):
        t = self.P['t_eff']
        return (1.0 - t) * self.pnl[i] + t * self.plin[i]

    def _ia(self, fn):
        p1, p2 = self._each(fn)
        return self._respond((p1, p2, p1 + p2))

    def mi(self):
        _, _, a1, a2 = self.trunc()
        mode = self.P['nonlinear_mode']
        kind = self._kind(True)
        fst = self.hod(fstar=True).fstar if kind == 'fit' else None

        def f(b, i):
            c, s = self.w_ia(b, i)
            W = self.w_m(i, kind, None if fst is None else fst[b, i])
            p1 = -self.I(i, W * s) * a1
            if mode == 'fortuna':
                return p1, -self.hod().fc[b, i] * self.peff(i) * self.nla(i) * a2
            p2 = -self.plin[i] * self.i_ia(i, c + s) * self.i_m(i)
            if mode == 'bnl':
                p2 = p2 - self.plin[i] * self.beta_term(i, c + s, self.w_m(i, 'dm'))
            else:
                p2 = p2 * a2
            return p1, p2

        return self._ia(f)

    def ii(self):
        _, _, a1, a2 = self.trunc()
        mode = self.P['nonlinear_mode']

        def f(b, i):
            c, s = self.w_ia(b, i)
            p1 = self.I(i, s * s) * a1
            if mode == 'fortuna':
                return p1, self.hod().fc[b, i] ** 2 * self.peff(i) * self.nla(i) ** 2 * a2
            ic, is_ = self.i_ia(i, c), self.i_ia(i, s)
            p2 = self.plin[i] * (ic**2 + is_**2 + ic * is_)
            if mode == 'bnl':
                bt = self.beta_term
                p2 = p2 + self.plin[i] * (bt(i, c, c) + bt(i, s, s) + bt(i, c, s))
            else:
                p2 = p2 * a2
            return p1, p2

        return self._ia(f)

    def gi(self):
        _, _, a1, a2 = self.trunc()
        mode = self.P['nonlinear_mode']

        def f(b, i):
            h = self.halos[i]
            c, s = self.w_ia(b, i)
            g = self.w_c(b, i)
            p1 = self.I(i, g * s) * a1
            ig = self.I(i, h.bias * g)
            if mode == 'fortuna':
                return p1, self.peff(i) * ig * self.nla(i) * a2
            p2 = self.plin[i] * ig * self.i_ia(i, c + s)
            if mode == 'bnl':
                p2 = p2 + self.plin[i] * (self.beta_term(i, c, g) + self.beta_term(i, s, g))
            else:
                p2 = p2 * a2
            return p1, p2

        return self._ia(f)
