import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from .. import cosmosis_stub, gen
from ..cmp import compare
from ..core import Prop, Skip, Violation, sut

OPT = cosmosis_stub.OPTIONS
PARAMS = {
    'Zheng': ('log10_Mmin', 'sigma', 'log10_M0', 'log10_M1', 'alpha'),
    'Zhai': ('log10_Mmin', 'sigma', 'log10_Msat', 'log10_Mcut', 'alpha'),
    'Cacciato': ('log10_obs_norm_c', 'log10_m_ch', 'g1', 'g2', 'sigma_log10_O_c', 'norm_s', 'pivot', 'alpha_s', 'beta_s', 'b0', 'b1', 'b2'),
}
RANGES = {
    'Zheng': ((11.0, 13.0), (0.05, 0.9), (11.0, 13.0), (12.5, 14.0), (0.5, 1.5)),
    'Zhai': ((11.0, 13.0), (0.05, 0.9), (12.5, 14.0), (11.0, 13.0), (0.5, 1.5)),
    'Cacciato': ((9.0, 10.6), (10.8, 12.2), (2.0, 6.0), (0.1, 0.6), (0.1, 0.35), (0.4, 1.0), (11.5, 12.6), (-1.4, -0.7), (0.8, 2.2), (-1.2, 0.1),
                 (0.7, 1.5), (-0.2, 0.05)),
}
HALO = {'hmf_model': ['Tinker10', 'ST', 'Tinker08'], 'bias_model': ['Tinker10', 'ST99', 'SMT01'], 'mdef_model': ['SOMean', 'SOVirial'],
        'cm_model_cen': ['Duffy08', 'Bullock01'], 'cm_model_sat': ['Duffy08', 'Bullock01'], 'profile_cen': ['NFW', 'Hernquist'],
        'profile_sat': ['NFW', 'Hernquist']}


@st.composite
def bins(draw, nb, z, file_ok):
    b = draw(gen.covering_bins(nb, z, nobs=(10, 20), file_ok=file_ok, beyond=True))
    b.pop('observable_h_unit')
    return b


@st.composite
def values(draw, o):
    """What a pipeline puts into the block in one evaluation."""
    v = dict(cosmo=draw(gen.cosmology()), q=draw(gen.num(0.12, 0.28, 3)), s=draw(gen.num(0.75, 1.0, 3)),
             lin=draw(gen.external_power(len(o['z_in']))), nl=draw(gen.external_power(len(o['z_nl']))), A_s=draw(gen.num(1.5, 3.0, 2)))
    v['cosmo'].pop('Neff', None)
    for key, lo, hi in (('norm_cen', 0.7, 1.3), ('norm_sat', 0.7, 1.3), ('eta_cen', -0.2, 0.3), ('eta_sat', -0.2, 0.3)):
        if draw(st.booleans()):
            v[key] = draw(gen.num(lo, hi, 3))
    if draw(st.booleans()):
        v['m_b'] = draw(gen.num(12.5, 15.0, 2))
    if draw(st.booleans()):
        v['t_eff'] = draw(gen.num(0.0, 1.0, 2))
    if o['galaxy'] or o['ia']:
        nb = o['bins'] if o['hod_model'] != 'Cacciato' else 1
        v['hod'] = [[draw(gen.num(lo, hi, 3)) for _ in range(nb)] for lo, hi in RANGES[o['hod_model']]]
        for key in ('A_cen', 'A_sat'):
            if o[key]:
                v[key] = draw(gen.num(-0.4, 0.4, 2))
        v['poisson'] = dict(poisson=draw(gen.num(0.4, 1.5, 3)), pivot=draw(gen.num(11.0, 14.0, 2)), slope=draw(gen.num(-0.3, 0.3, 2)))
    v['ia'] = [dict(gamma_2h_amplitude=draw(gen.num(0.5, 8.0, 2)), gamma_1h_amplitude=draw(gen.num(0.0005, 0.01, 4)),
                    gamma_1h_radial_slope=draw(gen.num(-2.5, 0.0, 2)), beta=draw(gen.num(-0.3, 1.0, 2)), beta_sat=draw(gen.num(-0.3, 1.0, 2)),
                    M_pivot=draw(gen.num(12.5, 14.5, 2))) for _ in range(2 if o['split'] else 1)] if o['ia'] else []
    return v


@st.composite
def cases(draw):
    bare = draw(st.integers(0, 2)) == 0
    z0 = draw(st.sampled_from([0.0, 0.1]))
    z1 = round(z0 + draw(gen.num(0.3, 1.5, 2)), 3)
    nz = draw(st.integers(2, 4))
    if bare:
        z1 = draw(st.sampled_from([z1, 3.0]))
        nz = draw(st.sampled_from([nz, nz, 15]))
    z = np.linspace(z0, z1, nz)
    nk, mass = draw(st.integers(8, 20)), [draw(st.sampled_from([9.0, 10.0])), draw(st.sampled_from([15.0, 15.5])), draw(st.integers(20, 40))]
    if bare:
        nk, mass = draw(st.sampled_from([nk, 100])), [mass[0], draw(st.sampled_from([mass[1], 16.0])), draw(st.sampled_from([mass[2], 200]))]
    o = dict(z=[z0, z1, nz], nk=nk, mass=mass, bare=bare,
             k_in=[draw(gen.num(-3.0, -2.0, 2)), draw(gen.num(0.5, 1.5, 2)), draw(st.integers(12, 40))],
             z_in=[max(0.0, round(z0 - draw(st.sampled_from([0.0, 0.1])), 3)), *sorted({round(z0 + f * (z1 - z0), 3) for f in (0.3, 0.7)}),
                   round(z1 + draw(st.sampled_from([0.0, 0.4])), 3)])
    o['k_nl'] = [o['k_in'][0] - draw(st.sampled_from([0.0, 0.5])), o['k_in'][1] - draw(st.sampled_from([0.0, 0.3])), draw(st.integers(20, 40))]
    o['z_nl'] = [o['z_in'][0], round(o['z_in'][-1] + draw(st.sampled_from([0.0, 0.5])), 3)]
    o['flags'] = [f for f in ('p_mm', 'p_gg', 'p_gm', 'p_gI', 'p_mI', 'p_II') if draw(st.booleans())] or ['p_mm']
    if draw(st.integers(0, 3)) == 0:
        o['flags'] = ['p_mm']
    o['galaxy'] = 'p_gg' in o['flags'] or 'p_gm' in o['flags']
    o['ia'] = any(f in o['flags'] for f in ('p_gI', 'p_mI', 'p_II'))
    o['hod_model'] = draw(st.sampled_from(['Cacciato', *sorted(PARAMS)]))
    o['bins'] = draw(st.integers(1, 3))
    if o['ia'] and not o['galaxy']:
        o['hod_model'] = 'Cacciato'  # the other models take their parameters per galaxy bin
    o['split'] = o['ia'] and draw(st.integers(0, 3)) == 0
    o['halo'] = {k: draw(st.sampled_from(c)) for k, c in HALO.items() if draw(st.booleans())}
    ing = draw(st.sampled_from(['None', 'None', 'mead2020', 'mead2020_feedback', 'fit', 'fit']))
    if ing == 'fit' and not o['galaxy']:
        ing = 'mead2020_feedback'
    modes = ['None', 'fortuna', 'bnl'] + (['hmcode'] * 2 if ing.startswith('mead') else [])
    o['ingredients'], o['mode'] = ing, draw(st.sampled_from(modes))
    if o['mode'] == 'bnl':
        o['update_bnl'] = draw(st.integers(1, 2))
    o['overdensity'] = draw(st.one_of(st.none(), gen.num(180.0, 400.0, 1)))
    o['delta_c'] = draw(st.one_of(st.none(), gen.num(1.6, 1.75, 3)))
    o['response'] = draw(st.sampled_from([False, False, True]))
    o['dewiggle'] = draw(st.sampled_from([False, False, True]))
    o['point_mass'] = draw(st.booleans())
    o['poisson'] = draw(st.sampled_from(['constant', 'power_law']))
    o['trunc'] = {k: draw(st.one_of(st.just('None'), gen.num(lo, hi, 2))) for k, lo, hi in (
        ('one_halo_ktrunc', 0.02, 0.5), ('two_halo_ktrunc', 0.5, 4.0), ('one_halo_ktrunc_ia', 1.0, 8.0), ('two_halo_ktrunc_ia', 2.0, 10.0))
        if draw(st.booleans())}
    o['unit'] = draw(st.sampled_from([None, '1/h', '1/h^2']))
    o['suffix'] = draw(st.sampled_from(['', 'red']))
    o['names'] = draw(st.booleans())
    o['central'], o['satellite'] = (draw(st.sampled_from([None, 'halo_mass', 'constant'])) for _ in range(2))
    o['A_cen'], o['A_sat'] = draw(st.booleans()), draw(st.booleans())
    # the parameters of the models other than Cacciato's are arrays over the galaxy bins
    nia = o['bins'] if o['hod_model'] != 'Cacciato' else draw(st.integers(1, 2))
    b = {'hod': draw(bins(o['bins'], z, o['bins'] == 1))}
    if o['ia']:
        for key in (('ia_1', 'ia_2') if o['split'] else ('ia',)):
            b[key] = draw(bins(nia, z, nia == 1))
    if (o['galaxy'] or o['ia']) and o['hod_model'] == 'Cacciato' and draw(st.integers(0, 2)) == 0:
        b['smf'] = draw(bins(draw(st.integers(1, 2)), z, False))
        if len(b['smf']['obs_min']) == 1 and draw(st.booleans()):
            b['smf']['nz'] = 1
    o['settings'] = b
    o['save'] = 'smf' in b and draw(st.integers(0, 3)) > 0
    most = draw(st.integers(1, 3))
    if o['mode'] == 'bnl' and draw(st.booleans()):
        most = o['update_bnl'] + draw(st.integers(1, 2))  # past the next refresh of the tabulated bias
    return dict(o=o, values=[draw(values(o)) for _ in range(most)])


class Scratch:
    def __init__(self):
        self.tmp = tempfile.TemporaryDirectory()
        self.files = {}

    def file(self, key, rows):
        if key not in self.files:
            self.files[key] = os.path.join(self.tmp.name, key + '.txt')
            np.savetxt(self.files[key], [[r[0], 10.0 ** r[1], 10.0 ** r[2]] for r in rows], fmt='%.17g')
        return self.files[key]


def options(o, sc):
    v = {}

    def put(n, x):
        v[OPT, n] = x

    for f in ('p_mm', 'p_gg', 'p_gm', 'p_gI', 'p_mI', 'p_II'):
        if f in o['flags'] or o['names']:
            put(f, f in o['flags'])
    for key, x, default in (('zmin_hmf', o['z'][0], 0.0), ('zmax_hmf', o['z'][1], 3.0), ('nz_hmf', o['z'][2], 15), ('nk', o['nk'], 100),
                            ('log_mass_min', o['mass'][0], 9.0), ('log_mass_max', o['mass'][1], 16.0), ('nmass', o['mass'][2], 200),
                            ('hmcode_ingredients', o['ingredients'], 'None'), ('nonlinear_mode', o['mode'], 'None'), ('hod_model', o['hod_model'], 'Cacciato')):
        if not (o['bare'] and x == default):
            put(key, x)
    for key in ('response', 'dewiggle', 'point_mass'):
        if o[key] or o['names']:
            put(key, o[key])
    for key, x in list(o['halo'].items()) + list(o['trunc'].items()):
        put(key, x)
    for key in ('overdensity', 'delta_c', 'update_bnl'):
        if o.get(key) is not None:
            put(key, o[key])
    put('poisson_type', o['poisson'])
    if o['unit']:
        put('observable_h_unit', o['unit'])
    if o['names']:
        put('hod_section_name', 'hod_x'), put('values_name', 'hod_parameters_x'), put('profile_value_name', 'profile_x')
    if o['ia']:
        if o['central']:
            put('central_IA_depends_on', o['central'])
        if o['satellite']:
            put('satellite_IA_depends_on', o['satellite'])
        put('split_ia', o['split'])
        if o['split']:
            put('hod_section_name_ia_1', 'hod_ia1'), put('hod_section_name_ia_2', 'hod_ia2')
            put('output_suffix_ia_1', 'red'), put('output_suffix_ia_2', 'Blue')
        else:
            put('hod_section_name_ia', 'hod_ia'), put('output_suffix_ia', o['suffix'])
    for key, b in o['settings'].items():
        if 'table' in b:
            put(f'observables_file_{key}', sc.file(key, b['table']))
        else:
            for a, c in (('log10_obs_min', 'obs_min'), ('log10_obs_max', 'obs_max'), ('zmin', 'zmin'), ('zmax', 'zmax')):
                put(f'{a}_{key}', b[c][0] if len(b[c]) == 1 else np.array(b[c]))
            put(f'nz_{key}', b['nz'])
        put(f'nobs_{key}', b['nobs'])
    if 'smf' in o['settings']:
        if o['save'] or o['names']:
            put('save_observable', o['save'])
        if o['names']:
            put('observable_section_name', 'lf_x')
    return v


def transfer(q0):
    k = np.logspace(-5, 4, 200)
    q = k / q0
    return k, np.log(1.0 + 2.34 * q) / (2.34 * q) * (1.0 + 3.89 * q + (16.1 * q) ** 2 + (5.46 * q) ** 3 + (6.71 * q) ** 4) ** -0.25


def block(o, v):
    c = v['cosmo']
    out = {}
    k, t = transfer(v['q'])
    out['matter_power_transfer_func', 'k_h'], out['matter_power_transfer_func', 't_k'] = k, t
    z = np.linspace(0.0, 6.0, 61)
    out['growth_parameters', 'z'], out['growth_parameters', 'd_z'] = z, (1.0 + z) ** -v['s']
    for key, zk, kk in (('lin', 'z_in', 'k_in'), ('nl', 'z_nl', 'k_nl')):
        z, k = np.array(o[zk]), np.logspace(*o[kk])
        n = f'matter_power_{key}'
        out[n, 'z'], out[n, 'k_h'], out[n, 'p_k'] = z, k, gen.power_array(v[key], z, k)
    cp = 'cosmological_parameters'
    for a, b in (('omega_c', 'omega_c'), ('omega_b', 'omega_b'), ('h0', 'h0'), ('n_s', 'n_s'), ('sigma_8', 'sigma_8'), ('mnu', 'm_nu'), ('w', 'w0'), ('wa', 'wa')):
        out[cp, a] = c[b]
    out[cp, 'omega_m'] = c['omega_c'] + c['omega_b'] + 0.001
    out[cp, 'A_s'] = v['A_s'] * 1e-9
    if 'tcmb' in c:
        out[cp, 'TCMB'] = c['tcmb']
    out['halo_model_parameters', 'logT_AGN'] = c['log10T_AGN']
    if 'm_b' in v:
        out['halo_model_parameters', 'm_b'] = v['m_b']
    for key in ('norm_cen', 'norm_sat', 'eta_cen', 'eta_sat'):
        if key in v:
            out['profile_x' if o['names'] else 'profile_parameters', key] = v[key]
    if 't_eff' in v:
        out['pk_parameters', 'linear_fraction_fortuna'] = v['t_eff']
    sec = 'hod_parameters_x' if o['names'] else 'hod_parameters'
    if 'hod' in v:
        for name, vals in zip(PARAMS[o['hod_model']], v['hod']):
            for i, x in enumerate(vals):
                out[sec, name if len(vals) == 1 else f'{name}_{i + 1}'] = x
        for key in ('A_cen', 'A_sat'):
            if key in v:
                out[sec, key] = v[key]
        for key, x in v['poisson'].items():
            out['pk_parameters', key] = x
    for a, n in zip(v['ia'], ('red', 'blue') if o['split'] else (o['suffix'],)):
        for key, x in a.items():
            out['intrinsic_alignment_parameters' + (f'_{n}' if n else ''), key] = x
    return out


def settings(o, key, sc):
    b = o['settings'][key]
    d = dict(nobs=b['nobs'], observable_h_unit=o['unit'] or '1/h^2')
    if 'table' in b:
        d['observables_file'] = sc.file(key, b['table'])
    else:
        d.update(observables_file=None, nz=b['nz'], **{a: np.array(b[a], float) for a in ('obs_min', 'obs_max', 'zmin', 'zmax')})
    return d


def settings_mm(o, sc):
    d = settings(o, 'hod', sc)
    if d['observables_file'] is None:
        d.update(obs_min=d['obs_min'].min(keepdims=True), obs_max=d['obs_max'].max(keepdims=True), zmin=d['zmin'].min(keepdims=True),
                 zmax=d['zmax'].max(keepdims=True), nz=15)
    d['nobs'] = 100
    return d


def lin_z(p, zi, zo):
    """Linear interpolation and extrapolation along the first axis."""
    zi = np.asarray(zi)
    out = []
    for x in np.atleast_1d(zo):
        i = int(np.clip(np.searchsorted(zi, x) - 1, 0, len(zi) - 2))
        w = (x - zi[i]) / (zi[i + 1] - zi[i])
        out.append((1.0 - w) * p[i] + w * p[i + 1])
    return np.array(out)


def log_k(p, ki, ko):
    return np.exp(lin_z(np.log(np.asarray(p).T), np.log(ki), np.log(ko)).T)


def arguments(o, v, sc, beta):
    """Keyword arguments of the model the options and values describe."""
    c = v['cosmo']
    none = lambda x: None if x == 'None' else x
    z = np.linspace(*o['z'])
    ki = np.logspace(*o['k_in'])
    k = np.logspace(np.log10(ki[0]), np.log10(ki[-1]), o['nk'])
    kw = dict(z_vec=z, k_vec=k, Mmin=o['mass'][0], Mmax=o['mass'][1], dlog10m=(o['mass'][1] - o['mass'][0]) / o['mass'][2],
              lnk_min=np.log(1e-8), lnk_max=np.log(1e8), dlnk=0.05, hmcode_ingredients=none(o['ingredients']), nonlinear_mode=none(o['mode']),
              dewiggle=o['dewiggle'], overdensity=o['overdensity'] or 200.0, delta_c=o['delta_c'] or 1.686, log10T_AGN=c['log10T_AGN'],
              mb=10.0 ** v.get('m_b', 13.87), tcmb=c.get('tcmb', 2.7255))
    kw.update({a: c[a] for a in ('omega_c', 'omega_b', 'h0', 'n_s', 'sigma_8', 'm_nu', 'w0', 'wa')})
    kw.update(norm_cen=v.get('norm_cen', 1.0), norm_sat=v.get('norm_sat', 1.0), eta_cen=v.get('eta_cen', 0.0), eta_sat=v.get('eta_sat', 0.0))
    names = dict(hmf_model='hmf_model', bias_model='bias_model', mdef_model='mdef_model', cm_model_cen='halo_concentration_model_dm',
                 cm_model_sat='halo_concentration_model_sat', profile_cen='halo_profile_model_dm', profile_sat='halo_profile_model_sat')
    for a, b in names.items():
        kw[b] = o['halo'].get(a, HALO[a][0])
    tr = dict(one_halo_ktrunc=0.1, two_halo_ktrunc=2.0, one_halo_ktrunc_ia=4.0, two_halo_ktrunc_ia=6.0)
    tr.update({a: none(b) for a, b in o['trunc'].items()})
    kw.update(one_halo_ktrunc=tr['one_halo_ktrunc'], two_halo_ktrunc=tr['two_halo_ktrunc'])
    tk, t = transfer(v['q'])
    zg = np.linspace(0.0, 6.0, 61)
    kw.update(transfer_model='FromArray', transfer_params={'k': tk, 'T': t}, growth_model='FromArray', growth_params={'z': zg, 'd': (1.0 + zg) ** -v['s']})
    kw['matter_power_lin'] = log_k(lin_z(gen.power_array(v['lin'], o['z_in'], ki), o['z_in'], z), ki, k)
    if o['response'] or o['mode'] == 'fortuna':
        kn = np.logspace(*o['k_nl'])
        kw['matter_power_nl'] = log_k(lin_z(gen.power_array(v['nl'], o['z_nl'], kn), o['z_nl'], z), kn, k)
        kw['response'] = o['response']
    if beta is not None:
        kw['beta_nl'] = beta
    if o['galaxy'] or o['ia']:
        kw.update(poisson_model=o['poisson'], poisson_params=dict(v['poisson']) if o['poisson'] == 'power_law' else {'poisson': v['poisson']['poisson']},
                  pointmass=o['point_mass'], hod_model=o['hod_model'])
        kw['hod_params'] = {n: (x[0] if o['hod_model'] == 'Cacciato' else np.array(x)) for n, x in zip(PARAMS[o['hod_model']], v['hod'])}
        kw['hod_params'].update(A_cen=v.get('A_cen'), A_sat=v.get('A_sat'))
        if o['galaxy']:
            kw.update(hod_settings=settings(o, 'hod', sc), hod_settings_mm=settings_mm(o, sc))
        if o['save']:
            kw.update(obs_settings=settings(o, 'smf', sc), compute_observable=True)
    if o['ia']:
        kw.update(align_params=alignment(o, v['ia'][0]), one_halo_ktrunc_ia=tr['one_halo_ktrunc_ia'], two_halo_ktrunc_ia=tr['two_halo_ktrunc_ia'],
                  t_eff=v.get('t_eff', 0.0))
    return kw


def alignment(o, a):
    d = dict(nmass=5, n_hankel=350, nk=10, ell_max=6, gamma_1h_slope=a['gamma_1h_radial_slope'], gamma_1h_amplitude=a['gamma_1h_amplitude'],
             gamma_2h_amplitude=a['gamma_2h_amplitude'], central_ia_depends_on=o['central'] or 'halo_mass', satellite_ia_depends_on=o['satellite'] or 'halo_mass',
             beta_cen=None, mpivot_cen=None, beta_sat=None, mpivot_sat=None)
    if d['central_ia_depends_on'] == 'halo_mass':
        d.update(beta_cen=a['beta'], mpivot_cen=a['M_pivot'])
    if d['satellite_ia_depends_on'] == 'halo_mass':
        d.update(beta_sat=a['beta_sat'], mpivot_sat=a['M_pivot'])
    return d


def beta_of(mass, z, k, h0, A_s, omega_b, omega_c, omega_lambda, n_s, w0):
    """A smooth function that depends on all that the emulator is given."""
    lm = np.log10(mass) - 13.0
    a = 0.2 * h0 / 0.7 + 1e8 * (A_s - 2e-9) + omega_b + 0.3 * omega_c - 0.2 * omega_lambda + 0.1 * (n_s - 1.0) + 0.2 * (w0 + 1.0) + 0.05 * np.mean(z)
    b = np.exp(-np.log10(k) ** 2)[:, None, None] * (a + 0.05 * (lm[:, None] + lm[None, :]) + 0.01 * lm[:, None] * lm[None, :])
    return b[None]


def beta_for(o, v):
    c = v['cosmo']
    ki = np.logspace(*o['k_in'])
    return beta_of(10.0 ** np.arange(o['mass'][0], o['mass'][1], (o['mass'][1] - o['mass'][0]) / o['mass'][2]), np.linspace(*o['z']),
                   np.logspace(np.log10(ki[0]), np.log10(ki[-1]), o['nk']), c['h0'], v['A_s'] * 1e-9, c['omega_b'], c['omega_c'],
                   1.0 - (c['omega_c'] + c['omega_b'] + 0.001), c['n_s'], c['w0'])


class Emulator:
    def __init__(self, mass=None, z_vec=None, k_vec=None, h0=0.7, sigma_8=0.8, A_s=None, omega_b=0.05, omega_c=0.25, omega_lambda=0.7, n_s=1.0,
                 w0=-1.0, z_dep=False):
        if A_s is None or z_dep:
            raise Violation('the emulator is asked for a redshift dependence or not given A_s')
        self.bnl = beta_of(np.asarray(mass), np.asarray(z_vec), np.asarray(k_vec), h0, A_s, omega_b, omega_c, omega_lambda, n_s, w0)


_mod = []


def interface():
    if not _mod:
        cosmosis_stub.install()
        import onepower.bnl as bnl

        import onepower.pk  # noqa: F401  (keeps its own emulator)

        bnl.NonLinearBias = Emulator
        import onepower_interface

        _mod.append(onepower_interface)
    return _mod[0]


class P(Prop):
    id = 'C23'
    rule = ('options of a pipeline (spectra, grids, models, bins from arrays or a file, truncations, names of sections) and one to three evaluations with '
            'their own cosmology, power spectra, galaxies and alignments, through the same set-up; non-trivial: galaxies or alignments are requested, or '
            'more than one evaluation')
    assumptions = ('a stand-in for the data block of CosmoSIS, and for the emulator in the mode of non-linear bias',
                   'a freshly built model with the parameters described is right (other properties); agreement to 1e-8, interpolation included')
    quick, thorough = 60, 400

    def strategy(self, tier):
        return cases()

    def labels(self, case):
        o = case['o']
        return [f"mode={o['mode']}", f"spectra={'+'.join(o['flags'])}"[:40], f"evaluations={len(case['values'])}"]

    def nontrivial(self, case):
        return case['o']['galaxy'] or case['o']['ia'] or len(case['values']) > 1

    def check(self, case, note):
        o = case['o']
        m = interface()
        sc = Scratch()
        opts = cosmosis_stub.Block(options(o, sc))
        with sut('setup'):
            config = m.setup(opts)
        beta = None
        for i, v in enumerate(case['values']):
            b = cosmosis_stub.Block(block(o, v))
            given = {k: (x.copy() if isinstance(x, np.ndarray) else x) for k, x in b.v.items()}
            with sut(f'evaluation {i + 1}'):
                rc = m.execute(b, config)
            if rc != 0:
                raise Violation(f'evaluation {i + 1} returned {rc!r}')
            if o['mode'] == 'bnl' and i % o['update_bnl'] == 0:
                beta = beta_for(o, v)
            if o['split']:
                self.populated(o, v, sc, beta)
            want = self.expected(o, v, sc, beta)
            extra = {k[0] for k in b.written} & self.others(o, want)
            if extra:
                raise Violation(f'evaluation {i + 1}: {sorted(extra)} are written although not asked for')
            for (s, n), x in want.items():
                key = b.key(s, n)
                if key not in b.written:
                    raise Violation(f'evaluation {i + 1}: {s}, {n} is not written')
                compare(f'evaluation {i + 1}: {s}, {n}', np.asarray(b.v[key]), np.asarray(x), rtol=1e-8, atol=1e-14)
                note('values written')
            for k, x in given.items():
                if k[0] in ('matter_power_nl', 'cosmological_parameters') and k in b.written:
                    if o['response'] and k[0] == 'matter_power_nl':
                        raise Violation('the non-linear power is overwritten although the response uses it')
                    continue
                if not np.array_equal(np.asarray(b.v[k]), np.asarray(x)):
                    raise Violation(f'evaluation {i + 1}: the value {k} of the block is changed')

        if o['split'] and len(case['values']) == 1:
            self.second(m, o, v, b, opts)

    def others(self, o, want):
        """Sections of results that are not asked for."""
        sec = {'matter_power_nl', 'stellar_mass_function', 'lf_x'}
        for s in ('galaxy_power', 'galaxy_linear_bias', 'matter_galaxy_power', 'galaxy_matter_linear_bias', 'intrinsic_power', 'galaxy_intrinsic_power',
                  'matter_intrinsic_power'):
            sec |= {s, f'{s}_1', f'{s}_2', f'{s}_3'}
        return sec - {s for s, _ in want}

    def populated(self, o, v, sc, beta):
        """A bin without any galaxies has undefined spectra."""
        from onepower.pk import Spectra

        with sut('a model of its own'):
            n = Spectra(**{**arguments(o, v, sc, beta), 'hod_settings': settings(o, 'ia_2', sc)}).hod.number_density
        if not np.all(n > 1e-30):
            raise Skip('second population empty')

    def second(self, m, o, v, b, opts):
        """The spectra of a split sample depend on its second population."""
        w = dict(v, ia=[v['ia'][0], {**v['ia'][1], 'gamma_2h_amplitude': 2.0 * v['ia'][1]['gamma_2h_amplitude'],
                                     'gamma_1h_amplitude': 2.0 * v['ia'][1]['gamma_1h_amplitude']}])
        b2 = cosmosis_stub.Block(block(o, w))
        with sut('evaluation'):
            m.execute(b2, m.setup(opts))
        keys = [k for k in b.written if k[0].split('_power')[0] in ('intrinsic', 'galaxy_intrinsic', 'matter_intrinsic') and k[1].startswith('p_k')]
        if keys and all(np.array_equal(b.v[k], b2.v[k]) for k in keys):
            e = Violation('split_ia: the alignment spectra do not depend on the second population')
            e.key = 'split-ia-fraction'
            raise e

    def expected(self, o, v, sc, beta):
        from onepower.pk import Spectra

        kw = arguments(o, v, sc, beta)
        with sut('a model of its own'):
            s = Spectra(**gen.copy_kwargs(kw))
            out = {}
            z, k, mass = kw['z_vec'], kw['k_vec'], s.mass
            zo, ko = np.array(o['z_in']), np.logspace(*o['k_in'])

            def put(sec, **d):
                for n, x in d.items():
                    out[sec, n] = x

            for sec, c in (('concentration_m', s.conc_cen), ('concentration_sat', s.conc_sat)):
                put(sec, z=z, m_h=mass, c=c)
            for sec, c in (('nfw_scale_radius_m', s.r_s_cen), ('nfw_scale_radius_sat', s.r_s_sat)):
                put(sec, z=z, m_h=mass, rs=c)
            put('virial_radius', m_h=mass, rvir_m=s.rvir_cen[0], rvir_sat=s.rvir_sat[0])
            put('fourier_nfw_profile', z=z, m_h=mass, k_h=k, ukm=s.u_dm, uksat=s.u_sat)
            om = v['cosmo']['omega_c'] + v['cosmo']['omega_b'] + 0.001
            put('density', z=z, mean_density0=s.mean_density0, rho_crit=s.mean_density0 / om, mean_density_z=s.mean_density_z, rho_halo=s.rho_halo)
            put('hmf', z=z, m_h=mass, dndlnmh=s.dndlnm, nu=s.nu, neff=s.neff, sigma8_z=s.sigma8_z)
            put('halobias', z=z, m_h=mass, b_hb=s.halo_bias)
            put('cosmological_parameters', fnu=s.fnu)

            def hods(sec, s):
                nb = s.hod.hod_cen.shape[0]
                put(sec, nbins=nb)
                for i in range(nb):
                    u = f'_{i + 1}' if nb != 1 else ''
                    put(sec, **{f'{a}{u}': x for a, x in (
                        ('z', z), ('mass', mass), ('N_sat', s.hod.hod_sat[i]), ('N_cen', s.hod.hod_cen[i]), ('N_tot', s.hod.hod[i]), ('f_star', s.fstar[i]),
                        ('number_density_cen', s.hod.number_density_cen[i]), ('number_density_sat', s.hod.number_density_sat[i]),
                        ('number_density_tot', s.hod.number_density[i]), ('central_fraction', s.hod.f_c[i]), ('satellite_fraction', s.hod.f_s[i]),
                        ('average_halo_mass', s.mass_avg[i]))})

            def spectrum(sec, p, bins=True, bias=None):
                nb = p.pk_tot.shape[0]
                for i in range(nb):
                    u = f'_{i + 1}' if bins and nb != 1 else ''
                    put(sec + u, z=zo, k_h=ko)
                    for n, x in (('p_k_1h', p.pk_1h), ('p_k_2h', p.pk_2h), ('p_k', p.pk_tot)):
                        put(sec + u, **{n: lin_z(lin_z(x[i], z, zo).T, np.log10(k), np.log10(ko)).T})
                    if bias:
                        put(bias[0] + u, z=z, k_h=k, **{bias[1]: p.galaxy_linear_bias[i]})

            if o['galaxy']:
                hods('hod_x' if o['names'] else 'hod', s)
            if o['save'] and (o['galaxy'] or 'p_mm' not in o['flags']):
                sec = 'lf_x' if o['names'] else 'stellar_mass_function'
                for i in range(s.obs_func_obs.shape[0]):
                    for n, x in (('obs_func', s.obs_func), ('obs_func_c', s.obs_func_cen), ('obs_func_s', s.obs_func_sat)):
                        put(sec, **{f'{n}_{i + 1}': np.squeeze(x) if s.obs_func_z.size == 1 else x[i]})
                    put(sec, **{f'obs_val_{i + 1}': np.squeeze(s.obs_func_obs[i, 0])})
                    if s.obs_func_z.size != 1:
                        put(sec, **{f'z_bin_{i + 1}': s.obs_func_z[i]})
            if 'p_mm' in o['flags'] and not o['response']:
                spectrum('matter_power_nl', s.power_spectrum_mm, bins=False)
            if 'p_gg' in o['flags']:
                spectrum('galaxy_power', s.power_spectrum_gg, bias=('galaxy_linear_bias', 'bg_linear'))
            if 'p_gm' in o['flags']:
                spectrum('matter_galaxy_power', s.power_spectrum_gm, bias=('galaxy_matter_linear_bias', 'bgm_linear'))
            if o['ia']:
                kw['hod_settings'] = settings(o, 'ia_1' if o['split'] else 'ia', sc)
                s = Spectra(**gen.copy_kwargs(kw))
                hods('hod_ia1' if o['split'] else 'hod_ia', s)
                for f, n, sec in (('p_II', 'ii', 'intrinsic_power'), ('p_gI', 'gi', 'galaxy_intrinsic_power'), ('p_mI', 'mi', 'matter_intrinsic_power')):
                    if f in o['flags']:
                        spectrum(sec, getattr(s, f'power_spectrum_{n}'))
        return out


PROP = P()
