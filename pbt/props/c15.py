import numpy as np
from hypothesis import strategies as st

from .. import cmp, gen, sutlib
from ..core import Prop, sut

HALO_Z = ('power', 'dndlnm', 'halo_bias', 'nu', 'neff', 'sigma8_z', 'mean_density_z', 'halo_overdensity_mean', 'conc_cen', 'conc_sat',
          'u_dm', 'u_sat', 'r_s_cen', 'rvir_cen', 'growth_factor')


@st.composite
def cases(draw):
    what = draw(gen.weighted((3, st.just('bins')), (2, st.just('z')), (2, st.just('z of galaxies')), (2, st.just('k'))))
    if what == 'bins':
        c = draw(gen.model('all', luminosity=False, max_bins=4, kmax=12))
        nb = len(c['hod_settings'].get('obs_min', [0]))
        pick = draw(st.lists(st.integers(0, nb - 1), min_size=1, max_size=nb, unique=True))
        return dict(what=what, cfg=c, pick=pick)
    if what == 'z':
        c = draw(gen.model('matter', wide=True, max_z=5, kmax=12))
        n = len(c['z'])
        pick = sorted(draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True)))
        return dict(what=what, cfg=c, pick=pick)
    if what == 'z of galaxies':
        # galaxies at the first and the last redshift of the model, which the selection keeps
        c = draw(gen.model('all', luminosity=False, max_z=5, max_bins=2, kmax=12))
        n = len(c['z'])
        for key in ('hod_settings', 'hod_settings_mm'):
            h = c.get(key)
            if not h:
                continue
            if 'table' in h:
                h['table'] = [[c['z'][0], *h['table'][0][1:]], [c['z'][-1], *h['table'][-1][1:]]]
            else:
                nb = len(h['obs_min'])
                h.update(zmin=[c['z'][0]] * nb, zmax=[c['z'][-1]] * nb, nz=2)
        pick = sorted({0, n - 1} | set(draw(st.lists(st.integers(0, n - 1), max_size=n, unique=True))))
        return dict(what=what, cfg=c, pick=pick)
    # smoothing over wavenumber needs the whole range: only without it
    c = draw(gen.model('all', luminosity=False, ingredients=(None, None, 'fit', 'mead2020'), modes=(None, 'bnl', 'fortuna'), max_bins=2, kmax=20))
    c['dewiggle'] = False
    n = c['k'][2]
    pick = sorted({0} | set(draw(st.lists(st.integers(1, n - 1), min_size=1, max_size=n, unique=True))))
    return dict(what=what, cfg=c, pick=pick)


class P(Prop):
    id = 'C15'
    rule = ('a random model and a selection of its galaxy bins (in any order), redshifts or wavenumbers; non-trivial: the selection differs '
            'from the whole')
    assumptions = ('wavenumber selections keep the first wavenumber, at which the code counts the mass below the lowest halo mass; redshift '
                   'selections look at the matter, and at galaxies given at the first and last redshift of the model (bins elsewhere are interpolated)',)
    quick, thorough = 64, 600

    def strategy(self, tier):
        return cases()

    def check(self, case, note):
        cfg, pick, what = case['cfg'], case['pick'], case['what']
        a = gen.spectra_kwargs(cfg)
        kw = gen.copy_kwargs(a.kw)
        if what == 'bins':
            if 'obs_min' not in cfg['hod_settings']:
                pick = [0]
            else:
                hs = kw['hod_settings']
                nb = len(hs['obs_min'])
                for key in ('obs_min', 'obs_max', 'zmin', 'zmax'):
                    hs[key] = hs[key][pick]
                kw['hod_params'] = {k: (v[pick] if isinstance(v, np.ndarray) and len(v) == nb else v) for k, v in kw['hod_params'].items()}
            names, axis = ('gg', 'gm', 'mi', 'ii', 'gi'), 0
        elif what[0] == 'z':
            kw['z_vec'] = kw['z_vec'][pick]
            for key in ('norm_cen', 'norm_sat', 'eta_cen', 'eta_sat', 'matter_power_lin', 'matter_power_nl'):
                if isinstance(kw.get(key), np.ndarray):
                    kw[key] = kw[key][pick]
            if kw.get('beta_nl') is not None and len(kw['beta_nl']) > 1:
                kw['beta_nl'] = kw['beta_nl'][pick]
            names, axis = ('mm',) if what == 'z' else sutlib.SPECTRA, 1
        else:
            kw['k_vec'] = kw['k_vec'][pick]
            for key in ('matter_power_lin', 'matter_power_nl'):
                if kw.get(key) is not None:
                    kw[key] = kw[key][:, pick]
            if kw.get('beta_nl') is not None:
                kw['beta_nl'] = kw['beta_nl'][:, pick]
            names, axis = sutlib.SPECTRA, 2
        if what == 'z' and (cfg['hmcode_ingredients'] == 'fit' or cfg.get('pointmass')):
            # the stars of the halos come from galaxies averaged over redshift
            names = ()
        whole, part = sutlib.spectra(gen.copy_kwargs(a.kw)), sutlib.spectra(kw)
        for n in names:
            w, p = sutlib.power(whole, n), sutlib.power(part, n)
            for i, comp in enumerate(('1h', '2h', 'tot')):
                cmp.compare(f'P_{n} {comp} of the selection of {what}', p[i], np.take(w[i], pick, axis=axis), rtol=1e-7, atol=1e-10, note=note)
            if n in ('gg', 'gm') and w[3] is not None:
                cmp.compare(f'bias of {n} of the selection of {what}', p[3], np.take(w[3], pick, axis=axis) if w[3].ndim > axis else w[3],
                            rtol=1e-7, note=note)
        if what == 'z':
            for n in HALO_Z:
                with sut(n):
                    w, p = np.asarray(getattr(whole, n)), np.asarray(getattr(part, n))
                cmp.compare(f'{n} of the selection of z', p, w[pick], rtol=1e-7, atol=1e-10, note=note)
        if what == 'bins':
            for n in ('number_density', 'f_c', 'f_s', 'avg_halo_mass', 'galaxy_linear_bias', 'hod_cen', 'hod_sat'):
                with sut(n):
                    w, p = np.asarray(getattr(whole.hod, n)), np.asarray(getattr(part.hod, n))
                cmp.compare(f'{n} of the selection of bins', p, w[pick], rtol=1e-7, atol=1e-10, note=note)

    def nontrivial(self, case):
        cfg = case['cfg']
        n = {'bins': len(cfg['hod_settings'].get('obs_min', [0])) if cfg.get('hod_settings') else 0, 'z': len(cfg['z']), 'z of galaxies': len(cfg['z']), 'k': cfg['k'][2]}[case['what']]
        return list(case['pick']) != list(range(n))

    def labels(self, case):
        return [f"selection of {case['what']}", f"mode={case['cfg'].get('nonlinear_mode')}"]


PROP = P()
