import numpy as np

from .. import cmp, gen, ref
from ..core import Prop, sut

PAIRS = (('mass', 'm'), ('kh', 'kh'), ('power', 'power'), ('nonlinear_power', 'nlpower'), ('dndlnm', 'dndlnm'), ('halo_bias', 'bias'),
         ('nu', 'nu'), ('halo_overdensity_mean', 'delta'), ('mean_density0', 'rho0'), ('mean_density_z', 'rhoz'), ('neff', 'neff'),
         ('sigma8_z', 'sigma8'), ('growth_factor', 'growth'), ('u_dm', 'u_cen'), ('u_sat', 'u_sat'), ('nfw_cen', 'uraw_cen'),
         ('nfw_sat', 'uraw_sat'), ('conc_cen', 'c_cen'), ('conc_sat', 'c_sat'), ('rvir_cen', 'rvir_cen'), ('rvir_sat', 'rvir_sat'),
         ('r_s_cen', 'rs_cen'), ('r_s_sat', 'rs_sat'))
GRIDS = ('z_vec', 'k_vec', 'lnk_min', 'lnk_max', 'dlnk', 'Mmin', 'Mmax', 'dlog10m')


class P(Prop):
    id = 'C03'
    rule = ('one to four redshifts, a wide choice of mass functions, biases, mass definitions, profiles, concentrations (halomod and colossus), '
            'normalisations and bloating per redshift; non-trivial: more than one redshift and at least one model off its default')
    assumptions = ('halomod/hmf compute what they document for one redshift at a time (a fresh DMHaloModel per redshift is the oracle)',
                   'agreement to 1e-6 of each value')
    quick, thorough = 32, 800

    def strategy(self, tier):
        from hypothesis import strategies as st

        @st.composite
        def f(draw):
            c = draw(gen.grids(min_z=1, max_z=4, kmax=14))
            c.update(draw(gen.cosmology()))
            c.update(draw(gen.halo(ingredients=(None, None, None, 'mead2020', 'mead2020_feedback', 'fit'), nz=len(c['z']))))
            c.update(draw(gen.implicit(c)))
            return c

        return f()

    def nontrivial(self, case):
        return len(case['z']) > 1 and (case['hmf_model'] != 'Tinker10' or case['hmcode_ingredients'] is not None
                                       or case['halo_concentration_model_dm'] != 'Duffy08')

    def labels(self, case):
        return [f"ingredients={case['hmcode_ingredients']}", f"mdef={case['mdef_model']}", f"nz={len(case['z'])}",
                f"conc={case['halo_concentration_model_dm']}", f"profile={case['halo_profile_model_dm']}"]

    def check(self, case, note):
        from onepower.hmi import HaloModelIngredients

        a = gen.spectra_kwargs(case)
        P = dict(ref.DEFAULTS)
        P.update(gen.copy_kwargs(a.kw))
        try:
            halos = ref.ingredients(P, nonlinear=True)
        except Exception as e:
            # halomod itself refuses the combination: it lies outside the domain
            from ..core import Skip

            raise Skip(f'halomod refuses the combination ({type(e).__name__})')
        with sut('HaloModelIngredients(...)'):
            h = HaloModelIngredients(**gen.copy_kwargs(a.kw))
        with sut('HaloModelIngredients without grids'):
            bare = HaloModelIngredients(**{k: v for k, v in gen.copy_kwargs(a.kw).items() if k not in GRIDS and isinstance(v, float)})
            left = {k: np.asarray(getattr(bare, k), float) for k in GRIDS}
        for k, x in left.items():
            cmp.compare(f'{k} left out', x, np.asarray(ref.DEFAULTS[k], float), note=note)
        for name, key in PAIRS:
            with sut(name):
                g = np.asarray(getattr(h, name))
            if name in ('mass', 'kh'):
                w = getattr(halos[0], key)
            else:
                w = np.array([getattr(x, key) for x in halos])
            cmp.compare(name, np.squeeze(g), np.squeeze(w), note=note)
        with sut('rho_halo'):
            g = h.rho_halo
        cmp.compare('rho_halo', np.squeeze(g), np.squeeze(np.array([x.delta * x.rho0 for x in halos])), note=note)
        with sut('cosmology'):
            om, fnu, sf, cm = h.omega_m, h.fnu, h.scale_factor, h.cosmo_model
        c = ref.cosmology(P)
        z = np.asarray(P['z_vec'])
        cmp.compare('omega_m', om, P['omega_c'] + P['omega_b'], note=note)
        cmp.compare('fnu', fnu, np.full(len(z), c.Onu0 / c.Om0), note=note)
        cmp.compare('scale_factor', sf, 1.0 / (1.0 + z), note=note)
        cmp.compare('H(z)', cm.H(z).value, c.H(z).value, note=note)
        cmp.compare('Om(z)', cm.Om(z), c.Om(z), note=note)


PROP = P()
