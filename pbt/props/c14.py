import numpy as np

from .. import cmp, gen, hodgen, ref
from ..core import Prop, sut


class P(Prop):
    id = 'C14'
    rule = ('the Cacciato conditional observable functions with random parameters, bins and units; non-trivial: at least one parameter off '
            'its default. One case in six goes through Spectra (compute_observable and obs_settings)')
    assumptions = ('numpy, scipy and, in the cases through Spectra, halomod compute what they document',)
    quick, thorough = 220, 4000

    def strategy(self, tier):
        from hypothesis import strategies as st

        @st.composite
        def whole(draw):
            c = draw(gen.grids(max_z=3, kmax=8))
            c.update(draw(gen.cosmology()))
            c.update(draw(gen.simple_halo(nz=len(c['z']))))
            c.update(draw(gen.galaxies(c['z'], max_bins=3, models=('Cacciato',))))
            c['compute_observable'] = True
            c['obs_settings'] = draw(gen.covering_bins(draw(st.integers(1, 3)), c['z']))
            return dict(spectra=c)

        d = hodgen.cases(models=('Cacciato',))
        return gen.weighted((5, d), (1, whole()))

    def labels(self, case):
        return ['through Spectra'] if 'spectra' in case else hodgen.labels(case)

    def nontrivial(self, case):
        return 'spectra' in case or bool(case['params'])

    def check(self, case, note):
        if 'spectra' in case:
            return self.check_spectra(case['spectra'], note)
        obj, par, settings, m, z, dn, bias, h = hodgen.build(case)
        r = hodgen.reference(case, par, settings, m, z, dn, bias, h)
        with sut('stellar fractions'):
            f = obj.stellar_fraction_cen, obj.stellar_fraction_sat, obj.stellar_fraction
        for name, g, w in zip(('centrals', 'satellites', 'all'), f, (r.fstar_c, r.fstar_s, r.fstar)):
            cmp.compare(f'stellar fraction of {name}', g, w, note=note)
        O, Z, C, S, T = ref.observable_function(par, settings, z, m, dn)
        with sut('observable functions'):
            got = [np.asarray(x) for x in (obj.obs_func_cen, obj.obs_func_sat, obj.obs_func)]
            obs = np.asarray(obj.obs).reshape(O.shape)
        cmp.compare('observables', obs, O, note=note)
        for name, g, w in zip(('centrals', 'satellites', 'all'), got, (C, S, T)):
            cmp.compare(f'observable function of {name}', np.log(10.0) * O * g.reshape(O.shape), w, note=note)

    def check_spectra(self, cfg, note):
        from .. import sutlib

        a = gen.spectra_kwargs(cfg)
        s = sutlib.spectra(gen.copy_kwargs(a.kw))
        P = dict(ref.DEFAULTS)
        P.update(gen.copy_kwargs(a.kw))
        halos = ref.ingredients(P)
        dn = np.array([x.dndlnm for x in halos])
        O, Z, C, S, T = ref.observable_function(P['hod_params'], P['obs_settings'], np.asarray(P['z_vec']), halos[0].m, dn)
        with sut('obs_func'):
            got = [np.asarray(x) for x in (s.obs_func_obs, s.obs_func_z, s.obs_func_cen, s.obs_func_sat, s.obs_func)]
        for name, g, w in zip(('observables', 'redshifts', 'centrals', 'satellites', 'all'), got, (O, Z, C, S, T)):
            cmp.compare(f'observable function: {name}', g.reshape(w.shape) if g.size == w.size else g, w, note=note)


PROP = P()
