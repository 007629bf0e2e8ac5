from .. import cmp, gen
from ..core import sut
from ..spectra_prop import SpectraProp


class P(SpectraProp):
    id = 'C07'
    names = ('gg',)
    rule = ('random models with one to three galaxy bins, every occupation model and both Poisson models; non-trivial: satellites '
            'present and either several bins, a non-unit Poisson parameter or occupation parameters off their defaults')
    quick, thorough = 54, 1200

    def strategy(self, tier):
        return gen.model('galaxies', modes=(None, None, 'hmcode', 'fortuna', 'bnl'), beyond=True)

    def extra(self, case, a, s, r, note):
        with sut('poisson_func'):
            p = s.poisson_func
        import numpy as np

        cmp.compare('Poisson parameter', np.asarray(p).reshape(-1) * np.ones(len(r.m)), r.poisson(), note=note)

    def nontrivial(self, case):
        return bool(case['hod_params'] or case['poisson_params'] or len(case['hod_settings'].get('obs_min', [])) > 1)


PROP = P()
