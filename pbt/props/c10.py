from .. import cmp, gen, ref, sutlib
from ..spectra_prop import SpectraProp


class P(SpectraProp):
    id = 'C10'
    names = ('mm', 'gg', 'gm', 'mi', 'ii', 'gi')
    rule = ('random models in mode bnl with a generated beta_nl(k, M1, M2), symmetric in the masses or not, varying with redshift or not; non-trivial: beta_nl is '
            'not identically zero. Each case also compares beta_nl = 0 with the model without correction and without two-halo truncation')
    quick, thorough = 30, 600

    def strategy(self, tier):
        return gen.model('all', modes=('bnl',), max_bins=2, kmax=16)

    def nontrivial(self, case):
        b = case['beta_nl']
        return bool(b['a'] or b['b'] or b['c'])

    def extra(self, case, a, s, r, note):
        import numpy as np

        kw = gen.copy_kwargs(a.kw)
        kw['beta_nl'] = np.zeros_like(kw['beta_nl'])
        zero = sutlib.spectra(kw)
        kw = gen.copy_kwargs(a.kw)
        kw.update(nonlinear_mode=None, beta_nl=None, two_halo_ktrunc=None, two_halo_ktrunc_ia=None)
        plain = sutlib.spectra(kw)
        for n in self.names:
            x, y = sutlib.power(zero, n), sutlib.power(plain, n)
            if case['response']:
                continue
            for i, comp in enumerate(('1h', '2h', 'tot')):
                cmp.compare(f'P_{n} {comp} with beta_nl = 0 against no correction', x[i], y[i], note=note)


PROP = P()
