from .. import cmp, gen
from ..spectra_prop import SpectraProp


class P(SpectraProp):
    id = 'C05'
    rule = ('cosmology, grids, halo options, non-linear mode (none, hmcode, fortuna), truncations, power spectra from outside and dewiggling '
            'drawn at random; non-trivial: at least one option differs from its default (truncation, mode, ingredients, external power)')
    quick, thorough = 70, 1500

    def strategy(self, tier):
        return gen.model('matter', ingredients=(None, None, None, 'mead2020', 'mead2020', 'mead2020_feedback', 'fit'),
                         modes=(None, 'hmcode', 'hmcode', 'hmcode', 'fortuna', 'bnl'))

    def names_of(self, case):
        return ('mm',)

    def extra(self, case, a, s, r, note):
        from ..sutlib import read

        cmp.compare('linear power', read(s, 'lin')['lin'], r.plin[None], note=note)

    def nontrivial(self, case):
        return bool(case['hmcode_ingredients'] or case['nonlinear_mode'] or case.get('matter_power_lin')
                    or 'one_halo_ktrunc' in case or 'two_halo_ktrunc' in case)


PROP = P()
