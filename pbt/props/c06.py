from .. import cmp, gen, sutlib
from ..core import sut
from ..spectra_prop import SpectraProp


class P(SpectraProp):
    id = 'C06'
    rule = ('models with baryonic feedback: mead2020_feedback (hmcode or plain), fit, point-mass galaxies, and none; non-trivial: '
            'the stellar or gas fraction enters the spectrum (every case of mead2020_feedback, and fit/pointmass with the Cacciato model)')
    quick, thorough = 54, 1200

    def strategy(self, tier):
        every = (None, 'fortuna', 'bnl')
        a = gen.model('all', ingredients=('mead2020_feedback',), modes=(None, 'hmcode', 'hmcode', 'fortuna', 'bnl'), max_bins=2)
        b = gen.model('all', ingredients=('fit',), modes=every, max_bins=2, hod_models=('Cacciato', 'Cacciato', 'Zheng'))
        c = gen.model('all', ingredients=(None, 'mead2020'), modes=every, max_bins=2, hod_models=('Cacciato',)).map(
            lambda x: dict(x, pointmass=True))
        d = gen.model('all', ingredients=(None, 'mead2020'), modes=(None, 'hmcode', 'fortuna', 'bnl'), max_bins=2).map(
            lambda x: dict(x, pointmass=False))
        return gen.weighted((3, a), (3, b), (2, c), (1, d))

    def names_of(self, case):
        return ('mm', 'gg', 'gm', 'mi')

    def extra(self, case, a, s, r, note):
        if case['hod_model'] == 'Cacciato':
            with sut('fstar'):
                f = s.fstar
            cmp.compare('stellar fraction of the galaxy bins', f, r.hod(fstar=True).fstar, note=note)
        if case['hmcode_ingredients'] == 'fit' and case['hod_model'] == 'Cacciato':
            with sut('fstar_mm'):
                f = s.fstar_mm
            cmp.compare('stellar fraction of all galaxies', f, r.hod('hod_settings_mm', fstar=True).fstar, note=note)

    def nontrivial(self, case):
        return case['hmcode_ingredients'] == 'mead2020_feedback' or case['hod_model'] == 'Cacciato'


PROP = P()
