from .. import gen
from ..spectra_prop import SpectraProp


class P(SpectraProp):
    id = 'C08'
    names = ('gm',)
    rule = ('random models with one to three galaxy bins, every occupation model and ingredient option; non-trivial: occupation parameters '
            'off their defaults or several bins')
    quick, thorough = 54, 1200

    def strategy(self, tier):
        return gen.model('galaxies', modes=(None, None, 'hmcode', 'fortuna', 'bnl'), beyond=True)

    def nontrivial(self, case):
        return bool(case['hod_params'] or len(case['hod_settings'].get('obs_min', [])) > 1)


PROP = P()
