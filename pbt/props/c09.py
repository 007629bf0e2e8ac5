from .. import gen
from ..spectra_prop import SpectraProp, slope


class P(SpectraProp):
    id = 'C09'
    names = ('mi', 'ii', 'gi')
    rule = ('random models with galaxies and intrinsic alignments (amplitudes, mass dependence, slope, multipoles, truncation); '
            'non-trivial: alignment parameters off their defaults')
    quick, thorough = 45, 1000

    def strategy(self, tier):
        return gen.model('all', modes=(None, None, 'fortuna', 'fortuna', 'hmcode', 'bnl'), beyond=True)

    def nontrivial(self, case):
        return bool(case['align_params'])

    def labels(self, case):
        return super().labels(case) + [f'slope={"-2" if slope(case) == -2 else "0" if slope(case) == 0 else "other"}']


PROP = P()
