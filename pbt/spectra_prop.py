"""Checks of the spectra against the reference model."""
import numpy as np

from . import cmp, gen, ref, sutlib
from .core import Prop


def slope(cfg):
    return (cfg.get('align_params') or {}).get('gamma_1h_slope', -2.0)


class SpectraProp(Prop):
    names = ()
    assumptions = (
        'halomod, hmf, astropy, scipy and numpy compute what they document',
        'the reference model (pbt/ref.py) states the documented formulae; agreement to 1e-6 of each value (1e-9 of the largest)',
        'fast analytic transfer functions (EH, BBKS, ...) stand in for CAMB; the code under test treats them alike',
    )

    def names_of(self, case):
        return self.names

    def check(self, case, note):
        a = gen.spectra_kwargs(case)
        s = sutlib.spectra(gen.copy_kwargs(a.kw))
        r = ref.Model(**gen.copy_kwargs(a.kw))
        self.compare_all(case, s, r, note)
        self.extra(case, a, s, r, note)

    def extra(self, case, a, s, r, note):
        pass

    def compare_all(self, case, s, r, note):
        for n in self.names_of(case):
            got = sutlib.power(s, n)
            want = getattr(r, n)()
            # the code tabulates the angular factors of slopes 0 and -2 to eight decimals, and they cancel at large k
            tol = {}
            if n in ('mi', 'ii', 'gi'):
                tol = dict(rtol=1e-2, atol=1e-3) if slope(case) == 0 else dict(rtol=5e-5)
            for i, comp in enumerate(('1h', '2h', 'tot')):
                cmp.compare(f'P_{n} {comp}', got[i], want[i], note=note, **tol)
            if n in ('gg', 'gm'):
                cmp.compare(f'P_{n} bias', got[3], want[3], note=note)

    def labels(self, case):
        return [f"mode={case.get('nonlinear_mode')}", f"ingredients={case['hmcode_ingredients']}",
                f"response={case.get('response')}", f"hod={case.get('hod_model')}",
                f"bins={len(case['hod_settings'].get('obs_min', [0])) if case.get('hod_settings') else 0}",
                f"external={'lin' if case.get('matter_power_lin') else ''}{'nl' if case.get('matter_power_nl') else ''}"]
