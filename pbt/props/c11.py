from .. import cmp, gen, sutlib
from ..core import Violation, sut
from ..spectra_prop import SpectraProp


class P(SpectraProp):
    id = 'C11'
    names = ('mm', 'gg', 'gm', 'mi', 'ii', 'gi')
    rule = ('models in which the matter power comes from elsewhere: response, fortuna with t_eff, linear and non-linear power given by the '
            'caller, dewiggling; non-trivial: at least one of them is used')
    quick, thorough = 30, 750

    def strategy(self, tier):
        from hypothesis import strategies as st

        @st.composite
        def f(draw):
            c = draw(gen.model('all', modes=(None, 'fortuna', 'hmcode', 'bnl'), max_bins=2, kmax=18))
            nz = len(c['z'])
            kind = draw(st.sampled_from(['response', 'fortuna', 'external', 'dewiggle']))
            if kind == 'response':
                c['response'] = True
            elif kind == 'fortuna':
                c['nonlinear_mode'] = 'fortuna'
                c['t_eff'] = draw(gen.num(0.0, 1.0, 3))
            elif kind == 'external':
                c['matter_power_lin'] = draw(gen.external_power(nz))
                c['matter_power_nl'] = draw(gen.external_power(nz))
            else:
                c['dewiggle'] = True
            if c['nonlinear_mode'] != 'bnl':
                c.pop('beta_nl', None)
            return c

        return f()

    def extra(self, case, a, s, r, note):
        cmp.compare('linear power', sutlib.read(s, 'lin')['lin'], r.plin[None], note=note)

    def nontrivial(self, case):
        return bool(case['response'] or case['nonlinear_mode'] == 'fortuna' or case.get('matter_power_lin')
                    or case.get('matter_power_nl') or case['dewiggle'])


PROP = P()
