import numpy as np

from .. import cmp, hodgen
from ..core import Prop, Violation, sut


class P(Prop):
    id = 'C12'
    rule = ('an occupation model with parameters (shared or per bin), bins from arrays or a file, assembly bias on or off, on a synthetic halo '
            'population; non-trivial: at least one parameter off its default')
    assumptions = ('numpy and scipy compute what they document',)
    quick, thorough = 500, 6000

    def strategy(self, tier):
        return hodgen.cases()

    def labels(self, case):
        return hodgen.labels(case)

    def nontrivial(self, case):
        return bool(case['params'])

    def check(self, case, note):
        obj, *rest = hodgen.build(case)
        r = hodgen.reference(case, *rest)
        with sut('hod'):
            nc, ns, n = obj.hod_cen, obj.hod_sat, obj.hod
        cmp.compare('<N_cen|M>', nc, r.Nc, note=note)
        cmp.compare('<N_sat|M>', ns, r.Ns, note=note)
        cmp.compare('<N|M>', n, r.N, note=note)
        # bounds, at the redshifts that the bins contain (elsewhere the occupation is extrapolated)
        z = rest[3]
        zb = obj.z
        for b in range(nc.shape[0]):
            inside = (z >= np.min(zb[b])) & (z <= np.max(zb[b]))
            if not inside.any():
                continue
            c, s = nc[b][inside], ns[b][inside]
            if case['model'] != 'Cacciato' and (np.min(c) < -1e-9 or np.max(c) > 1 + 1e-9):
                raise Violation(f'<N_cen|M> lies between {np.min(c)} and {np.max(c)}')
            if np.min(s) < -1e-9 * np.max(np.abs(s)):
                raise Violation(f'<N_sat|M> reaches {np.min(s)}')


PROP = P()
