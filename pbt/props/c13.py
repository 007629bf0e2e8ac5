from .. import cmp, hodgen
from ..core import Prop, sut

PAIRS = (('number_density_cen', 'ncen'), ('number_density_sat', 'nsat'), ('number_density', 'ntot'), ('f_c', 'fc'), ('f_s', 'fs'),
         ('avg_halo_mass_cen', 'mcen'), ('avg_halo_mass_sat', 'msat'), ('avg_halo_mass', 'mtot'),
         ('galaxy_linear_bias_cen', 'bcen'), ('galaxy_linear_bias_sat', 'bsat'), ('galaxy_linear_bias', 'btot'))


class P(Prop):
    id = 'C13'
    rule = ('as C12, with redshift bins that cover, overlap or miss the redshifts of the model; non-trivial: several redshifts in the bins '
            'differ from those of the model (always so here) and at least one parameter or bin edge off its default')
    assumptions = ('numpy and scipy compute what they document',)
    quick, thorough = 400, 5000

    def strategy(self, tier):
        return hodgen.cases()

    def labels(self, case):
        return hodgen.labels(case)

    def nontrivial(self, case):
        return bool(case['params']) or len(case['bins'].get('obs_min', [])) > 1

    def check(self, case, note):
        obj, *rest = hodgen.build(case)
        r = hodgen.reference(case, *rest)
        got = {}
        for name, key in PAIRS:
            with sut(name):
                got[name] = getattr(obj, name)
            cmp.compare(name, got[name], getattr(r, key), note=note)
        with sut('stellar fractions'):
            f = obj.stellar_fraction_cen, obj.stellar_fraction_sat, obj.stellar_fraction
        for name, g, w in zip(('centrals', 'satellites', 'galaxies'), f, (r.fstar_c, r.fstar_s, r.fstar)):
            cmp.compare(f'stellar fraction of {name}', g, w, note=note)
        # what the definitions imply, whatever the reference says
        cmp.compare('n = n_cen + n_sat', got['number_density'], got['number_density_cen'] + got['number_density_sat'])
        cmp.compare('b = b_cen + b_sat', got['galaxy_linear_bias'], got['galaxy_linear_bias_cen'] + got['galaxy_linear_bias_sat'])
        s = got['f_c'] + got['f_s']
        cmp.compare('f_c + f_s', s, (s > 0.5).astype(float))


PROP = P()
