import numpy as np
from hypothesis import strategies as st

from .. import cosmosis_stub
from ..cmp import compare
from ..core import Prop, Violation, sut
from . import c23

OPT = cosmosis_stub.OPTIONS
# faults of the options (refused by setup or, at the latest, by the first evaluation)
SETUP = ('mode', 'ingredients', 'hmcode', 'halo model', 'occupation', 'poisson', 'truncation', 'no bins', 'no section', 'dependence', 'type')
# faults of one evaluation
VALUES = ('occupation parameter', 'poisson parameter', 'alignment parameter', 'cosmology', 'input', 'redshifts', 'shape')
OTHER = ('transform', 'ogata', 'unit', 'redshifts of bins', 'kind', 'suffix')


def word(draw):
    return 'no_' + draw(st.text('abcdefghijklmnopqrstuvwxyz_', min_size=3, max_size=9))


@st.composite
def cases(draw):
    group = draw(st.sampled_from(['setup', 'values', 'values', 'other']))
    if group == 'other':
        return dict(group=group, kind=draw(st.sampled_from(OTHER)), word=word(draw), n=draw(st.integers(1, 4)), m=draw(st.integers(1, 4)))
    c = draw(c23.cases())
    o = c['o']
    kinds = list(SETUP if group == 'setup' else VALUES)
    if not (o['galaxy'] or o['ia']):
        kinds = [k for k in kinds if k not in ('occupation', 'poisson', 'occupation parameter', 'poisson parameter', 'no bins')]
    if not o['ia']:
        kinds = [k for k in kinds if k not in ('no section', 'dependence', 'alignment parameter')]
    return dict(group=group, kind=draw(st.sampled_from(kinds)), word=word(draw), n=draw(st.integers(0, 11)), o=o, values=c['values'][:2])


def spoil_options(case, v):
    o, kind, n = case['o'], case['kind'], case['n']

    def put(name, x):
        v[OPT, name] = x

    if kind == 'mode':
        put('nonlinear_mode', case['word'])
    elif kind == 'ingredients':
        put('hmcode_ingredients', case['word'])
    elif kind == 'hmcode':
        put('nonlinear_mode', 'hmcode')
        put('hmcode_ingredients', 'None' if n % 2 or not o['galaxy'] else 'fit')
    elif kind == 'halo model':
        # the ingredients of Mead et al. replace some of the models
        put('hmcode_ingredients', 'None')
        put('nonlinear_mode', 'None')
        put(sorted(c23.HALO)[n % len(c23.HALO)], case['word'])
    elif kind == 'occupation':
        put('hod_model', case['word'])
    elif kind == 'poisson':
        if n % 3:
            put('poisson_type', case['word'])
        else:
            v.pop((OPT, 'poisson_type'))
    elif kind == 'truncation':
        name = ('one_halo_ktrunc', 'two_halo_ktrunc', 'one_halo_ktrunc_ia', 'two_halo_ktrunc_ia', 'nonlinear_mode', 'hmcode_ingredients')[n % 6]
        put(name, np.array([0.1, 0.2]))
    elif kind == 'no bins':
        key = sorted(k for k in o['settings'] if (k != 'hod' or o['galaxy']) and (k != 'smf' or o['save']))[n % 2 - 1]
        names = [f'nobs_{key}'] + ([] if 'table' in o['settings'][key] else [f'{a}_{key}' for a in ('log10_obs_min', 'log10_obs_max', 'zmin', 'zmax', 'nz')])
        v.pop((OPT, names[n % len(names)]))
    elif kind == 'no section':
        v.pop((OPT, f"hod_section_name_ia{('_1', '_2')[n % 2] if o['split'] else ''}"))
    elif kind == 'dependence':
        put(('central_IA_depends_on', 'satellite_IA_depends_on')[n % 2], case['word'])
    elif kind == 'type':
        put(('nk', 'zmin_hmf', 'zmax_hmf', 'log_mass_min', 'log_mass_max', 'nmass')[n % 6], case['word'])
    return v


def spoil_values(case, v):
    o, kind, n = case['o'], case['kind'], case['n']
    sec = 'hod_parameters_x' if o['names'] else 'hod_parameters'

    def drop(keys):
        v.pop(sorted(keys)[n % len(keys)])

    if kind == 'occupation parameter':
        drop([k for k in v if k[0] == sec and not k[1].startswith('A_')])
    elif kind == 'poisson parameter':
        drop([('pk_parameters', k) for k in (('poisson', 'pivot', 'slope') if o['poisson'] == 'power_law' else ('poisson',))])
    elif kind == 'alignment parameter':
        names = ['gamma_2h_amplitude', 'gamma_1h_amplitude', 'gamma_1h_radial_slope']
        if o['central'] != 'constant':
            names += ['beta', 'M_pivot']
        if o['satellite'] != 'constant':
            names += ['beta_sat']
        drop([k for k in v if k[0].startswith('intrinsic_alignment') and k[1] in names])
    elif kind == 'cosmology':
        drop([('cosmological_parameters', k) for k in ('omega_c', 'omega_b', 'h0', 'n_s', 'sigma_8', 'mnu', 'w', 'wa', 'omega_m')])
    elif kind == 'input':
        names = [('matter_power_lin', k) for k in ('z', 'k_h', 'p_k')] + [('matter_power_transfer_func', k) for k in ('k_h', 't_k')]
        names += [('growth_parameters', k) for k in ('z', 'd_z')] + [('halo_model_parameters', 'logT_AGN')]
        if o['response'] or o['mode'] == 'fortuna':
            names += [('matter_power_nl', k) for k in ('z', 'k_h', 'p_k')]
        drop(names)
    elif kind == 'redshifts':
        # tabulated power that does not reach the redshifts of the model
        s = 'matter_power_nl' if (o['response'] or o['mode'] == 'fortuna') and n % 2 else 'matter_power_lin'
        z = v[s, 'z']
        lo, hi = o['z'][0], o['z'][1]
        v[s, 'z'] = np.linspace(lo, lo + 0.8 * (hi - lo), z.size) if n % 4 < 2 else np.linspace(lo + 0.1 * (hi - lo), hi, z.size)
    elif kind == 'shape':
        p = v['matter_power_lin', 'p_k']
        v['matter_power_lin', 'p_k'] = (p[:-1], p[:, :-1], p.T if p.shape[0] != p.shape[1] else p[:-1])[n % 3]
    return v


class P(Prop):
    id = 'C22'
    rule = ('a valid pipeline with one fault in its options or in the values of one evaluation (a parameter, option or input missing, an unknown name, tables '
            'that do not cover the model), or the other modules with unknown options; non-trivial: the fault is in the values, and a valid evaluation follows')
    assumptions = ('a stand-in for the data block of CosmoSIS, which raises on missing values as CosmoSIS does', 'a freshly built model is right (other properties)')
    quick, thorough = 60, 600

    def strategy(self, tier):
        return cases()

    def labels(self, case):
        return [f"{case['group']}: {case['kind']}"]

    def nontrivial(self, case):
        return case['group'] == 'values'

    def check(self, case, note):
        cosmosis_stub.install()
        getattr(self, case['group'])(case, note)

    def refused(self, what, f):
        try:
            r = f()
        except Violation:
            raise
        except Exception:
            return
        if isinstance(r, int) and r != 0:
            return
        raise Violation(f'{what} is accepted')

    def setup(self, case, note):
        m = c23.interface()
        sc = c23.Scratch()
        v = c23.options(case['o'], sc)
        if case['o']['mode'] == 'bnl':
            v.setdefault((OPT, 'update_bnl'), 1)
        b = cosmosis_stub.Block(c23.block(case['o'], case['values'][0]))
        v = cosmosis_stub.Block(spoil_options(case, v))

        def run():
            return m.execute(b, m.setup(v))

        self.refused(f"options with a fault ({case['kind']}, {case['n']})", run)
        note('refusals')

    def values(self, case, note):
        o = case['o']
        m = c23.interface()
        sc = c23.Scratch()
        with sut('setup'):
            config = m.setup(cosmosis_stub.Block(c23.options(o, sc)))
        good, bad = case['values'][0], case['values'][-1]
        if case['n'] % 2:
            # a valid evaluation first
            with sut('a valid evaluation'):
                m.execute(cosmosis_stub.Block(c23.block(o, good)), config)
        spoilt = spoil_values(case, c23.block(o, bad))
        self.refused(f"an evaluation with a fault ({case['kind']}, {case['n']})", lambda: m.execute(cosmosis_stub.Block(spoilt), config))
        note('refusals')
        if o['mode'] == 'bnl' and o['update_bnl'] != 1:
            return  # which evaluations count is not specified
        b = cosmosis_stub.Block(c23.block(o, good))
        with sut('a valid evaluation after one refused'):
            rc = m.execute(b, config)
        if rc != 0:
            raise Violation(f'a valid evaluation after one refused returns {rc!r}')
        beta = c23.beta_for(o, good) if o['mode'] == 'bnl' else None
        if o['split']:
            c23.PROP.populated(o, good, sc, beta)
        for (s, n), x in c23.PROP.expected(o, good, sc, beta).items():
            key = b.key(s, n)
            if key not in b.written:
                raise Violation(f'after a refused evaluation: {s}, {n} is not written')
            compare(f'after a refused evaluation: {s}, {n}', np.asarray(b.v[key]), np.asarray(x), rtol=1e-8, atol=1e-14)
        note('recoveries')

    def other(self, case, note):
        k = case['kind']
        B = cosmosis_stub.Block
        if k in ('transform', 'ogata'):
            import pk_to_real
            import pk_to_real_ogata

            m = pk_to_real if k == 'transform' else pk_to_real_ogata
            f = lambda: m.setup(B({(OPT, 'corr_type'): case['word'], (OPT, 'sample'): 'nz', (OPT, 'n_transform'): 64})) and 0
            self.refused(f"corr_type = {case['word']} ({m.__name__})", f)
        elif k == 'unit':
            import convert_theta as m

            self.refused(f"output_units = {case['word']}", lambda: m.setup(B({(OPT, 'output_units'): case['word'], (OPT, 'section_name'): 'x'})) and 0)
        elif k == 'suffix':
            import pk_to_real as m

            t = {(OPT, 'corr_type'): 'wp', (OPT, 'sample'): 'nz', (OPT, 'n_transform'): 64, (OPT, 'suffixes'): ['a', 'b'][: 1 + case['n'] % 2]}
            z, q = np.linspace(0.0, 1.0, 4), np.logspace(-2, 1, 8)
            v = {('nz', 'z'): z, ('nz', 'bin_1'): np.ones(4), ('nz', 'bin_2'): np.ones(4)}
            for s in ('a', 'b')[: case['n'] % 2]:
                v.update({(f'galaxy_power_{s}', 'z'): z, (f'galaxy_power_{s}', 'k_h'): q, (f'galaxy_power_{s}', 'p_k'): np.ones((4, 8))})
            self.refused('a section of a bin that does not exist', lambda: m.execute(B(v), m.setup(B(t))))
        else:
            import correct_cosmo_real as m

            n = case['n']
            nz = n if k == 'kind' else n + case['m']
            if k != 'kind' and case['m'] % 2 and n > 1:
                nz = n - 1
            z = [0.1 + 0.1 * i for i in range(nz)]
            cp = 'cosmological_parameters'
            v = {('obs', 'rp'): np.logspace(-1, 1, 5), ('obs', 'nbin'): n, ('obs', 'save_name'): case['word'] if k == 'kind' else ('wp', 'ds')[case['m'] % 2],
                 (cp, 'hubble'): 70.0, (cp, 'omega_b'): 0.05, (cp, 'omega_m'): 0.3, (cp, 'mnu'): 0.06, (cp, 'w'): -1.0, (cp, 'wa'): 0.0}
            v.update({('obs', f'bin_{i + 1}'): np.ones(5) for i in range(n)})
            o = {(OPT, 'section_name'): 'obs', (OPT, 'z'): z if nz > 1 else z[0]}
            self.refused(f'{n} bins with {nz} redshifts' if k != 'kind' else 'an unknown kind of observable', lambda: m.execute(B(v), m.setup(B(o))))
        note('refusals')


PROP = P()
