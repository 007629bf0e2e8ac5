import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from .. import gen, sutlib
from ..core import Prop, Violation

MODELS = ('hod_model', 'poisson_model', 'hmf_model', 'bias_model', 'halo_concentration_model_dm', 'halo_concentration_model_sat', 'mdef_model',
          'halo_profile_model_dm', 'halo_profile_model_sat', 'transfer_model', 'growth_model')


VALID = {'mode': ('bnl', 'hmcode', 'fortuna'), 'ingredients': ('mead2020', 'mead2020_feedback', 'fit'), 'dependence': ('constant', 'halo_mass', 'luminosity'),
         'keyword': ('omega_c', 'sigma_8', 'h0', 'Mmin', 'hod_params', 'align_params', 'nonlinear_mode', 'pointmass', 'one_halo_ktrunc'),
         'hod_model': ('Cacciato', 'Zheng', 'Zhai', 'Zehavi', 'Simple'), 'poisson_model': ('constant', 'power_law'), 'hmf_model': ('Tinker10', 'Tinker08'),
         'bias_model': ('Tinker10', 'Tinker05'), 'halo_concentration_model_dm': ('Duffy08', 'Bullock01'), 'halo_concentration_model_sat': ('Duffy08', 'Bullock01'),
         'mdef_model': ('SOMean', 'SOVirial'), 'halo_profile_model_dm': ('Hernquist',), 'halo_profile_model_sat': ('Hernquist',),
         'transfer_model': ('CAMB', 'BBKS'), 'growth_model': ('GrowthFactor', 'CambGrowth')}


def word(draw, kind):
    if draw(st.booleans()):
        # nearly right
        w = draw(st.sampled_from(VALID.get(kind, ('some_word',))))
        near = [w.upper(), w.lower(), w.capitalize(), w.swapcase(), w + ' ', ' ' + w, w[:-1], w[1:], w + '_', w + 's', w.replace('_', ''), w.replace('_', '-'), w + w[-1]]
        # the concentrations of colossus are known by names in lower case
        near = [x for x in near if x not in VALID.get(kind, ()) and x != w and not (kind.startswith('halo_concentration') and x.islower())]
        return draw(st.sampled_from(near))
    w = draw(st.text('abcdefghijklmnopqrstuvwxyz_', min_size=3, max_size=9))
    return 'no_' + w


@st.composite
def cases(draw):
    cfg = draw(gen.model('all', max_bins=2, kmax=10))
    kind = draw(st.sampled_from(['mode', 'ingredients', 'hmcode', 'model', 'keyword', 'lin shape', 'nl shape', 'poisson', 'dependence', 'ell_max',
                                 'pivot', 'file', 'beta_two', 'wavenumbers', 'method', 'masses', 'emulator', 'beta_nl']))
    c = dict(cfg=cfg, kind=kind, when=draw(st.sampled_from(['new', 'update', 'update'])), read=draw(st.booleans()),
             which=draw(st.sampled_from(['central', 'satellite'])), n=draw(st.integers(0, 5)))
    if kind == 'model':
        c['which'] = draw(st.sampled_from(MODELS))
    c['word'] = word(draw, c['which'] if kind == 'model' else kind)
    return c


def bad_shape(nz, nk, n, draw_last=True):
    return [(nz, nk + 1), (nz + 1, nk), (nk,), (1, nk), (nz, 1), (nk, nz)][n]


def corruption(case, kw):
    """(valid base changed where needed, the invalid arguments, names of the results that use them)."""
    kind, n, which = case['kind'], case['n'], case['which']
    nz, nk = len(kw['z_vec']), len(kw['k_vec'])
    al = dict(kw.get('align_params') or {})
    sh = which[:3]
    if kind == 'mode':
        return kw, {'nonlinear_mode': case['word']}, ()
    if kind == 'ingredients':
        return kw, {'hmcode_ingredients': case['word']}, ()
    if kind == 'hmcode':
        kw = {**kw, 'hmcode_ingredients': None if n % 2 else 'fit', 'nonlinear_mode': None}
        return kw, {'nonlinear_mode': 'hmcode'}, ()
    if kind == 'model':
        # the ingredients of Mead et al. replace some of the models
        kw = {**kw, 'hmcode_ingredients': None, 'nonlinear_mode': None}
        return kw, {case['which']: case['word']}, ('gg',)
    if kind == 'keyword':
        return kw, {case['word']: 1.0}, ()
    if kind in ('lin shape', 'nl shape'):
        shape = bad_shape(nz, nk, n)
        if kind == 'lin shape':
            return {**kw, 'response': False}, {'matter_power_lin': np.full(shape, 100.0)}, ('mm', 'gg', 'gm')
        kw = {**kw, 'response': True, 'matter_power_nl': None}
        return kw, {'matter_power_nl': np.full(shape, 100.0)}, ('mm', 'gg', 'gm', 'mi', 'ii', 'gi')
    if kind == 'poisson':
        kw = {**kw, 'poisson_model': 'constant', 'poisson_params': {}}
        par = [{'poisson': 1.0, 'slope': 0.1}, {'poisson': 1.0, 'pivot': 12.0}, {'poisson': 1.0}][n % 3]
        return kw, {'poisson_model': 'power_law', 'poisson_params': par}, ('gg', 'poisson_func')
    if kind == 'dependence':
        return kw, {'align_params': {**al, f'{which}_ia_depends_on': case['word']}}, ('mi', 'ii', 'gi', 'alignment_gi')
    if kind == 'ell_max':
        return kw, {'align_params': {**al, 'ell_max': 12 + n}}, ('mi', 'ii', 'gi')
    cen = ('mi', 'ii', 'gi', 'alignment_gi') if which == 'central' else ('mi', 'ii', 'gi')
    if kind == 'pivot':
        if n % 2:
            al.update({f'{which}_ia_depends_on': 'halo_mass', f'mpivot_{sh}': None})
        else:
            al.update({f'{which}_ia_depends_on': 'luminosity', f'lpivot_{sh}': None, f'z_loglum_file_{which}s': '/nonexistent.fits'})
        return kw, {'align_params': al}, cen
    if kind == 'file':
        al.update({f'{which}_ia_depends_on': 'luminosity', f'lpivot_{sh}': 10.0, f'beta_{sh}': 1.0,
                   f'z_loglum_file_{which}s': None if n % 2 else os.path.join(tempfile.gettempdir(), case['word'] + '.fits')})
        return kw, {'align_params': al}, cen
    if kind == 'beta_two':
        al.update({'central_ia_depends_on': 'halo_mass', 'beta_two': 0.5})
        return kw, {'align_params': al}, ('alignment_gi', 'mi', 'ii', 'gi')
    if kind == 'wavenumbers':
        kw = {k: v for k, v in kw.items() if k not in ('beta_nl', 'matter_power_lin', 'matter_power_nl')}
        kw.update(nonlinear_mode=None, dewiggle=True, response=False)
        k = kw['k_vec']
        k = [np.linspace(k[0], k[-1], nk), np.concatenate([k[:-1], [k[-1] * 1.5]]), np.concatenate([[k[0] * 0.5], k[1:]]),
             np.sort(np.concatenate([k, [np.sqrt(k[0] * k[1])]]))][n % 4]
        return kw, {'k_vec': k}, ('mm', 'gg', 'gm', 'lin')
    if kind == 'beta_nl':
        kw = {k: v for k, v in kw.items() if k != 'beta_nl'}
        kw.update(nonlinear_mode=None, response=False)
        nm = len(gen.mass_grid(case['cfg']))
        shape = [(1, nk, nm + 1, nm + 1), (1, nk, nm, nm - 1), (1, nk + 1, nm, nm), (nz + 1, nk, nm, nm), (nk, nm, nm), (1, nk, nm - 1, nm - 1)][n]
        return kw, {'nonlinear_mode': 'bnl', 'beta_nl': np.full(shape, 0.1)}, ('mm', 'gg', 'gm')
    raise AssertionError(kind)


class P(Prop):
    id = 'C21'
    rule = ('a valid random model spoilt in one way (unknown option, model, keyword, wrong shape of an array, missing pivot, slope or file, '
            'combination that is not implemented), when it is built or by a later update; non-trivial: by an update')
    assumptions = ('rejected means: an exception, when the option is given or at the latest when a result that uses it is asked for',)
    quick, thorough = 120, 1500

    def strategy(self, tier):
        return cases()

    def check(self, case, note):
        kind = case['kind']
        if kind in ('method', 'masses', 'emulator'):
            return self.parts(case, note)
        a = gen.spectra_kwargs(case['cfg'])
        base, bad, uses = corruption(case, gen.copy_kwargs(a.kw))
        if kind == 'lin shape' and case['n'] == 5 and len(base['z_vec']) == len(base['k_vec']):
            return
        if kind == 'nl shape' and case['n'] == 5 and len(base['z_vec']) == len(base['k_vec']):
            return
        if case['when'] == 'new':
            self.rejected(lambda: sutlib_new({**base, **bad}), uses, kind, bad)
            note(kind, 1)
            return
        s = sutlib.spectra(gen.copy_kwargs(base))
        names = ('mm', 'gg', 'mi')
        before = {n: sutlib.power(s, n) for n in names} if case['read'] else {}

        def change():
            s.update(**gen.copy_kwargs(bad))
            return s

        at_once = self.rejected(change, uses, kind, bad)
        note(kind, 1)
        if at_once and kind in ('mode', 'ingredients', 'model', 'keyword'):
            # nothing has changed
            before = before or {n: sutlib.power(sutlib.spectra(gen.copy_kwargs(base)), n) for n in names}
            for n, v in before.items():
                w = sutlib.power(s, n)
                sutlib.same_outputs({str(i): w[i] for i in range(3)}, {str(i): v[i] for i in range(3)}, f'{n} after a rejected {kind}')
            note('unchanged after rejection', 1)

    @staticmethod
    def rejected(build, uses, kind, bad):
        """True if at once; a violation if every result is delivered."""
        try:
            s = build()
        except Exception:
            return True
        if not uses:
            raise Violation(f'accepted: {kind} {sorted(bad)} = {[str(v)[:60] for v in bad.values()]}')
        for n in uses:
            try:
                if n in sutlib.SPECTRA:
                    p = getattr(s, f'power_spectrum_{n}')
                    v = p.pk_tot
                elif n == 'lin':
                    v = s.power_spectrum_lin.pk_tot
                else:
                    v = getattr(s, n)
            except Exception:
                continue
            raise Violation(f'{n} was delivered ({np.shape(v)}) with invalid {kind}: {({k: np.shape(x) if isinstance(x, np.ndarray) else x for k, x in bad.items()})}')
        return False

    def parts(self, case, note):
        z = np.array([0.1, 0.5])
        m = np.logspace(12, 15, 6)
        c = np.ones((2, 6)) * 5.0
        rv = np.ones((2, 6)) * (m / 1e14) ** (1 / 3)
        kw = dict(z_vec=z, mass_in=m, c_in=c, r_s_in=rv / c, rvir_in=rv)
        if case['kind'] == 'emulator':
            from onepower.bnl import NonLinearBias

            def build():
                return NonLinearBias(mass=m, z_vec=z, k_vec=np.logspace(-2, 0, 4), sigma_8=None, A_s=None).bnl
        else:
            from onepower.ia import SatelliteAlignment

            if case['kind'] == 'method':
                kw['method'] = case['word']
            else:
                kw.update(method='hankel', nmass=7 + case['n'], nk=4, n_hankel=20)

            def build():
                return SatelliteAlignment(**kw).upsampled_wkm(np.logspace(-2, 1, 5), m)
        try:
            build()
        except Exception:
            note(case['kind'], 1)
            return
        raise Violation(f"accepted: invalid {case['kind']}")

    def nontrivial(self, case):
        return case['when'] == 'update' and case['kind'] not in ('method', 'masses', 'emulator')

    def labels(self, case):
        return [case['kind'], case['when']]


def sutlib_new(kw):
    from onepower.pk import Spectra

    return Spectra(**kw)


PROP = P()
