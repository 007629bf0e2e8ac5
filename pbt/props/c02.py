import os
import pickle
import traceback

import numpy as np
from hypothesis import strategies as st

from .. import gen, history, hodgen, sutlib
from ..core import Prop, Skip, Violation, sut
from .c01 import NAMES

READS = sutlib.SPECTRA + ('lin', 'mass_avg', 'u_dm', 'dndlnm', 'halo_bias', 'conc_cen', 'rvir_cen', 'hod.f_c', 'hod.hod_sat', 'hod.number_density',
                          'poisson_func', 'power', 'alignment_gi', 'fstar', 'nonlinear_power')


BARE = ('hod_settings', 'hod_params', 'align_params', 'hod_settings_mm', 'poisson_model', 't_eff', 'mb')


def snapshot(v):
    """A deep, comparable copy of a value given by the caller."""
    if isinstance(v, dict):
        return {k: snapshot(x) for k, x in v.items()}
    if isinstance(v, np.ndarray):
        return ('array', v.dtype.str, v.shape, v.copy())
    if isinstance(v, list):
        return ['list'] + [snapshot(x) for x in v]
    return v


def unchanged(now, then, path):
    if isinstance(then, dict):
        if not isinstance(now, dict) or set(now) != set(then):
            raise Violation(f'{path}: the dictionary given by the caller has other keys now: {sorted(set(now) ^ set(then))}')
        for k in then:
            unchanged(now[k], then[k], f'{path}[{k!r}]')
    elif isinstance(then, tuple) and len(then) == 4 and then[0] == 'array':
        if now.dtype.str != then[1] or now.shape != then[2] or not np.array_equal(now, then[3], equal_nan=True):
            raise Violation(f'{path}: the array given by the caller has been changed')
    elif isinstance(then, list):
        for i, x in enumerate(then[1:]):
            unchanged(now[i], x, f'{path}[{i}]')
    elif not (now is then or now == then):
        raise Violation(f'{path}: {now!r} instead of {then!r}')


@st.composite
def shift(draw, cfg):
    """A change that keeps the sizes of all arrays."""
    kind = draw(st.sampled_from(['mass', 'mass', 'z', 'k', 'cosmo', 'other', 'other', 'other']))
    if kind == 'mass':
        d = draw(st.sampled_from([-0.5, -0.25, 0.25, 0.5]))
        return dict(Mmin=cfg['Mmin'] + d, Mmax=cfg['Mmax'] + d)
    if kind == 'z':
        # the largest redshift stays, for the bins of the galaxies to cover them all
        return dict(z=[*[round(x + 0.3 * (cfg['z'][-1] - x), 4) for x in cfg['z'][:-1]], cfg['z'][-1]])
    if kind == 'k':
        d = draw(st.sampled_from([-0.3, 0.3]))
        return dict(k=[cfg['k'][0] + d, cfg['k'][1] + d, cfg['k'][2]])
    if kind == 'cosmo':
        key = draw(st.sampled_from(sorted(history.COSMO)))
        return {key: draw(gen.num(*history.COSMO[key]))}
    return draw(history.fragment(cfg))


def apart(job):
    """Run job() in a process of its own, forked from this one, in which no model has been built; what it returns or raises."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            try:
                out = ('ok', job())
            except Violation as e:
                out = ('violation', str(e))
            except Skip as e:
                out = ('skip', str(e))
            except BaseException:
                out = ('error', traceback.format_exc())
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    kind, value = pickle.loads(data)
    if kind == 'violation':
        raise Violation(value)
    if kind == 'skip':
        raise Skip(value)
    if kind == 'error':
        raise RuntimeError(value)
    return value


def results(kw, order):
    s = sutlib.spectra(gen.copy_kwargs(kw))
    return {n: sutlib.read(s, n) for n in order}


HOD_READS = ('obs', 'hod_cen', 'hod_sat', 'hod', 'cof_cen', 'cof_sat', 'cof', 'obs_func', 'obs_func_cen', 'obs_func_sat', 'f_c', 'f_s',
             'number_density_cen', 'number_density_sat', 'number_density', 'avg_halo_mass', 'avg_halo_mass_cen', 'avg_halo_mass_sat',
             'galaxy_linear_bias', 'galaxy_linear_bias_cen', 'galaxy_linear_bias_sat', 'stellar_fraction', 'stellar_fraction_cen', 'z', 'dndlnm_int')
WKM_READS = ('alignment_gi', 'gamma_1h_amp', 'wkm', 'mass', 'c', 'r_s', 'rvir', 'ell_values', 'k_vec', 'wkm_f_ell', 'upsampled')


@st.composite
def parts(draw):
    """Occupation distributions and satellite alignments of their own."""
    if draw(st.booleans()):
        c = dict(part='hod', hod=draw(hodgen.cases()), order=draw(st.permutations(HOD_READS)), again=draw(st.permutations(HOD_READS)))
    else:
        c = dict(part='wkm', z=draw(gen.redshifts(2, 3)), m=[draw(gen.num(9.0, 12.0, 1)), draw(gen.num(14.0, 16.0, 1)), draw(st.integers(5, 30))],
                 c=draw(gen.num(3.0, 9.0, 2)), nmass=draw(st.integers(3, 5)), ell=draw(st.sampled_from([2, 4, 6])), slope=draw(gen.num(-2.5, -0.5, 2)),
                 k=[-2.0, draw(gen.num(0.5, 2.0, 1)), draw(st.integers(3, 8))], order=draw(st.permutations(WKM_READS)),
                 again=draw(st.permutations(WKM_READS)), method=draw(st.sampled_from(['fftlog', 'fftlog', 'hankel'])))
    c['order'] = c['order'][: draw(st.integers(4, len(c['order'])))]
    return c


class P(Prop):
    id = 'C02'
    rule = ('a model built from the caller\'s own arrays and dictionaries; the results are read in a random order, a clone and a second model '
            'built from the same arguments are updated and read, and the model itself is updated; a third model that differs in one aspect (and leaves some arguments at their defaults) is built after it, and alone in a fresh process; a third of the cases take occupation distributions, satellite alignments or combined spectra on their own; non-trivial: arguments include at least one '
            'array or dictionary besides the grids and at least six results are read')
    assumptions = ('results are compared with a second, separately built model read in another order, to 1e-9',)
    quick, thorough = 58, 1000

    def strategy(self, tier):
        @st.composite
        def f(draw):
            cfg = draw(gen.model('all', max_bins=2, kmax=12))
            if draw(st.booleans()):
                cfg['compute_observable'] = True
                cfg['obs_settings'] = draw(gen.covering_bins(1, cfg['z']))
            if gen.uniform_z(cfg['z']) and draw(st.booleans()):
                cfg['align_params'] = draw(gen.luminosity_alignments(cfg['z']))
            if draw(st.integers(0, 3)) == 0:
                cfg['transfer_array'] = dict(q=draw(gen.num(0.1, 0.3, 3)))
                cfg['growth_array'] = dict(s=draw(gen.num(0.7, 1.0, 3)))
            order = draw(st.permutations(READS))
            bare = draw(st.lists(st.sampled_from(BARE), max_size=3, unique=True))
            if 'poisson_model' in bare:
                bare.append('poisson_params')
            if history.bins(cfg) > 1:
                # the parameters of the galaxies go with their bins
                bare = [k for k in bare if not k.startswith('hod_')] + (['hod_settings', 'hod_params'] if 'hod_settings' in bare else [])
            return dict(cfg=cfg, order=order[: draw(st.integers(6, len(READS)))], again=draw(st.permutations(READS)),
                        change=draw(history.fragment(cfg)), change2=draw(history.fragment(cfg)), neighbour=draw(shift(cfg)),
                        bare=bare)

        @st.composite
        def combined(draw):
            from . import c19

            return dict(part='combined', up=draw(c19.cases()), z2=draw(gen.redshifts(2, 4)))

        return gen.weighted((6, f()), (2, parts()), (1, combined()))

    def labels(self, case):
        if 'part' in case:
            return [f"part={case['part']}"]
        return [f"response={case['cfg']['response']}", f"mode={case['cfg']['nonlinear_mode']}"]

    def nontrivial(self, case):
        return 'part' in case or any(case['cfg'].get(k) for k in ('hod_params', 'align_params', 'matter_power_lin', 'matter_power_nl', 'beta_nl'))

    def check(self, case, note):
        # nothing is built in this process, so that every forked one starts afresh
        import onepower.add  # noqa: F401
        import onepower.pk  # noqa: F401

        if 'part' in case:
            for k, v in apart(lambda: self.combined(case) if case['part'] == 'combined' else self.component(case)).items():
                note(k, v)
            return
        for k, v in apart(lambda: self.inputs(case)).items():
            note(k, v)
        order = case['order'][:8]
        st0, st1 = history.State(case['cfg']), history.State(case['cfg'])
        st1.change(case['neighbour'])
        first, second = st0.kw, {k: v for k, v in st1.kw.items() if k not in case['bare']}  # the others keep their defaults
        alone = apart(lambda: results(second, order))

        def both():
            results(first, order)
            return results(second, order)

        got = apart(both)
        for n in order:
            sutlib.same_outputs(got[n], alone[n], f'built after another model that differs in {sorted(case["neighbour"])}, against alone')
        note('results compared with those of a fresh process', len(order))

    @staticmethod
    def component(case):
        """A part built from the caller's arrays; its properties in two orders, and those of a second one built from the same arrays."""
        a = gen.Args({})
        if case['part'] == 'hod':
            from astropy.cosmology import FlatLambdaCDM

            import onepower.hod as oh

            h = case['hod']
            m, z, dn, bias = hodgen.arrays(h)
            par = {k: (np.array(v, float) if isinstance(v, list) else v) for k, v in h['params'].items()}
            kw = dict(mass=m, dndlnm=dn, halo_bias=bias, z_vec=z, hod_settings=a.settings(h['bins']), **par)
            cosmo = FlatLambdaCDM(H0=100.0 * h['h'], Om0=0.3, Ob0=0.05)

            def build():
                return getattr(oh, h['model'])(cosmo=cosmo, **kw)
        else:
            from onepower.ia import SatelliteAlignment

            m, z = np.logspace(*case['m']), np.array(case['z'])
            c = case['c'] * (m / 1e13)[None, :] ** -0.1 / (1.0 + z[:, None])
            rv = (m / 1e14)[None, :] ** (1 / 3) / (1.0 + 0.1 * z[:, None])
            kw = dict(z_vec=z, mass_in=m, c_in=c, r_s_in=rv / c, rvir_in=rv)
            kout, mout = np.logspace(*case['k']), np.logspace(10, 15, 7)

            def build():
                return SatelliteAlignment(nmass=case['nmass'], nk=5, n_hankel=60, ell_max=case['ell'], gamma_1h_slope=case['slope'],
                                          method=case['method'], **kw)
        before = {k: snapshot(v) for k, v in kw.items()}

        def get(o, n):
            if n == 'upsampled':
                return o.upsampled_wkm(kout, mout)
            v = getattr(o, n)
            return v[0] if isinstance(v, tuple) else v

        def read(o, names):
            out = {}
            for n in names:
                try:
                    v = get(o, n)
                except Exception as e:  # a result this part does not have
                    v = type(e).__name__
                out[n] = v
            return out

        with sut(case['part']):
            s = build()
        held = read(s, case['order'])
        first = {n: np.array(v) for n, v in held.items()}
        for k, v in kw.items():
            unchanged(v, before[k], f"{case['part']}: after reading, {k}")
        with sut(case['part']):
            t = build()
        other = read(t, case['again'])
        third = read(s, case['again'])
        for n, v in first.items():
            for what, w in (('read in another order', other[n]), ('read again', third[n]), ('already returned', held[n])):
                w = np.asarray(w)
                if w.shape != v.shape or w.dtype.kind != v.dtype.kind:
                    raise Violation(f"{case['part']} {n} ({what}): {w.dtype}{w.shape} instead of {v.dtype}{v.shape}")
                if v.dtype.kind in 'fc':
                    sutlib.same_outputs({n: w}, {n: v}, what)
        for k, v in kw.items():
            unchanged(v, before[k], f"{case['part']}: after reading twice, {k}")
        good = sum(1 for v in first.values() if v.dtype.kind in 'fc')
        return {'results of parts compared': 3 * good}

    @staticmethod
    def combined(case):
        """Combined spectra of two populations: neither the arguments nor the model they are given change, nor do two that share them."""
        from onepower.add import UpsampledSpectra

        c = case['up']
        a, b = gen.spectra_kwargs(c['base']), gen.Args(c['second'] or {})
        kw = dict(z=np.array(c['z_out'], float), k=np.logspace(*c['k_out']), extrapolate_option=c['fill'],
                  model_2_params=None if c['second'] is None else b.kw)
        if c['fraction']:
            kw.update(fraction_z=np.array(c['fraction'][0]), fraction=np.array(c['fraction'][1]))
        model = sutlib.spectra(gen.copy_kwargs(a.kw))
        if not c['via_model']:
            kw['model_1_params'] = a.kw
        before = {k: snapshot(v) for k, v in kw.items()}
        names = list(c['spectra'])
        own = {n: [np.array(x) for x in sutlib.power(model, n)[:3]] for n in names}

        def build():
            with sut('UpsampledSpectra'):
                return UpsampledSpectra(**kw, **(dict(model=model) if c['via_model'] else {}))

        def read(u, names):
            out = {}
            with sut('results'):
                u.results(list(names), ['tot', '1h', '2h'])
                for n in names:
                    p = getattr(u, f'power_spectrum_{n}')
                    out.update({f'{n} {x}': np.array(getattr(p, f'pk_{x}')) for x in ('1h', '2h', 'tot')})
            return out

        u, v = build(), build()
        first = read(u, names)
        sutlib.same_outputs(read(v, names[::-1]), first, 'a second one from the same arguments, read in another order')
        with sut('update'):
            v.update(z=np.array(case['z2'], float))
            if c['second'] is not None:
                v.update(_model_2_params=dict(sigma_8=0.71))
        read(v, names)
        sutlib.same_outputs(read(u, names), first, 'combined spectra after an update of others from the same arguments')
        for k, x in kw.items():
            unchanged(x, before[k], f'combined spectra: {k}')
        for n in names:
            now = sutlib.power(model, n)[:3]
            for x, y in zip(now, own[n]):
                sutlib.same_outputs({n: np.asarray(x)}, {n: y}, 'the model given to combined spectra')
        return {'combined spectra compared': len(first)}

    def inputs(self, case):
        state = history.State(case['cfg'])
        kw = gen.copy_kwargs(state.kw)
        before = {k: snapshot(v) for k, v in kw.items()}
        s = sutlib.spectra(kw)
        order = case['order']
        got = {}
        raw = {}
        for n in order:
            got[n] = {k: v.copy() for k, v in sutlib.read(s, n).items()}
            raw[n] = sutlib.read(s, n)  # what a caller would hold on to
        for k, v in kw.items():
            unchanged(v, before[k], f'after reading, {k}')
        # another model, read in another order
        t = sutlib.spectra(gen.copy_kwargs(state.kw))
        for n in case['again']:
            o = sutlib.read(t, n)
            if n in got:
                sutlib.same_outputs(got[n], o, 'read in another order')
        # a clone is updated
        with sut('clone'):
            c = s.clone()
        st2 = history.State(case['cfg'])
        for call in st2.change(case['change']):
            given = gen.copy_kwargs(call)
            snap = {k: snapshot(v) for k, v in given.items()}
            with sut(f'update of a clone ({", ".join(call)})'):
                c.update(**given)
            for k in snap:
                unchanged(given[k], snap[k], f'after update, {k}')
        for n in order:
            sutlib.read(c, n)
        for n in order:
            sutlib.same_outputs(sutlib.read(s, n), got[n], 'the original after an update of its clone')
            sutlib.same_outputs(raw[n], got[n], 'results already returned, after an update of a clone')
        # a second model shares the caller's objects, and is updated
        u = sutlib.spectra(kw)
        st3 = history.State(case['cfg'])
        for call in st3.change(case['change2']):
            with sut(f'update ({", ".join(call)})'):
                u.update(**call)
        for n in order[:6]:
            sutlib.read(u, n)
        for k, v in kw.items():
            unchanged(v, before[k], f'after updating another model built from it, {k}')
        for n in order:
            sutlib.same_outputs(sutlib.read(s, n), got[n], 'a model after another, built from the same arguments, was updated')
        # the model itself is updated: what was returned before stays as it was
        st4 = history.State(case['cfg'])
        for call in st4.change(case['change']):
            with sut(f'update ({", ".join(call)})'):
                s.update(**call)
        for n in order:
            sutlib.read(s, n)
        for n in order:
            sutlib.same_outputs(raw[n], got[n], 'results already returned, after an update')
        for k, v in kw.items():
            unchanged(v, before[k], f'after update and reading, {k}')
        return {'results compared': 4 * len(order)}


PROP = P()
