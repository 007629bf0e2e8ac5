import numpy as np
from hypothesis import strategies as st

from .. import cmp, gen, sutlib
from ..core import Prop, Skip, Violation, sut


@st.composite
def cases(draw):
    c = draw(gen.model('all', max_bins=2, kmax=12))
    # the mass function is extrapolated in redshift outside of the tabulated ones, where it can turn negative: bins stay inside
    # and on a mass grid that the Simpson rule integrates with positive weights
    c['dlog10m'] = min(c['dlog10m'], 0.2)
    for key in ('hod_settings', 'hod_settings_mm'):
        b = c.get(key)
        if b and 'table' in b:
            for r in b['table']:
                r[0] = min(max(r[0], c['z'][0]), c['z'][-1])
            if len({r[0] for r in b['table']}) < len(b['table']):
                for r, z in zip(b['table'], np.linspace(c['z'][0], c['z'][-1], len(b['table']))):
                    r[0] = float(z)
        elif b:
            b['zmin'] = [c['z'][0]] * len(b['zmin'])
            b['zmax'] = [c['z'][-1]] * len(b['zmin'])
    return dict(cfg=c, scale=draw(gen.num(0.3, 3.0, 2)), relation=draw(st.sampled_from(['linear power', 'poisson', 'two-halo amplitude', 'one-halo amplitude',
                                                                                         'response'])))


def all_of(kw):
    s = sutlib.spectra(gen.copy_kwargs(kw))
    return s, {n: sutlib.power(s, n) for n in sutlib.SPECTRA}


def non_negative(name, v, sign=1.0, tol=1e-9):
    v = np.asarray(v) * sign
    if (v < -tol * np.max(np.abs(v))).any():
        raise Violation(f'{name}: wrong sign, {sign * v.min()!r} among values up to {sign * v.max()!r}')


class P(Prop):
    id = 'C16'
    rule = ('a random model and one of five changes to it (linear power, Poisson parameter, either alignment amplitude multiplied by a factor, or '
            'the response switched); the relations between the spectra of the two models and within each are checked. Non-trivial: factor not 1')
    assumptions = ('relations to 1e-7 of each value',)
    quick, thorough = 54, 500

    def strategy(self, tier):
        return cases()

    def check(self, case, note):
        cfg = case['cfg']
        a = gen.spectra_kwargs(cfg)
        base = gen.copy_kwargs(a.kw)
        s, p = all_of(base)
        self.within(base, s, p, note)
        f, rel = case['scale'], case['relation']
        mode = base.get('nonlinear_mode')
        kw = gen.copy_kwargs(base)
        eq = lambda name, got, want: cmp.compare(name, got, want, rtol=1e-7, atol=1e-10, note=note)
        if rel == 'linear power':
            if base.get('dewiggle') or mode == 'hmcode':
                # smoothing the wiggles depends on the amplitude
                kw = base = {**base, 'dewiggle': False, 'nonlinear_mode': None}
                mode = None
                s, p = all_of(base)
            lin = sutlib.read(s, 'lin')['lin'][0]
            base = {**gen.copy_kwargs(base), 'matter_power_lin': lin, 'response': False}
            s, p = all_of(base)
            s2, p2 = all_of({**gen.copy_kwargs(base), 'matter_power_lin': f * lin})
            for n in sutlib.SPECTRA:
                if mode == 'fortuna' and n in ('mi', 'ii', 'gi'):
                    continue
                eq(f'P_{n} 1h does not depend on the linear power', p2[n][0], p[n][0])
                eq(f'P_{n} 2h is proportional to the linear power', p2[n][1], f * p[n][1])
        elif rel == 'poisson':
            def at(x):
                d = gen.copy_kwargs(base)
                d['poisson_params'] = {**d.get('poisson_params', {}), 'poisson': x}
                return all_of(d)[1]

            p0, p1, p2 = at(0.0), at(1.0), at(f)
            eq('P_gg 1h is affine in the Poisson parameter', p2['gg'][0], p0['gg'][0] + f * (p1['gg'][0] - p0['gg'][0]))
            non_negative('satellite pairs', p1['gg'][0] - p0['gg'][0])
            for n in sutlib.SPECTRA:
                for i in range(3):
                    if (n, i) not in (('gg', 0), ('gg', 2)):
                        eq(f'P_{n} does not depend on the Poisson parameter', p2[n][i], p0[n][i])
        elif rel in ('two-halo amplitude', 'one-halo amplitude'):
            key = 'gamma_2h_amplitude' if rel.startswith('two') else 'gamma_1h_amplitude'
            # so small that the shear is nowhere limited to its largest value
            x = 4.0 if rel.startswith('two') else 1e-9

            def at(v):
                d = gen.copy_kwargs(base)
                d['align_params'] = {'gamma_1h_amplitude': 1e-9, **d.get('align_params', {}), key: v}
                if key == 'gamma_2h_amplitude':
                    d['align_params']['gamma_1h_amplitude'] = 1e-9
                return all_of(d)[1]

            p0, p1, p2 = at(0.0), at(x), at(f * x)
            for n in ('mm', 'gg', 'gm'):
                for i in range(3):
                    eq(f'P_{n} does not depend on alignments', p2[n][i], p0[n][i])
            for n in ('mi', 'gi'):
                for i in range(3):
                    eq(f'P_{n} is affine in the {rel}', p2[n][i], p0[n][i] + f * (p1[n][i] - p0[n][i]))
            if key == 'gamma_1h_amplitude':
                for n, e in (('mi', 1), ('gi', 1), ('ii', 2)):
                    eq(f'P_{n} 1h goes as the power {e} of the {rel}', p2[n][0], f**e * p1[n][0])
            else:
                for n in ('mi', 'gi', 'ii'):
                    eq(f'P_{n} 1h does not depend on the {rel}', p2[n][0], p1[n][0])
                # quadratic: the value at a third point follows from three others
                p4 = at(2 * x)
                q = (p4['ii'][1] - 2 * p1['ii'][1] + p0['ii'][1]) / 2
                l = p1['ii'][1] - p0['ii'][1] - q
                eq(f'P_ii is quadratic in the {rel}', p2['ii'][1], p0['ii'][1] + f * l + f * f * q)
        else:
            base['response'] = False
            s, p = all_of(base)
            s2, p2 = all_of({**gen.copy_kwargs(base), 'response': True})
            with sut('nonlinear_power'):
                pnl = p2['mm'][2]
            boost = pnl / p['mm'][2]
            for n in ('gg', 'gm', 'mi', 'ii', 'gi'):
                for i in range(3):
                    eq(f'P_{n} responds as the matter', p2[n][i], p[n][i] * boost)

    def within(self, kw, s, p, note):
        with sut('hod'):
            n = np.concatenate([np.ravel(s.hod.number_density_cen), np.ravel(s.hod.number_density_sat)])
        if (np.abs(n) < 1e-100).any():
            raise Skip('no galaxies of one kind in a bin')
        mode, resp = kw.get('nonlinear_mode'), kw.get('response')
        for n in sutlib.SPECTRA:
            one, two, tot = p[n][:3]
            for c, v in (('1h', one), ('2h', two), ('tot', tot)):
                if not np.isfinite(v).all():
                    raise Violation(f'P_{n} {c}: not finite')
            if n == 'mm' and resp:
                continue
            if n == 'mm' and mode == 'hmcode':
                if (tot < np.maximum(one, two) * (1 - 1e-9)).any():
                    raise Violation('P_mm: the total lies below one of its parts')
                continue
            # mi and gi can cancel: measured against the parts
            scale = np.max(np.abs(one) + np.abs(two))
            if (np.abs(tot - one - two) > 1e-9 * (np.abs(one) + np.abs(two)) + 1e-15 * scale).any():
                raise Violation(f'P_{n}: the total is not the sum of the one- and two-halo parts')
            note(f'sum of parts of {n}', tot.size)
        # with an arbitrary correction of the bias the matter spectrum, and with it the response, can be negative
        if not (resp and mode == 'bnl'):
            non_negative('P_mm 1h', p['mm'][0])
            non_negative('P_gg 1h', p['gg'][0])
            non_negative('P_gm 1h', p['gm'][0])
            non_negative('P_ii 1h', p['ii'][0])
            # the satellite alignment is interpolated in wavenumber and mass, and may overshoot where it is small
            non_negative('P_gi 1h', p['gi'][0], tol=1e-2)
            non_negative('P_mi 1h', p['mi'][0], -1.0, tol=1e-2)
        if mode != 'bnl':
            for n in ('mm', 'gg', 'gm'):
                non_negative(f'P_{n} 2h', p[n][1])
                non_negative(f'P_{n} tot', p[n][2])
            if mode != 'hmcode' and not resp:
                # without correction the two-halo term is the linear power times the large-scale biases
                cmp.compare('P_gm 2h squared is P_gg 2h times P_mm 2h', p['gm'][1] ** 2, p['gg'][1] * p['mm'][1], rtol=1e-7, atol=1e-10, note=note)
        with sut('hod'):
            h = s.hod
            fc, fs = np.asarray(h.f_c), np.asarray(h.f_s)
            n = [np.asarray(getattr(h, x)) for x in ('number_density', 'number_density_cen', 'number_density_sat')]
        cmp.compare('fractions of centrals and satellites add up to one', fc + fs, np.ones_like(fc), rtol=1e-9, note=note)
        cmp.compare('number densities of centrals and satellites add up', n[1] + n[2], n[0], rtol=1e-9, note=note)
        if (fc < 0).any() or (fs < 0).any() or (n[0] <= 0).any():
            raise Violation('negative number of galaxies')

    def nontrivial(self, case):
        return case['scale'] != 1.0

    def labels(self, case):
        return [case['relation'], f"mode={case['cfg'].get('nonlinear_mode')}", f"ingredients={case['cfg']['hmcode_ingredients']}"]


PROP = P()
