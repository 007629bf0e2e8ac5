import numpy as np
from hypothesis import strategies as st

from .. import cmp, gen, ref, sutlib
from ..core import Prop, Violation, sut
from ..gen import num


@st.composite
def cases(draw):
    base = draw(gen.model('all', modes=(None, None, 'fortuna', 'hmcode'), max_bins=2, kmax=14))
    z, k = base['z'], base['k']
    lo, hi = z[0], z[-1]
    span = hi - lo
    zq = draw(st.lists(st.one_of(num(max(0.0, lo - 0.5 * span), hi + 0.5 * span, 3), st.sampled_from(z)), min_size=1, max_size=5))
    c = dict(base=base, z_out=zq, k_out=[round(k[0] - draw(num(-0.5, 1.0, 2)), 3), round(k[1] + draw(num(-0.5, 1.0, 2)), 3), draw(st.integers(1, 12))],
             fill=draw(st.sampled_from(['extrapolate', 'extrapolate', 0.0, 0.5])),
             spectra=draw(st.lists(st.sampled_from(sutlib.SPECTRA), min_size=1, max_size=6, unique=True)),
             components=draw(st.lists(st.sampled_from(['1h', '2h', 'tot']), min_size=1, max_size=3, unique=True)),
             via_model=draw(st.booleans()))
    if draw(st.integers(0, 3)):
        n = draw(st.integers(2, 5))
        fz = sorted(draw(st.lists(num(0.0, 2.5, 2), min_size=n, max_size=n, unique=True)))
        c['fraction'] = [fz, [draw(num(0.0, 1.0, 3)) for _ in fz]]
    else:
        c['fraction'] = None
    if draw(st.integers(0, 3)):
        # a second population: other galaxies, other alignments
        second = {}
        if draw(st.booleans()):
            # (merged into the parameters of the first, which may need the values that None would remove)
            second['align_params'] = {key: v for key, v in draw(gen.alignments()).items() if v is not None}
        if draw(st.booleans()) or not second:
            second['hod_params'] = draw(gen.occupation(base['hod_model'], len(base['hod_settings'].get('obs_min', [0]))))
        if draw(st.integers(0, 3)) == 0:
            second['hod_settings'] = draw(gen.covering_bins(len(base['hod_settings'].get('obs_min', [0])), z))
        if not (base.get('matter_power_lin') or base.get('matter_power_nl')) and draw(st.integers(0, 2)) == 0:
            # its own wavenumbers
            if len(z) > 2 and not any(isinstance(base.get(key), list) for key in ('norm_cen', 'norm_sat', 'eta_cen', 'eta_sat')) and draw(st.booleans()):
                # and redshifts
                second['z'] = [z[0], *z[2:]] if draw(st.booleans()) else [z[0], round(0.5 * (z[0] + z[1]), 4), *z[1:]]
            second['k'] = [round(k[0] + draw(num(-0.2, 0.2, 2)), 2), round(k[1] + draw(num(-0.2, 0.2, 2)), 2), k[2] + draw(st.integers(-2, 2))]
        c['second'] = second
    else:
        c['second'] = None
    if c['second'] and 'z' in c['second'] and any('luminosity' in str(v) for v in base['align_params'].values()):
        c['second'].pop('z')
    return c


class P(Prop):
    id = 'C19'
    rule = ('a model, an optional second population with a red fraction varying with redshift, and a grid of redshifts and wavenumbers inside and '
            'outside of the tabulated ones, in any order; non-trivial: two populations and a fraction')
    assumptions = ('the spectra of the two populations are those of freshly built models (decided by C05 to C11)',)
    quick, thorough = 50, 400

    def strategy(self, tier):
        return cases()

    def check(self, case, note):
        from onepower.add import UpsampledSpectra

        a = gen.spectra_kwargs(case['base'])
        one = sutlib.spectra(gen.copy_kwargs(a.kw))
        b = gen.Args(case['second'] or {})  # keeps the files
        second = None if case['second'] is None else b.kw
        z = np.array(case['z_out'], float)
        k = np.logspace(*case['k_out'])
        kw = dict(z=z.copy(), k=k.copy(), extrapolate_option=case['fill'], model_2_params=gen.copy_kwargs(second))
        if case['fraction']:
            kw.update(fraction_z=np.array(case['fraction'][0]), fraction=np.array(case['fraction'][1]))
        if case['via_model']:
            kw['model'] = sutlib.spectra(gen.copy_kwargs(a.kw))
        else:
            kw['model_1_params'] = gen.copy_kwargs(a.kw)
        with sut('UpsampledSpectra'):
            u = UpsampledSpectra(**kw)
            u.results(list(case['spectra']), list(case['components']))
        two = None
        if second is not None:
            # update() merges a dictionary of parameters into the previous one; an empty one resets it
            both = {key: ({**(a.kw.get(key) or {}), **v} if v else {}) if isinstance(v, dict) else v for key, v in gen.copy_kwargs(second).items()}
            two = sutlib.spectra({**gen.copy_kwargs(a.kw), **both})
        f = np.ones(len(z)) if not case['fraction'] else ref.lin(*case['fraction'], z)
        for key, want in (('frac_1', f), ('frac_2', 1.0 - f)):
            with sut(key):
                v = getattr(u, key)
            cmp.compare(key, np.broadcast_to(v, want.shape), want, rtol=1e-8, atol=1e-11, note=note)
        for name in case['spectra']:
            p1 = sutlib.power(one, name)
            p2 = None if two is None else sutlib.power(two, name)
            with sut(f'power_spectrum_{name}'):
                got = getattr(u, f'power_spectrum_{name}')
            for i, comp in enumerate(('1h', '2h', 'tot')):
                v = getattr(got, f'pk_{comp}')
                if comp not in case['components']:
                    if v is not None:
                        raise Violation(f'P_{name} {comp} was not requested and is {v!r}')
                    continue
                w = self.onto(p1[i], a.kw, z, k, case['fill'])
                if name != 'mm':
                    q = np.zeros_like(w) if p2 is None else self.onto(p2[i], {**a.kw, **second}, z, k, case['fill'])
                    e = 1.0 if name in ('gm', 'mi') else 2.0
                    w = (f**e)[None, :, None] * w + ((1.0 - f) ** e)[None, :, None] * q
                cmp.compare(f'P_{name} {comp}', v, w, rtol=1e-8, atol=1e-11, note=note)

    @staticmethod
    def onto(p, kw, z, k, fill):
        p = np.asarray(p)
        x = ref.lin(kw['z_vec'], np.moveaxis(p, 1, 0), z, None if fill == 'extrapolate' else fill)
        x = ref.lin(np.log10(kw['k_vec']), np.moveaxis(x, 2, 0), np.log10(k))
        # (k, z, bin) -> (bin, z, k)
        return np.moveaxis(x, (0, 1, 2), (2, 1, 0))

    def nontrivial(self, case):
        return case['second'] is not None and case['fraction'] is not None

    def labels(self, case):
        return [f"second={case['second'] is not None}", f"fraction={case['fraction'] is not None}", f"fill={case['fill']}"] + list(case['spectra'])


PROP = P()
