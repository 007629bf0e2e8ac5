import numpy as np
from hypothesis import strategies as st

from .. import cosmosis_stub, gen
from ..cmp import compare
from ..core import Prop, Violation, sut

OPT = cosmosis_stub.OPTIONS
RHO = 1e10
DEFAULTS = {'ds': ('matter_galaxy_power', 'ds'), 'wp': ('galaxy_power', 'wp')}


def power(c, k):
    """A sum of two spectra whose transforms are known."""
    return c['a'] / (1.0 + (k * c['s']) ** 2) ** 1.5 + c['b'] / (1.0 + (k * c['t']) ** 2) ** 1.5


def transform(c, r, kind):
    """Integral of k P(k) J(k r) / (2 pi), with J0 or J2."""
    out = 0.0
    for a, s in ((c['a'], c['s']), (c['b'], c['t'])):
        e = np.exp(-r / s) / s**2
        out = out + a / (2.0 * np.pi) * (e if kind == 'wp' else 2.0 / r**2 * (1.0 - np.exp(-r / s) * (1.0 + r / s)) - e)
    return out


def simpson(y, x):
    """Composite Simpson rule for unevenly spaced points, an odd number of them."""
    tot = 0.0
    for i in range(0, len(x) - 2, 2):
        h0, h1 = x[i + 1] - x[i], x[i + 2] - x[i + 1]
        s = h0 + h1
        tot = tot + s / 6.0 * ((2.0 - h1 / h0) * y[i] + s * s / (h0 * h1) * y[i + 1] + (2.0 - h0 / h1) * y[i + 2])
    return tot


@st.composite
def spectrum(draw, mixed=False):
    sign = draw(st.sampled_from([1.0, 1.0, 1.0, -1.0]))
    b = -sign if mixed else sign
    return dict(a=sign * draw(gen.num(1.0, 100.0, 1)), s=draw(gen.num(0.5, 20.0, 2)), b=b * draw(gen.num(0.0, 100.0, 1)), t=draw(gen.num(0.5, 20.0, 2)))


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(['wp', 'ds']))
    nb = draw(st.integers(1, 3))
    nz = draw(st.sampled_from([3, 5]))
    z = [draw(gen.num(0.0, 0.3, 2))]
    for _ in range(nz - 1):
        z.append(round(z[-1] + draw(gen.num(0.05, 0.3, 2)), 3))
    zk = [round(z[0] + draw(gen.num(-0.1, 0.1, 2)), 3)]
    for _ in range(draw(st.integers(2, 6))):
        zk.append(round(zk[-1] + draw(gen.num(0.05, 0.4, 2)), 3))
    module = draw(st.sampled_from(['fftlog', 'fftlog', 'fftlog', 'ogata']))
    # spectra of both signs have no meaningful extrapolation: the table then covers the whole range of the transform
    mixed = module == 'fftlog' and draw(st.sampled_from([False, False, True]))
    return dict(kind=kind, z=z, module=module, mixed=mixed,
                bins=[dict(p=[draw(spectrum(mixed)) for _ in z], n=[draw(gen.num(0.0, 3.0, 2)) for _ in zk]) for _ in range(nb)], zk=zk,
                k=[draw(gen.num(-4.0, -3.0, 2)), draw(gen.num(2.0, 3.0, 2)), draw(st.integers(300, 500))],
                n=draw(st.one_of(st.none(), st.integers(2048, 8192))), kmin=draw(st.one_of(st.none(), gen.num(-5.0, -4.0, 2))),
                kmax=draw(st.one_of(st.none(), gen.num(5.0, 7.0, 2))), rp=draw(st.one_of(st.none(), st.tuples(gen.num(-1.5, 0.0, 2), gen.num(1.0, 2.5, 2)).map(list))),
                suffixes=draw(st.booleans()), names=draw(st.sampled_from([None, 'other', ''])), density=draw(gen.num(5.0, 12.0, 2)),
                factor=draw(gen.num(0.2, 5.0, 2)))


_mod = {}


def module(name):
    if name not in _mod:
        cosmosis_stub.install()
        if name == 'fftlog':
            import pk_to_real as m
        else:
            import matplotlib

            matplotlib.use('Agg')
            import pk_to_real_ogata as m
        _mod[name] = m
    return _mod[name]


class P(Prop):
    id = 'C24'
    rule = ('spectra with known transforms, tabulated on random wavenumbers at three or five redshifts, for one to three bins with their own redshift '
            'distributions, through both modules and with any number of points, ranges and section names; non-trivial: several bins or a range, number of '
            'points or name off its default')
    assumptions = ('a stand-in for the data block of CosmoSIS',
                   'agreement with the analytic transform to 2e-3 (1e-2 for pk_to_real_ogata) of the largest value within a factor of ten in separation (interpolation of the tabulated spectrum)')
    quick, thorough = 160, 1500

    def strategy(self, tier):
        return cases()

    def labels(self, case):
        return [case['kind'], case['module'] + (' mixed' if case['mixed'] else ''), f"bins={len(case['bins'])}"]

    def nontrivial(self, case):
        return len(case['bins']) > 1 or any(case[k] is not None for k in ('n', 'kmin', 'kmax', 'rp'))

    def run(self, case, scale=1.0):
        o = {('corr_type'): case['kind'], 'sample': 'nz_lens'}
        n = case['n']
        if case['module'] == 'ogata':
            n = 40
        for key, x in (('n_transform', n), ('k_min_extrapolate', None if case['kmin'] is None else 10.0 ** case['kmin']),
                       ('k_max_extrapolate', None if case['kmax'] is None else 10.0 ** case['kmax'])):
            if x is not None:
                o[key] = x
        if case['mixed']:
            case = dict(case, k=[-5.0, 6.0, 1200])
            o['k_min_extrapolate'], o['k_max_extrapolate'] = 10.0**-5.0, 10.0**6.0
        if case['rp'] is not None:
            o['rp_min'], o['rp_max'] = 10.0 ** case['rp'][0], 10.0 ** case['rp'][1]
        sec, out = DEFAULTS[case['kind']]
        if case['names'] is not None:
            o['input_section_name'], o['output_section_name'] = case['names'], case['names'] and case['names'] + '_out'
            if case['names']:
                sec, out = case['names'], case['names'] + '_out'
        nb = len(case['bins'])
        if case['suffixes']:
            o['suffixes'] = [f'x{i}' for i in range(nb)] if nb > 1 else 'x0'
        v = {}
        k, z = np.logspace(*case['k']), np.array(case['z'])
        for i, b in enumerate(case['bins']):
            s = f'{sec}_x{i}' if case['suffixes'] else sec
            # without suffixes all bins share one spectrum
            p = (b if case['suffixes'] else case['bins'][0])['p']
            v[s, 'k_h'], v[s, 'z'], v[s, 'p_k'] = k, z, scale * np.array([power(c, k) for c in p])
            v['nz_lens', f'bin_{i + 1}'] = np.array(b['n'])
        v['nz_lens', 'z'], v['nz_lens', 'nbin'] = np.array(case['zk']), nb
        v['density', 'mean_density0'] = np.full(4, case['density'] * RHO)
        with sut('import of the module'):
            m = module(case['module'])
        block = cosmosis_stub.Block(v)
        with sut('pk_to_real'):
            config = m.setup(cosmosis_stub.Block({(OPT, a): x for a, x in o.items()}))
            rc = m.execute(block, config)
        if rc != 0:
            raise Violation(f'execute returned {rc!r}')
        with sut('output'):
            return o, block, out, block[out, 'rp'], [np.asarray(block[out, f'bin_{i + 1}']) for i in range(nb)]

    def check(self, case, note):
        o, block, out, rp, got = self.run(case)
        lo, hi = o.get('rp_min', 0.1), o.get('rp_max', 1000.0)
        nb = len(case['bins'])
        with sut('output'):
            meta = block[out, 'nbin'], block[out, 'sample'], block[out, 'sep_name']
            if case['module'] == 'fftlog':
                # correct_cosmo_real tells the observables apart by it
                meta += (block[out, 'save_name'],)
        if meta != (nb, 'nz_lens', 'rp', case['kind'])[: len(meta)]:
            raise Violation(f'number of bins, sample, name of the separation or kind are wrong in the output: {meta}')
        if rp.size == 0 or not np.all(np.isfinite(rp)):
            raise Violation('no separations, or undefined ones')
        if np.any(rp <= lo) or np.any(rp >= hi) or np.any(np.diff(rp) <= 0):
            raise Violation('separations outside of the range asked for, or not increasing')
        n, kmin, kmax = (250, 1e-4, 5e6) if case['module'] == 'ogata' else (8192, 1e-4, 5e6)
        n, kmin, kmax = o.get('n_transform', n), o.get('k_min_extrapolate', kmin), o.get('k_max_extrapolate', kmax)
        step = np.log(kmax / kmin) / (n - 1)
        reach = (1.0 / kmax * 20, 1.0 / kmin / 20)
        if (np.log(rp[0] / max(lo, reach[0])) > 2.1 * step) or (np.log(min(hi, reach[1]) / rp[-1]) > 2.1 * step):
            raise Violation(f'separations from {rp[0]} to {rp[-1]} do not fill the range from {lo} to {hi}')
        compare('steps of the separations', np.diff(np.log(rp)), np.full(rp.size - 1, step), rtol=1e-6)
        z = np.array(case['z'])
        for i, b in enumerate(case['bins']):
            w = np.interp(z, case['zk'], b['n'], left=0.0, right=0.0)
            p = (b if case['suffixes'] else case['bins'][0])['p']
            want = simpson([wi * transform(c, rp, case['kind']) for wi, c in zip(w, p)], z)
            # the Simpson rule has negative weights for uneven steps: the scale of the comparison is that of the terms
            size = simpson([wi * transform(dict(c, a=abs(c['a']), b=abs(c['b'])), rp, case['kind']) for wi, c in zip(w, p)], np.linspace(0, np.ptp(z), z.size))
            if case['kind'] == 'ds' and case['module'] == 'fftlog':
                want, size = want * case['density'] * RHO / 1e12, size * case['density'] * RHO / 1e12
            if got[i].shape != want.shape:
                raise Violation(f'bin {i + 1}: {got[i].shape} values for {rp.shape} separations')
            if not np.all(np.isfinite(got[i])):
                raise Violation(f'bin {i + 1}: undefined values')
            sel = (rp > 0.2) & (rp < 20.0)
            env = np.array([size[sel & (rp > r / 10) & (rp < r * 10)].max() for r in rp[sel]])
            tol = 2e-3 if case['module'] == 'fftlog' else 1e-2
            bad = np.abs(got[i] - want)[sel] > tol * env + 1e-14
            if np.any(bad):
                j = np.argmax(np.abs(got[i] - want)[sel] / env)
                raise Violation(f'bin {i + 1}: {got[i][sel][j]} at separation {rp[sel][j]}, expected {want[sel][j]}')
            note('bins compared')
        _, _, _, rp2, got2 = self.run(case, case['factor'])
        for a, b in zip(got, got2):
            compare('the transform of a scaled spectrum', b, case['factor'] * a, rtol=1e-6, atol=1e-9 * np.max(np.abs(b)) + 1e-300)
        compare('separations of a scaled spectrum', rp2, rp, rtol=1e-12)


PROP = P()
