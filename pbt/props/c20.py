import numpy as np
from hypothesis import strategies as st

from .. import cmp, gen, sutlib
from ..core import Prop, Violation, sut
from ..gen import num

RANGES = ((0.0211375, 0.0233625), (0.10782, 0.13178), (0.54752, 0.82128), (2.4752, 3.7128), (0.916275, 1.012725), (-1.2, -0.8))


class Stub:
    """A stand-in for the dark emulator: smooth functions of the cosmology, with wiggles and shot noise in the halo spectra."""

    seen = []
    shape = {}

    class Cosmo:
        omega = None

        def get_Omega0(self):
            return self.omega

    def __init__(self):
        self.cosmo = Stub.Cosmo()
        self.c = None

    def set_cosmology(self, c):
        c = np.array(c, float)
        if c.shape != (1, 6):
            raise Violation(f'cosmology of shape {c.shape} given to the emulator')
        Stub.seen.append(c[0])
        self.c = c[0]
        self.cosmo.omega = 1.0 - self.c[2]

    def get_sigma8(self):
        c = self.c
        return 0.8 * np.exp(0.5 * (c[3] - 3.05)) * (c[1] / 0.12) ** 0.4 * (c[0] / 0.022) ** -0.2 * (1 - c[2]) ** 0.1

    def get_pklin_from_z(self, k, z):
        k = np.asarray(k, float)
        return 1e4 * np.exp(self.c[3] - 3.05) * (k / 0.02) ** self.c[4] / (1 + (k / 0.02) ** 2) ** 1.3 / (1 + z) ** 1.6

    def get_phh_mass(self, k, m1, m2, z):
        s = Stub.shape
        k = np.asarray(k, float)
        b = [0.6 + s['bias'] * (m / 1e13) ** 0.3 * (1 + z) ** 0.4 * (1.0 + 0.5 * (self.c[1] - 0.12)) for m in (m1, m2)]
        lk = np.log10(k)
        mm = np.log10(m1 * m2) / 2 - 13.0
        corr = 1 + (s['amp'] + s['mass'] * mm) * np.exp(-((lk - s['peak']) ** 2)) * (1 + 0.2 * z) + 0.05 * np.sin(s['freq'] * lk)
        return b[0] * b[1] * self.get_pklin_from_z(k, z) * corr + s['shot'] * (1e13 / np.sqrt(m1 * m2)) ** 0.5


@st.composite
def cases(draw):
    real = draw(gen.weighted((19, st.just(False)), (1, st.just(True))))
    h0 = draw(num(0.55, 0.85, 3))
    via = draw(st.sampled_from(['direct', 'direct', 'spectra']))
    c = dict(real=real, via='direct' if real else via, h0=h0, omega_b=draw(num(0.02, 0.08, 4)), omega_c=draw(num(0.15, 0.4, 3)),
             omega_lambda=draw(num(0.5, 0.85, 3)), n_s=draw(num(0.85, 1.1, 3)), w0=draw(num(-1.3, -0.7, 2)),
             amplitude=draw(st.one_of(st.tuples(st.just('sigma_8'), num(0.5, 1.2, 3)), st.tuples(st.just('A_s'), num(0.8, 5.0, 2)))),
             z=sorted(draw(st.lists(num(0.0, 1.4, 3), min_size=2, max_size=3, unique=True))), z_dep=draw(st.booleans()),
             m=[draw(num(9.0, 12.5, 2)), draw(num(13.5, 16.0, 2)), draw(st.integers(2, 12))],
             k=[draw(num(-4.0, -1.0, 2)), draw(num(0.0, 3.0, 2)), draw(st.integers(2, 30))],
             m_nu=draw(st.one_of(st.just(0.0), num(0.05, 0.6, 2))), stub=dict(bias=draw(num(0.2, 1.5, 2)), amp=draw(num(-0.3, 2.0, 2)), mass=draw(num(-0.2, 0.2, 2)), peak=draw(num(-1.0, 0.8, 2)),
                       freq=draw(num(15.0, 40.0, 1)), shot=draw(num(0.0, 300.0, 1))))
    if real:
        # inside of what the emulator knows
        c.update(h0=0.67, omega_b=0.049, omega_c=draw(num(0.25, 0.28, 3)), n_s=draw(num(0.93, 1.0, 3)), w0=draw(num(-1.1, -0.9, 2)), z_dep=False,
                 omega_lambda=draw(num(0.65, 0.72, 3)))
    if draw(st.integers(0, 4)) == 0:
        c['omit'] = draw(st.lists(st.sampled_from(sorted(DEFAULTS)), min_size=1, max_size=4, unique=True))
    return c


def clip(c):
    return np.array([min(max(v, lo), hi) for v, (lo, hi) in zip(c, RANGES)])


def reference(emu_class, p, m, z_vec, k_out, z_dep):
    """beta_nl(k, M1, M2) as documented: halo spectra over linear ones, smoothed by their envelope, zero on large and small scales."""
    from scipy.interpolate import interp1d

    emu = emu_class()
    head = [p['omega_b'] * p['h0'] ** 2, p['omega_c'] * p['h0'] ** 2, p['omega_lambda'] - 0.00064]
    if p.get('A_s') is None:
        emu.set_cosmology(clip(head + [np.log(2.1e-9 * 1e10), p['n_s'], p['w0']]).reshape(1, 6))
        a_s = 2.1e-9 * p['sigma_8'] ** 2 / emu.get_sigma8() ** 2
    else:
        a_s = p['A_s']
    final = clip(head + [np.log(a_s * 1e10), p['n_s'], p['w0']])
    emu.set_cosmology(final.reshape(1, 6))
    rho = 2.77536627e11 * emu.cosmo.get_Omega0()
    lowest = rho * 1000.0**3 * 200.0 / 2048.0**3
    kmax = 2 * np.pi / (3 * 1000.0**3 * 200 / 2048.0**3 / (4 * np.pi)) ** (1 / 3)
    grid = np.linspace(np.log10(lowest), 14.0, 5)
    k = np.logspace(-3, np.log10(200), 1000)
    nodes = 10.0**grid
    k0 = np.array([0.05])
    tables = []
    for z in (z_vec if z_dep else [0.01]):
        pl, p0 = emu.get_pklin_from_z(k, z), emu.get_pklin_from_z(k0, z)
        b = [float(np.sqrt(emu.get_phh_mass(k0, x, x, z) / p0)[0]) for x in nodes]
        window = 1 / (1 + np.exp(-10 * (np.log10(k) - np.log10(0.05)))) / (1 + np.exp(10 * (np.log10(k) - np.log10(3 * kmax))))
        t = np.zeros((5, 5, len(k)))
        for i in range(5):
            for j in range(i, 5):
                ph = np.array(emu.get_phh_mass(k, nodes[i], nodes[j], z))
                ph = ph - ph[(k > 100) & (k < 200)].mean()
                ratio = np.abs(ph / (b[i] * b[j] * pl))
                peaks = np.nonzero((np.sign(np.diff(ratio))[1:] - np.sign(np.diff(ratio))[:-1]) < 0)[0] + 1
                f = interp1d(k[peaks], ratio[peaks], kind='quadratic', bounds_error=False, fill_value='extrapolate')
                t[i, j] = t[j, i] = (f(k) - f(k0)[0]) * window
        tables.append(t)
    lm, lk = np.log10(m), np.log10(k_out)

    def nearest(x, q):
        return np.array([int(np.argmin(np.abs(x - v))) for v in q])

    def tie(x, q):
        d = np.sort(np.abs(x[:, None] - q[None, :]), axis=0)
        return d[1] - d[0] < 1e-9

    im, ik = nearest(grid, lm), nearest(np.log10(k), lk)
    ties = tie(grid, lm).any() or tie(np.log10(k), lk).any()
    out = np.array([t[np.ix_(im, im, ik)] for t in tables])
    return np.moveaxis(out, 3, 1), final, ties


DEFAULTS = dict(h0=0.7, omega_b=0.05, omega_c=0.25, omega_lambda=0.7, n_s=1.0, w0=-1.0, sigma_8=0.8)


class P(Prop):
    id = 'C20'
    rule = ('cosmologies inside and outside of the range of the emulator, amplitudes by sigma_8 or A_s, mass and wavenumber grids inside and outside '
            'of the emulated ones, with a stand-in for the emulator (19 of 20) or the emulator itself; non-trivial: some parameter outside of its range')
    assumptions = ('the stand-in has the interface of dark_emulator.darkemu.base_class', 'agreement to 1e-6 of the largest value')
    quick, thorough = 48, 600

    def strategy(self, tier):
        return cases()

    def check(self, case, note):
        from dark_emulator import darkemu

        from onepower import bnl

        saved = real = darkemu.base_class
        names = [n for n, x in vars(bnl).items() if x is real]
        emu_class = real if case['real'] else Stub
        Stub.shape = case['stub']
        Stub.seen = []
        m = np.logspace(*case['m'])
        z = np.array(case['z'])
        k = np.logspace(*case['k'])
        p = {n: case[n] for n in ('h0', 'omega_b', 'omega_c', 'omega_lambda', 'n_s', 'w0')}
        name, v = case['amplitude']
        if case['via'] == 'spectra' and name == 'A_s':
            name, v = 'sigma_8', 0.8
        p['sigma_8'], p['A_s'] = (v, None) if name == 'sigma_8' else (None, v * 1e-9)
        try:
            darkemu.base_class = emu_class
            for n in names:
                setattr(bnl, n, emu_class)
            if case['via'] == 'spectra':
                self.spectra(case, p, z, note)
                return
            if 'omit' in case:
                if 'sigma_8' in case['omit']:
                    p['A_s'] = None
                p.update({n: DEFAULTS[n] for n in case['omit']})
            want, final, ties = reference(emu_class, p, m, z, k, case['z_dep'])
            p = {n: v for n, v in p.items() if n not in case.get('omit', ())}
            Stub.seen = []
            with sut('NonLinearBias'):
                b = bnl.NonLinearBias(mass=m.copy(), z_vec=z.copy(), k_vec=k.copy(), z_dep=case['z_dep'], **p)
                got = np.asarray(b.bnl)
            self.cosmologies(case, final)
            if ties:
                note('ties', 1)
                return
            cmp.compare('beta_nl', got, want, rtol=1e-6, atol=1e-6, note=note)
            if not np.array_equal(got, np.swapaxes(got, 2, 3)):
                raise Violation('beta_nl is not symmetric in the two masses')
        finally:
            darkemu.base_class = saved
            for n in names:
                setattr(bnl, n, saved)

    @staticmethod
    def cosmologies(case, final):
        if case['real']:
            return
        if not Stub.seen:
            raise Violation('the emulator was given no cosmology')
        for c in Stub.seen:
            for x, (lo, hi) in zip(c, RANGES):
                if not lo <= x <= hi:
                    raise Violation(f'the emulator was given {c.tolist()}, outside of its range')
        cmp.compare('cosmology of the emulator', Stub.seen[-1], final, rtol=1e-9)

    def spectra(self, case, p, z, note):
        kw = dict(z_vec=z, k_vec=np.logspace(-2, 0.5, 8), Mmin=11.0, Mmax=15.0, dlog10m=0.4, transfer_model='EH', growth_model='GrowthFactor',
                  nonlinear_mode='bnl', sigma_8=p['sigma_8'], h0=p['h0'], omega_b=p['omega_b'], omega_c=p['omega_c'], n_s=p['n_s'], w0=p['w0'],
                  m_nu=case['m_nu'], **gen.FAST)
        s = sutlib.spectra(gen.copy_kwargs(kw))
        with sut('omega_m'):
            m, om = np.asarray(s.mass), float(s.omega_m)
        Stub.seen = []
        got = sutlib.power(s, 'mm')
        seen = list(Stub.seen)
        want, final, ties = reference(Stub, {**p, 'omega_lambda': 1.0 - om}, m, z, kw['k_vec'], False)
        Stub.seen = seen
        self.cosmologies(case, final)
        if ties:
            return
        r = sutlib.power(sutlib.spectra({**gen.copy_kwargs(kw), 'beta_nl': want}), 'mm')
        for i, c in enumerate(('1h', '2h', 'tot')):
            cmp.compare(f'P_mm {c}', got[i], r[i], rtol=1e-6, atol=1e-7, note=note)

    def nontrivial(self, case):
        c = [case['omega_b'] * case['h0'] ** 2, case['omega_c'] * case['h0'] ** 2, case['omega_lambda'], 3.0, case['n_s'], case['w0']]
        return any(not lo <= x <= hi for x, (lo, hi) in zip(c, RANGES))

    def labels(self, case):
        return [f"real={case['real']}", case['via'], case['amplitude'][0], f"z_dep={case['z_dep']}"]


PROP = P()
