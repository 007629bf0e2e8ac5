import contextlib
import io

import numpy as np
from hypothesis import strategies as st
from scipy.special import loggamma

from .. import cosmosis_stub, gen
from ..cmp import compare
from ..core import Prop, Violation, sut


def fftlog():
    cosmosis_stub.install()
    import pyfftlog

    return pyfftlog


def direct(a, mu, q, d, kr, t):
    """Hamilton (2000): the periodic biased Hankel transform as a sum over its modes."""
    n = len(a)
    j = np.arange(n) - 0.5 * (n - 1)
    m = np.arange(-(n // 2), n // 2 + 1)
    w = np.ones(len(m))
    if n % 2 == 0:
        w[0] = w[-1] = 0.5
    y = 2.0 * np.pi * m / (n * d)
    c = np.exp(-2j * np.pi * np.outer(m, j) / n) @ a / n
    x = q + 1j * y
    u = np.exp(x * np.log(2.0) + loggamma(0.5 * (mu + 1.0 + x)) - loggamma(0.5 * (mu + 1.0 - x)) - 1j * y * np.log(kr))
    if t == -1:
        u = 1.0 / u.conj()
    return (np.exp(-2j * np.pi * np.outer(j, m) / n) @ (w * c * u)).real


@st.composite
def cases(draw):
    mu = draw(st.one_of(st.sampled_from([0.0, 2.0, 0.5, -0.5, 1.0, 4.0]), gen.num(-0.6, 6.0, 2)))
    q = draw(st.one_of(st.just(0.0), st.just(0.0), gen.num(-1.2, 1.2, 2)))
    if mu + 1.0 - abs(q) < 0.1:
        q = 0.0  # the transform of a power law diverges
    n = draw(st.integers(8, 257))
    return dict(mu=mu, q=q, n=n, dlnr=draw(gen.num(0.02, 0.3, 3)), kr=draw(st.one_of(st.just(1.0), gen.num(0.2, 5.0, 2))), kropt=draw(st.sampled_from([0, 1, 1, 2])),
                rk=draw(gen.num(0.1, 10.0, 2)), seed=draw(st.integers(0, 10**6)), tdir=draw(st.sampled_from([1, -1])),
                width=draw(gen.num(0.3, 3.0, 2)))


class P(Prop):
    id = 'C26'
    rule = ('order, bias, length (odd and even), spacing, central product, direction, and random data; every case also transforms a Gaussian; '
            'non-trivial: bias, odd length or backward direction')
    assumptions = ('where the length is even and the central product is not a low-ringing one the transform is not '
                   'invertible to rounding, so that only the forward direction is compared there',)
    quick, thorough = 600, 8000

    def strategy(self, tier):
        return cases()

    def nontrivial(self, case):
        return case['q'] != 0 or case['n'] % 2 == 1 or case['tdir'] == -1

    def labels(self, case):
        return [f"bias={'yes' if case['q'] else 'no'}", f"length={'odd' if case['n'] % 2 else 'even'}", f"kropt={case['kropt']}", f"direction={case['tdir']}"]

    def check(self, case, note):
        import scipy.fft as sf

        f = fftlog()
        n, mu, q, d, t = case['n'], case['mu'], case['q'], case['dlnr'], case['tdir']
        with sut('fhti'), contextlib.redirect_stdout(io.StringIO()):
            kr, xs = f.fhti(n, mu, d, **{k: case[k] for k, x in (('q', 0.0), ('kr', 1.0), ('kropt', 0)) if case[k] != x})
        if case['kropt'] == 0:
            want = case['kr']
        else:
            want = float(np.exp(sf.fhtoffset(d, mu, initial=np.log(case['kr']), bias=q)))
            # of two low-ringing values half a step away from the one asked for either will do
            if abs(abs(np.log(want / case['kr'])) - 0.5 * d) < 1e-6:
                want = kr
        compare('central product', np.asarray(kr), np.asarray(want), rtol=1e-9)
        good = n % 2 == 1 or case['kropt'] > 0
        if not good:
            t = 1
        keep = np.array(xs)
        x = (np.arange(n) - 0.5 * (n - 1)) * d
        a = np.random.default_rng(case['seed']).normal(size=n)
        lk = np.log(kr)
        plain = lambda b: direct(b, mu, q, d, kr, t)
        hankel = lambda b: plain(b * np.exp(-t * q * x)) * np.exp(-t * q * (x + lk))
        half = lambda b: plain(b * np.exp(-(t * q - 0.5) * x)) * np.exp(-(t * q + 0.5) * x - t * (q * lk - 0.5 * np.log(case['rk'])))
        rel = lambda name, got, want: compare(name, np.asarray(got), want, rtol=1e-7, atol=1e-9, note=note)
        given = a.copy()
        with sut('transforms'):
            got = dict(fht=f.fht(a, xs, tdir=t), fhtq=f.fhtq(a, xs, tdir=t), fftl=f.fftl(a, xs, rk=case['rk'], tdir=t))
        # compared without the powers that span many decades
        un = dict(fht=np.exp(t * q * (x + lk)), fhtq=1.0, fftl=np.exp((t * q + 0.5) * x))
        for name, want in (('fht', hankel(a)), ('fhtq', plain(a)), ('fftl', half(a))):
            rel(f'{name}, direction {t}', got[name] * un[name], want * un[name])
        if not np.array_equal(a, given):
            raise Violation('the input is changed')
        if not np.array_equal(keep, xs):
            raise Violation('the working array is changed')
        with sut('defaults'):
            rel('fht, default direction', f.fht(a, xs), f.fht(a, xs, tdir=1))
            rel('fhtq, default direction', f.fhtq(a, xs), f.fhtq(a, xs, tdir=1))
            rel('fftl, default direction and scale', f.fftl(a, xs), f.fftl(a, xs, rk=1, tdir=1))
        if good:
            with sut('there and back'):
                back = dict(fht=f.fht(got['fht'], xs, tdir=-t), fhtq=f.fhtq(got['fhtq'], xs, tdir=-t), fftl=f.fftl(got['fftl'], xs, rk=case['rk'], tdir=-t))
            scale = dict(fht=np.exp(-t * q * x), fhtq=1.0, fftl=np.exp(-(t * q - 0.5) * x))
            for name, b in back.items():
                compare(f'{name} there and back', b * scale[name], a * scale[name], rtol=1e-6, atol=1e-7)
        if mu >= 0:
            self.gaussian(case, f, note)

    def gaussian(self, case, f, note):
        """The Hankel transform of r^(mu+1) exp(-r^2/2) is itself."""
        n, mu, w = 2048, case['mu'], case['width']
        r = np.exp(np.linspace(-12.0, 12.0, n))
        d = 24.0 / (n - 1)
        q = 0.5 * np.clip(case['q'], -0.5, 0.5)
        with sut('fhti'):
            kr, xs = f.fhti(n, mu, d, q=q, kropt=1)
        k = kr * r
        a = (r / w) ** (mu + 1.0) * np.exp(-0.5 * (r / w) ** 2)
        with sut('fht'):
            got = f.fht(a, xs)
        want = w * (k * w) ** (mu + 1.0) * np.exp(-0.5 * (k * w) ** 2) / w
        m = (k > 0.05) & (k < 20.0)
        compare('transform of a Gaussian', got[m], want[m], rtol=1e-4, atol=1e-4, note=note)


PROP = P()
