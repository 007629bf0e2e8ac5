import numpy as np
from hypothesis import strategies as st

from .. import cmp, ref
from ..core import Prop, sut
from ..gen import num, weighted


@st.composite
def cases(draw):
    method = draw(weighted((3, st.just('fftlog')), (1, st.just('hankel'))))
    nz = draw(st.integers(1, 3))
    nm = draw(st.integers(6, 30) if method == 'hankel' else st.integers(2, 12))
    c = dict(method=method, z=sorted(draw(st.lists(num(0.0, 2.0, 3), min_size=nz, max_size=nz, unique=True))), nm=nm,
             m=[draw(num(9.5, 12.0, 2)), draw(num(13.0, 16.0, 2))], c0=draw(num(3.0, 14.0, 2)), cm=draw(st.one_of(num(-0.2, -0.02, 3), num(-0.2, -0.02, 3), st.just(0.0))),
             cz=draw(num(-1.0, 0.0, 2)), overdensity=draw(num(100, 500, 0)), flat_rvir=draw(st.booleans()),
             amp=draw(num(0.0002, 0.02, 5)), slope=draw(st.one_of(st.just(-2), st.just(-2.0), st.just(0), num(-2.9, 1.0, 2))),
             ell_max=draw(st.integers(0, 11)), truncate=draw(st.booleans()),
             k_out=[draw(num(-4.0, -1.0, 2)), draw(num(0.5, 4.0, 2)), draw(st.integers(2, 30))])
    if method == 'hankel':
        c.update(n_hankel=draw(st.integers(40, 350)), nmass=draw(st.integers(2, nm)), nk=draw(st.integers(3, 12)),
                 ell_max=draw(st.integers(2, 6)))
    return c


def arrays(case):
    m = np.logspace(*case['m'], case['nm'])
    z = np.array(case['z'])
    c = case['c0'] * (m[None, :] / 1e13) ** case['cm'] * (1 + z[:, None]) ** case['cz']
    rho = 8.5e10 * (np.ones_like(z) if case['flat_rvir'] else (1.0 + 0.3 * z))
    rvir = (3 * m[None, :] / (4 * np.pi * case['overdensity'] * rho[:, None])) ** (1 / 3)
    return m, z, c, rvir, rvir / c


class P(Prop):
    id = 'C18'
    rule = ('halo grids (mass, concentration, virial and scale radius, redshift), amplitude, radial slope, multipoles, truncation and both '
            'transforms drawn at random, evaluated inside and outside the internal wavenumbers; non-trivial: ell_max above 3 (several multipoles)')
    assumptions = ('scipy.fft.fht and hankel.HankelTransform compute what they document; agreement to 1e-4, which the cancellation of multipoles needs (slope -2, of which the '
                   'code tabulates the angular factors to eight decimals, 1e-6 of the maximum; 1e-3 of the maximum with slope 0)',
                   'against direct quadrature of the multipole integrals: 10 % of the maximum between k = 0.1 and k = 10')
    quick, thorough = 180, 3000

    def strategy(self, tier):
        return cases()

    def check(self, case, note):
        from onepower.ia import SatelliteAlignment

        m, z, c, rvir, rs = arrays(case)
        flat = case['flat_rvir']
        kw = dict(z_vec=z, mass_in=m, c_in=c, r_s_in=rs, rvir_in=rvir[0] if flat else rvir, gamma_1h_amplitude=case['amp'],
                  gamma_1h_slope=case['slope'], ell_max=case['ell_max'], truncate=case['truncate'], method=case['method'],
                  **{k: case[k] for k in ('n_hankel', 'nmass', 'nk') if k in case})
        k_out = np.logspace(*case['k_out'])
        with sut('SatelliteAlignment'):
            s = SatelliteAlignment(**{k: np.copy(v) if isinstance(v, np.ndarray) else v for k, v in kw.items()})
            got = np.asarray(s.upsampled_wkm(k_out, m))
            w, wz, wm, wk = s.wkm
        b = case['slope']
        tol = dict(rtol=1e-2, atol=1e-3) if b == 0 else (dict(rtol=5e-5, atol=1e-6) if b == -2 else dict(rtol=1e-4, atol=1e-7))
        if case['method'] == 'fftlog':
            halos = []
            for i in range(len(z)):
                h = ref.Halo()
                h.m, h.c_cen, h.rs_cen, h.rvir_cen = m, c[i], rs[i], rvir[i]
                halos.append(h)
            A = dict(gamma_1h_slope=b, truncate=case['truncate'], ell_max=case['ell_max'])
            amp = case['amp'] * np.ones(len(z))
            want = np.moveaxis(ref.w_satellite(dict(k_vec=k_out), halos, amp, A), 1, 2)
            cmp.compare('w(k,M,z)', got, want, note=note, **tol)
            kk = np.logspace(-3, 3, 100)
            cmp.compare('internal wavenumbers', wk, kk)
            cmp.compare('internal masses', wm, m)
            want = np.moveaxis(ref.w_satellite(dict(k_vec=kk), halos, amp, A), 1, 2)
            cmp.compare('w(k,M,z) on the internal wavenumbers', w, want, note=note, **tol)
            if -2.5 <= b <= -0.5 and b == b and case['ell_max'] <= 7:
                self.quadrature(case, m, z, c, rvir, rs, np.asarray(w), kk, note)
        else:
            want_w, ms, kk = hankel(case, m, z, c, rvir, rs)
            cmp.compare('internal wavenumbers', wk, kk)
            cmp.compare('internal masses', wm, ms)
            cmp.compare('w(k,M,z) on the internal wavenumbers', w, want_w, note=note, **{**tol, 'rtol': max(tol['rtol'], 1e-5)})
            # bilinear in the logarithms, which the absolute value of a sum can make singular: only where it is not
            lw = np.log10(np.asarray(w) / kk**2)
            if np.isfinite(lw).all():
                want = np.array([10.0 ** bilinear(np.log10(ms), np.log10(kk), lw[i], np.log10(m), np.log10(k_out)) for i in range(len(z))]) * k_out**2
                cmp.compare('w(k,M,z)', got, want, rtol=1e-6, atol=1e-9, note=note)

    def quadrature(self, case, m, z, c, rvir, rs, w, kk, note):
        from scipy.integrate import simpson
        from scipy.special import spherical_jn

        im, iz = len(m) // 2, len(z) - 1
        rv, r0, cc = rvir[iz, im], rs[iz, im], c[iz, im]
        sel = np.arange(33, 67, 3)
        r = np.logspace(-6, np.log10(rv if case['truncate'] else 100 * rv), 6000)
        prof = ref.satellite_profile(r, r0, rv, case['amp'], case['slope'], False) * r**3
        mn = 4 * np.pi * r0**3 * (np.log(1 + cc) - cc / (1 + cc))
        tot = 0.0
        for ell in range(2, case['ell_max'] + 1, 2):
            u = simpson(prof * spherical_jn(ell, kk[sel, None] * r), x=np.log(r)) / mn
            tot = tot + (-1) ** (ell // 2) * (2 * ell + 1) * ref.f_ell(ell, case['slope']) * u
        if case['ell_max'] < 2:
            return
        want = np.abs(tot)
        cmp.compare('w(k,M,z) by quadrature', w[iz, im, sel], want, rtol=0.0, atol=0.1, note=note)

    def nontrivial(self, case):
        return case['ell_max'] > 3

    def labels(self, case):
        return [f"method={case['method']}", f"truncate={case['truncate']}", f"ell_max={case['ell_max']}",
                f"slope={'tabulated' if case['slope'] in (0, -2) else 'general'}"]


def hankel(case, m, z, c, rvir, rs):
    from hankel import HankelTransform

    f = case['nm'] // case['nmass'] if case['nm'] != case['nmass'] else 1
    idx = list(range(0, case['nm'], f))
    if idx[-1] != case['nm'] - 1:
        idx.append(case['nm'] - 1)
    kk = np.logspace(-3, 3, case['nk'])
    out = np.zeros((len(z), len(idx), len(kk)))
    n = case['n_hankel']
    for ell in range(2, case['ell_max'] + 1, 2):
        ht = HankelTransform(ell + 0.5, n, np.pi / n)
        for i in range(len(z)):
            for j, im in enumerate(idx):
                mn = 4 * np.pi * rs[i, im] ** 3 * (np.log(1 + c[i, im]) - c[i, im] / (1 + c[i, im]))
                u = ht.transform(lambda x: ref.satellite_profile(x, rs[i, im], rvir[i, im], case['amp'], case['slope'], case['truncate'])
                                 * np.sqrt(x * np.pi / 2), kk)[0] / kk**0.5 / mn
                out[i, j] += (-1) ** (ell // 2) * (2 * ell + 1) * ref.f_ell(ell, case['slope']) * u
    return np.abs(out), m[idx], kk


def bilinear(x, y, t, xq, yq):
    a = ref.lin(x, t, xq)
    return ref.lin(y, a.T, yq).T


PROP = P()
