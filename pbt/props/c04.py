import numpy as np
from hypothesis import strategies as st

from .. import cmp, gen, ref
from ..core import Prop, sut


class P(Prop):
    id = 'C04'
    rule = ('cosmologies with dynamical dark energy, neutrinos and non-standard radiation, one to five redshifts up to z = 5; '
            'non-trivial: w0, wa or the neutrino mass off their defaults')
    assumptions = ('scipy integrates the growth equation with the tolerances it documents: agreement to 1e-5 with the same numerical set-up, and to '
                   '2e-3 (growth, delta_c) or 5e-3 (Delta_v) with an accurate integration',)
    quick, thorough = 120, 1500

    def strategy(self, tier):
        @st.composite
        def f(draw):
            c = draw(gen.cosmology())
            c['z'] = draw(gen.redshifts(1, 5, zmax=5.0))
            c['helpers'] = dict(k=[draw(gen.num(-3, -1, 2)), draw(gen.num(0.0, 1.5, 2)), draw(st.integers(20, 60))],
                                fnu=draw(st.one_of(st.just(0.0), gen.num(0.002, 0.08))), nnu=draw(st.sampled_from([1, 2, 3])),
                                g=draw(gen.num(0.2, 1.0, 3)), r=[draw(gen.num(0.5, 20.0, 2)) for _ in range(3)],
                                m=[draw(gen.num(10.0, 12.0, 2)), draw(gen.num(12.0, 15.5, 2))], z=draw(gen.num(0.0, 2.0, 2)))
            c.update(draw(gen.implicit(c)))
            return c

        return f()

    def nontrivial(self, case):
        return case['w0'] != -1 or case['wa'] != 0 or case['m_nu'] not in (0.0, 0.06)

    def check(self, case, note):
        from onepower.hmi import HaloModelIngredients

        cfg = {k: v for k, v in case.items() if k != 'helpers'}
        cfg.update(Mmin=10.0, Mmax=15.0, dlog10m=0.25, k=[-2.0, 1.0, 6])
        a = gen.spectra_kwargs(cfg)
        with sut('HaloModelIngredients(...)'):
            h = HaloModelIngredients(**gen.copy_kwargs(a.kw))
            got = [np.asarray(x, float) for x in (h.get_mead_growth, h.get_mead_accumulated_growth, h.dc_Mead, h.Dv_Mead)]
        P = dict(ref.DEFAULTS)
        P.update(gen.copy_kwargs(a.kw))
        names = ('growth', 'accumulated growth', 'delta_c', 'Delta_v')
        for n, g, w in zip(names, got, ref.collapse(P)):
            cmp.compare(n, g, w, rtol=1e-5, note=note)
        for n, g, w, t in zip(names, got, ref.collapse(P, accurate=True), (2e-3, 2e-3, 2e-3, 5e-3)):
            cmp.compare(f'{n}, accurate', g, w, rtol=t, note=note)
        self.helpers(case['helpers'], P, h, note)

    def helpers(self, q, P, h, note):
        k = np.logspace(*q['k'])
        hh, om = P['h0'], P['omega_c'] + P['omega_b']
        with sut('Tk_cold_ratio'):
            got = h.Tk_cold_ratio(k, q['g'], om * hh**2, hh, q['fnu'], q['nnu'], T_CMB=P['tcmb'])
        cmp.compare('cold-matter transfer ratio', np.asarray(got, float) * np.ones_like(k), cold_ratio(k, q, om * hh**2, hh, P['tcmb']), note=note)
        with sut('Tk_cold_ratio'):
            got = h.Tk_cold_ratio(k, q['g'], om * hh**2, hh, q['fnu'], q['nnu'])
        cmp.compare('cold-matter transfer ratio, default temperature', np.asarray(got, float) * np.ones_like(k), cold_ratio(k, q, om * hh**2, hh, 2.7255), note=note)
        self.collapse(q, h, note)
        p = 1e4 * (k / 0.02) / (1.0 + (k / 0.02) ** 2) ** 1.3
        r = np.array(q['r'])
        with sut('sigmaR_cc'):
            got = h.sigmaR_cc(p, k, r)
        from scipy.integrate import simpson

        x = r[:, None] * k[None, :]
        w = 3.0 * (np.sin(x) - x * np.cos(x)) / x**3
        want = np.sqrt(simpson(p * k**3 * w**2 / (2.0 * np.pi**2), x=np.log(k), axis=-1))
        cmp.compare('sigma(R)', got, want, note=note)

    def collapse(self, q, h, note):
        """Bullock et al. (2001) with power laws for the growth and the fluctuations."""
        from types import SimpleNamespace

        rho, dc, z, p = 1e11 * (1.0 + q['fnu']), 1.6 + 0.1 * q['g'], q['z'], 0.7 + 0.3 * q['g']
        m = np.logspace(*q['m'], 6)
        radius = lambda m, rho: (3.0 * m / (4.0 * np.pi * rho)) ** (1.0 / 3.0)
        sigma = lambda r: (1.2 + 4.0 * q['z']) * q['g'] * (r / 4.0) ** -0.4
        mf = SimpleNamespace(mean_density0=rho, filter=SimpleNamespace(mass_to_radius=radius), normalised_filter=SimpleNamespace(sigma=sigma))
        cosmo = SimpleNamespace(scale_factor=lambda z: 1.0 / (1.0 + z))
        with sut('get_halo_collapse_redshifts'):
            got = h.get_halo_collapse_redshifts(m, z, dc, lambda a: a**p, cosmo, mf)
        s = sigma(radius(0.01 * m, rho))
        want = np.where(s > dc, (1.0 + z) * (np.maximum(s, dc) / dc) ** (1.0 / p) - 1.0, z)
        cmp.compare('collapse redshifts', got, want, rtol=1e-6, atol=1e-9, note=note)


def cold_ratio(k, q, ommh2, hh, tcmb):
    """Eisenstein & Hu (1997): ratio of the growth of cold matter to that of all matter."""
    f = q['fnu']
    if f == 0:
        return np.ones_like(k)
    t = tcmb / 2.7
    p = (5.0 - np.sqrt(1.0 + 24.0 * (1.0 - f))) / 4.0
    d = (1.0 + 2.5e4 * ommh2 / t**4) * q['g']
    kk = k * hh * t**2 / ommh2
    y = 17.2 * f * (1.0 + 0.488 * f ** (-7.0 / 6.0)) * (q['nnu'] * kk / f) ** 2
    s = (d / (1.0 + y)) ** 0.7
    return (1.0 + s) ** (p / 0.7) / ((1.0 - f) ** (0.7 / p) + s) ** (p / 0.7)


PROP = P()
