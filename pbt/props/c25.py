import numpy as np
from hypothesis import strategies as st

from .. import cosmosis_stub, gen
from ..cmp import compare
from ..core import Prop, Violation, sut

OPT = cosmosis_stub.OPTIONS
UNIT = {'rad': 1.0, 'deg': np.pi / 180.0, 'arcmin': np.pi / 180.0 / 60.0, 'arcsec': np.pi / 180.0 / 3600.0}
CP = 'cosmological_parameters'


@st.composite
def angle_cases(draw):
    return dict(what='theta', unit=draw(st.sampled_from([*UNIT, 'radian', 'radians'])), to=draw(st.lists(st.sampled_from(list(UNIT)), min_size=1, max_size=4)),
                theta=[draw(gen.num(1e-3, 500.0, 4)) for _ in range(draw(st.integers(1, 8)))], section=draw(st.sampled_from(['shear_xi_plus', 'Other', ''])))


@st.composite
def distance_cases(draw):
    nb = draw(st.sampled_from([1, 1, 1, 2, 3]))
    cls = draw(st.sampled_from([None, 'LambdaCDM', 'FlatLambdaCDM', 'Flatw0waCDM']))
    om = draw(gen.num(0.2, 0.4, 3))
    data = {'H0': draw(gen.num(60.0, 80.0, 2)), 'Om0': om}
    if cls in ('LambdaCDM', None):
        data['Ode0'] = draw(gen.num(0.6, 0.8, 3))
    if cls == 'Flatw0waCDM':
        data['w0'] = draw(gen.num(-1.2, -0.8, 2))
    if cls is None and draw(st.booleans()):
        data = None
    same_z = draw(st.booleans())
    z = [draw(gen.num(0.05, 0.5, 3)) for _ in range(nb)]
    if same_z:
        z = [z[0]] * nb
    run = dict(hubble=draw(gen.num(60.0, 80.0, 2)), omega_b=draw(gen.num(0.03, 0.06, 3)), omega_m=draw(gen.num(0.2, 0.4, 3)), mnu=draw(st.sampled_from([0.0, 0.06, 0.2])),
               w=draw(st.sampled_from([-1.0, -0.9, -1.1])), wa=draw(st.sampled_from([0.0, 0.2])), TCMB=draw(st.sampled_from([None, 2.6])))
    return dict(what='distance', cls=cls, data=data, z=z, run=run, kind=draw(st.sampled_from(['wp', 'ds'])),
                rp=[-1.0, draw(gen.num(0.5, 2.0, 1)), draw(st.integers(3, 12))], slope=draw(gen.num(-2.0, -0.5, 2)))


class P(Prop):
    id = 'C25'
    rule = ('angles in any unit taken through one to four conversions, and projected observables of one to three bins corrected from one cosmology to '
            'another; non-trivial: units or cosmologies differ')
    assumptions = ('a stand-in for the data block of CosmoSIS', 'the expansion rate of astropy; distances integrated independently, agreement to 1e-6')
    quick, thorough = 240, 3000

    def strategy(self, tier):
        return gen.weighted((1, angle_cases()), (2, distance_cases()))

    def labels(self, case):
        return [case['what'] + (f" {case['kind']} bins={len(case['z'])}" if case['what'] == 'distance' else '')]

    def nontrivial(self, case):
        return case['what'] == 'distance' or any(u != case['unit'] for u in case['to'])

    def check(self, case, note):
        cosmosis_stub.install()
        (self.theta if case['what'] == 'theta' else self.distance)(case, note)

    def theta(self, case, note):
        import convert_theta as m

        sec = case['section']
        b = cosmosis_stub.Block({(sec, 'theta'): np.array(case['theta'])})
        b.put_metadata(sec, 'theta', 'unit', case['unit'])
        rad = np.array(case['theta']) * UNIT[case['unit'].replace('radians', 'rad').replace('radian', 'rad')]
        for u in case['to']:
            o = {(OPT, 'output_units'): u}
            if sec:
                o[OPT, 'section_name'] = sec
            with sut('convert_theta'):
                rc = m.execute(b, m.setup(cosmosis_stub.Block(o)))
                got, unit = b[sec, 'theta'], b.get_metadata(sec, 'theta', 'unit')
            if rc != 0 or unit != u:
                raise Violation(f'returned {rc!r}, with unit {unit!r}')
            compare(f'angles in {u}', np.asarray(got), rad / UNIT[u], rtol=1e-12)
            note('conversions')
        try:
            m.setup(cosmosis_stub.Block({(OPT, 'output_units'): 'parsec'}))
        except Exception:
            return
        raise Violation('an unknown unit is accepted')

    def distance(self, case, note):
        import astropy.cosmology as ac
        import correct_cosmo_real as m
        from scipy.integrate import quad

        o = {(OPT, 'section_name'): 'obs', (OPT, 'z'): case['z'] if len(case['z']) > 1 else case['z'][0]}
        if case['data'] is not None:
            o[OPT, 'cosmo_kwargs'] = repr(case['data'])
        if case['cls'] is not None:
            o[OPT, 'astropy_cosmology_class'] = case['cls']
        rp = np.logspace(*case['rp'])
        v = {('obs', 'rp'): rp, ('obs', 'nbin'): len(case['z']), ('obs', 'save_name'): case['kind']}
        func = [(i + 2.0) * rp ** case['slope'] for i in range(len(case['z']))]
        for i, f in enumerate(func):
            v['obs', f'bin_{i + 1}'] = f
        v.update({(CP, a): x for a, x in case['run'].items() if x is not None})
        b = cosmosis_stub.Block(v)
        with sut('correct_cosmo_real'):
            rc = m.execute(b, m.setup(cosmosis_stub.Block(o)))
        if rc != 0:
            raise Violation(f'returned {rc!r}')
        r = case['run']
        run = ac.Flatw0waCDM(H0=r['hubble'], Om0=r['omega_m'], Ob0=r['omega_b'], w0=r['w'], wa=r['wa'], Tcmb0=r['TCMB'] or 2.7255, m_nu=[0, 0, r['mnu']])
        data = getattr(ac, case['cls'] or 'LambdaCDM')(**(case['data'] or {'H0': 70.0, 'Om0': 0.3, 'Ode0': 0.7}))

        def chi(c, z1, z2):
            """Comoving distance along and across the line of sight, in Mpc."""
            x = quad(lambda z: 1.0 / c.efunc(z), z1, z2, epsabs=0, epsrel=1e-10)[0]
            ok = c.Ok0
            t = x if abs(ok) < 1e-12 else (np.sinh(np.sqrt(ok) * x) / np.sqrt(ok) if ok > 0 else np.sin(np.sqrt(-ok) * x) / np.sqrt(-ok))
            return np.array([x, t]) * 299792.458 / c.H0.value

        ratios = []
        for i, z in enumerate(case['z']):
            ratios.append(chi(run, 0, z)[0] * run.h / (chi(data, 0, z)[0] * data.h))
            if case['kind'] == 'wp':
                f = data.efunc(z) * data.h / (run.efunc(z) * run.h)
            else:
                # the critical surface density, from angular diameter distances in Mpc / h
                sigma = lambda c: chi(c, 0, 0.6)[1] / (chi(c, z, 0.6)[1] * chi(c, 0, z)[1]) * (1.0 + z) / c.h
                f = sigma(data) / sigma(run)
            compare(f'bin {i + 1}', np.asarray(b['obs', f'bin_{i + 1}']), func[i] * f, rtol=1e-6)
            note('bins')
        got = np.asarray(b['obs', 'rp'])
        if len(ratios) == 1:
            compare('separations', got, rp * ratios[0], rtol=1e-6)
        elif len(set(case['z'])) == 1 and not np.allclose(got, rp * ratios[0], rtol=1e-6):
            # several bins at one redshift share one set of separations
            e = Violation(f'separations of {len(ratios)} bins at the same redshift: {got[0]} instead of {rp[0] * ratios[0]}')
            if np.allclose(got, rp * np.prod(ratios), rtol=1e-6):
                e.key = 'separations-rescaled-per-bin'
            raise e


PROP = P()
