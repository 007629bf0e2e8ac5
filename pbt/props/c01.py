import numpy as np
from hypothesis import strategies as st

from .. import gen, history, sutlib
from ..core import Prop, Violation, sut

NAMES = sutlib.SPECTRA + sutlib.HALO + tuple('hod.' + n for n in sutlib.HOD) + (
    'lin', 'mass_avg', 'poisson_func', 'fstar', 'nonlinear_power', 'alignment_gi', 'peff', 'dc_Mead', 'Dv_Mead', 'get_mead_growth')
OBS = ('obs_func', 'obs_func_cen', 'obs_func_sat', 'obs_func_obs', 'obs_func_z')


class P(Prop):
    id = 'C01'
    rule = ('a start configuration followed by one to six steps; a step calls update() with some parameters (cosmology, grids, models, flags, '
            'occupation, alignments, tabulated inputs) or goes back to the previous configuration, and then reads all or a few results; '
            'non-trivial: results were read before a later update changed something. Other histories drive UpsampledSpectra, the alignment '
            'classes and the emulator of the non-linear bias')
    assumptions = ('a freshly constructed model is right (the other properties decide that)',
                   'dictionaries given to update() are merged and empty ones clear, as documented by hmf')
    quick, thorough = 40, 1200

    def strategy(self, tier):
        n = 6 if tier == 'quick' else 10
        sp = history.histories(gen.model('all', max_bins=2, kmax=14), n, NAMES).map(lambda h: dict(h, target='spectra'))
        return gen.weighted((4, sp), (2, switched()), (2, upsampled()), (1, satellite()))

    def explicit(self):
        """Each parameter updated on its own, in contexts that between them use it."""
        for base in bases():
            for key, value in singles():
                if key == 'nonlinear_mode' and value == 'hmcode' and base['hmcode_ingredients'] not in ('mead2020', 'mead2020_feedback'):
                    continue
                if key == 'hmcode_ingredients' and base['nonlinear_mode'] == 'hmcode' and value not in ('mead2020', 'mead2020_feedback'):
                    continue
                yield dict(target='spectra', cfg=base, first=None, steps=[dict(change={key: value}, read=None)])
        every = bases()
        for f in joints():
            for base in (every if 'k' in f or 'z' in f or 'Mmin' in f else (every[2], every[4])):
                yield dict(target='spectra', cfg=base, first=None, steps=[dict(change=f, read=None)])

        one = dict(singles())
        for start, switch, keys in PAIRS:
            for base in (every[0], every[3]):
                steps = [dict(change=c, read=None) for c in [switch] + [{k: one[k]} for k in keys]]
                yield dict(target='spectra', cfg={**base, 'nonlinear_mode': None, **start}, first=None, steps=steps)

    def labels(self, case):
        out = [f"target={case['target']}"]
        for s in case['steps']:
            if s.get('undo'):
                out.append('step=back')
            elif case['target'] == 'spectra':
                out += [f'step={k}' for k in s['change'] if k != 'clear']
        return out

    def nontrivial(self, case):
        return case['first'] is None or any(s['read'] is None for s in case['steps'][:-1])

    def check(self, case, note):
        getattr(self, 'check_' + case['target'])(case, note)

    def names(self, kw):
        from ..ref import DEFAULTS

        p = {**DEFAULTS, **kw}
        out = list(NAMES)
        if p['hod_model'] == 'Cacciato' and p['compute_observable']:
            out += OBS
        if p['matter_power_nl'] is not None:
            out.remove('nonlinear_power')
        return out

    def check_spectra(self, case, note):
        s0 = history.State(case['cfg'])
        s = sutlib.spectra(gen.copy_kwargs(s0.kw))
        names = self.names(s0.kw)
        for n in names if case['first'] is None else case['first']:
            sutlib.read(s, n)
        for i, step in enumerate(case['steps']):
            calls = s0.undo() if step.get('undo') else s0.change(step['change'])
            for c in calls:
                with sut(f'update({", ".join(c)})'):
                    s.update(**c)
            fresh = sutlib.spectra(gen.copy_kwargs(s0.kw))
            last = i == len(case['steps']) - 1
            names = self.names(s0.kw)
            read = names if step['read'] is None or last else [n for n in step['read'] if n in names]
            want = sutlib.read_all(fresh, read)
            got = sutlib.read_all(s, read)
            what = f"step {i + 1}: after {'going back' if step.get('undo') else 'update of ' + ', '.join(step['change'])}"
            sutlib.same_outputs(got, want, what)
            note('results compared', len(want))

    def check_upsampled(self, case, note):
        from onepower.add import UpsampledSpectra

        cfg = case['cfg']
        base = gen.spectra_kwargs(cfg)
        keep = gen.Args(case['second']) if case['second'] else None
        second = gen.copy_kwargs(keep.kw) if keep else None
        own = case.get('own')
        models = [None if own else sutlib.spectra(gen.copy_kwargs(base.kw))]
        kw = up_kwargs(case['start'])

        def fresh(base, second):
            with sut('UpsampledSpectra'):
                m = sutlib.spectra(gen.copy_kwargs(base.kw))
                return self.results(UpsampledSpectra(model=m, model_2_params=gen.copy_kwargs(second) if second else None, **gen.copy_kwargs(kw)), case['modes'])

        with sut('UpsampledSpectra'):
            u = UpsampledSpectra(model=models[0], model_1_params=gen.copy_kwargs(base.kw) if own else None,
                                 model_2_params=gen.copy_kwargs(second) if second else None, **gen.copy_kwargs(kw))
        self.results(u, case['modes'])
        for i, step in enumerate(case['steps']):
            ch = up_kwargs({k: v for k, v in step['change'].items() if k not in ('model', 'second', 'inside')})
            kw = {**kw, **ch}
            if 'inside' in step['change']:
                # the model itself is updated by whoever owns it
                old = base
                base = gen.spectra_kwargs({**cfg, **step['change']['inside']})
                with sut('update'):
                    u.power_1.update(**step['change']['inside'])
                got, want = self.results(u, case['modes']), fresh(base, second)
                try:
                    sutlib.same_outputs(got, want, f'step {i + 1}: upsampled after an update of the first model')
                except Violation as e:
                    if second:
                        a, b, c = fresh(base, None), fresh(old, second), fresh(old, None)
                        if all(np.allclose(got[n], a[n] + b[n] - c[n], rtol=1e-6, atol=1e-9 * np.max(np.abs(b[n]))) for n in got if not n.startswith('frac')):
                            e.key = 'second-population-of-updated-model'
                    raise
                note('results compared', len(got))
                return
            if 'model' in step['change']:
                cfg = {**(cfg if own else case['cfg']), **step['change']['model']}
                base = gen.spectra_kwargs(cfg)
                if own:
                    ch['_model_1_params'] = base.kw
                else:
                    models.append(sutlib.spectra(gen.copy_kwargs(base.kw)))
                    ch['model'] = models[-1]
            if 'second' in step['change']:
                second = {**(second or {}), **step['change']['second']}
                ch['_model_2_params'] = step['change']['second']
            with sut('update'):
                u.update(**{k: v if k == 'model' else gen.copy_kwargs(v) for k, v in ch.items()})
            got = self.results(u, case['modes'])
            sutlib.same_outputs(got, fresh(base, second), f"step {i + 1}: upsampled after update of {', '.join(ch)}")
            note('results compared', len(got))

    def results(self, u, modes):
        out = {}
        with sut('results'):
            u.results(modes, ['1h', '2h', 'tot'])
            for m in modes:
                p = getattr(u, f'power_spectrum_{m}')
                for c in ('1h', '2h', 'tot'):
                    out[f'{m}_{c}'] = np.array(getattr(p, f'pk_{c}'))
            out['frac_1'], out['frac_2'] = np.array(u.frac_1), np.array(u.frac_2)
        return out

    def check_satellite(self, case, note):
        from onepower.ia import SatelliteAlignment

        args = gen.Args({})
        kw = sat_kwargs(case['cfg'], args)
        with sut('SatelliteAlignment'):
            s = SatelliteAlignment(**gen.copy_kwargs(kw))
        kout, mout = np.logspace(-2, 1.5, 7), kw['mass_in'][::2]
        names = ('alignment_gi', 'gamma_1h_amp', 'wkm')

        def read(o, which):
            out = {}
            with sut('satellite alignment'):
                for n in which:
                    v = getattr(o, n)
                    if n == 'wkm':
                        out.update({f'wkm[{j}]': np.array(x) for j, x in enumerate(v)})
                        # upsampling interpolates in k only
                        out['upsampled'] = np.array(o.upsampled_wkm(kout, o.mass))
                    else:
                        out[n] = np.array(v)
            return out

        read(s, names if case['first'] is None else case['first'])
        for i, step in enumerate(case['steps']):
            ch = sat_kwargs(step['change'], args)
            kw = {**kw, **ch}
            with sut('update'):
                s.update(**gen.copy_kwargs(ch))
            last = i == len(case['steps']) - 1
            which = names if step['read'] is None or last else step['read']
            with sut('SatelliteAlignment'):
                f = SatelliteAlignment(**gen.copy_kwargs(kw))
            want = read(f, which)
            sutlib.same_outputs(read(s, which), want, f"step {i + 1}: alignment after update of {', '.join(ch)}")
            note('results compared', len(want))


@st.composite
def up_change(draw, full=False):
    keys = ['z', 'fraction', 'k', 'extrapolate_option'] if full else draw(
        st.lists(st.sampled_from(['z', 'fraction', 'k', 'extrapolate_option', 'model', 'second']), min_size=1, max_size=2, unique=True))
    out = {}
    for k in keys:
        if k == 'z':
            out['z'] = draw(gen.redshifts(2, 5))
        elif k == 'k':
            out['k'] = [draw(gen.num(-2.5, -1.0, 2)), draw(gen.num(0.0, 1.5, 2)), draw(st.integers(3, 9))]
        elif k == 'model':
            out[k] = {p: draw(gen.num(*history.COSMO[p])) for p in draw(st.lists(st.sampled_from(['sigma_8', 'omega_c', 'h0', 'n_s']), min_size=1, max_size=2,
                                                                               unique=True))}
        elif k == 'second':
            out[k] = draw(st.sampled_from([dict(sigma_8=0.75), dict(norm_cen=1.2), dict(mb=2e14), dict(omega_c=0.2), dict(t_eff=0.2)]))
        elif k == 'fraction':
            out['fraction_z'] = draw(gen.redshifts(3, 3))
            out['fraction'] = [draw(gen.num(0.0, 1.0, 3)) for _ in range(3)]
        else:
            out[k] = draw(st.sampled_from(['extrapolate', 0.0]))
    return out


def up_kwargs(c):
    out = {}
    for k, v in c.items():
        out[k] = np.logspace(*v) if k == 'k' else np.array(v) if k in ('z', 'fraction', 'fraction_z') else v
    return out


@st.composite
def upsampled(draw):
    cfg = draw(gen.model('all', max_bins=1, kmax=12))
    f = draw(history.fragment(cfg).filter(lambda f: not ({'z', 'k', 'clear', 'Mmin', 'Mmax', 'dlog10m', 'hod_settings', 'transfer_array',
                                                         'growth_array', 'beta_nl', 'compute_observable', 'response'} & set(f))))
    second = dict(z=cfg['z'], k=cfg['k'], **{k: v for k, v in f.items() if k not in ('z', 'k')})
    modes = draw(st.lists(st.sampled_from(sutlib.SPECTRA), min_size=1, max_size=3, unique=True))
    steps = [dict(change=draw(up_change()), read=None) for _ in range(draw(st.integers(1, 3)))]
    c = dict(target='upsampled', cfg=cfg, second=second, start=draw(up_change(True)), modes=modes, steps=steps, first=None)
    kind = draw(st.integers(0, 7))
    if kind == 0:
        # nothing to update: a dictionary given for one that was None is refused
        c['second'] = None
        for s in steps:
            s['change'].pop('second', None)
    if kind in (0, 1):
        c['steps'].append(dict(change=dict(inside=dict(draw(st.sampled_from([dict(sigma_8=0.7), dict(omega_c=0.22), dict(norm_sat=1.2), dict(t_eff=0.3)])))), read=None))
    c['own'] = kind in (2, 3)
    return c


@st.composite
def sat_fragment(draw, z, full=False):
    a = draw(gen.luminosity_alignments(z) if draw(st.integers(0, 2)) == 0 else gen.alignments())
    a.pop('ell_max', None)
    if full:
        a['n'] = draw(st.integers(5, 9))
        a['halo'] = draw(gen.num(0.5, 2.0, 2))
        a['ell_max'] = draw(st.sampled_from([2, 4, 6]))
        return a
    k = draw(st.integers(0, 5))
    if k == 0:
        return dict(halo=draw(gen.num(0.5, 2.0, 2)), n=draw(st.integers(5, 9)))
    if k == 1:
        return dict(ell_max=draw(st.sampled_from([2, 4, 6, 8])))
    if k == 2:
        step = draw(st.sampled_from([0.15, 0.2, 0.4]))
        return dict(z=[round(z[0] + i * step, 3) for i in range(len(z))])
    a = {k: v for k, v in a.items() if v is not None}
    return a or dict(truncate=draw(st.booleans()))


def sat_kwargs(c, args):
    c = dict(c)
    out = {}
    if 'z' in c:
        out['z_vec'] = np.array(c.pop('z'))
    if 'halo' in c:
        n, f, nz = c.pop('n'), c.pop('halo'), c.pop('nz', None)
        m = np.logspace(11.0, 15.0, n)
        zz = 1.0 + 0.1 * np.arange(3)[:nz]
        out['mass_in'] = m
        out['c_in'] = 8.0 * (m / 1e13)[None, :] ** -0.1 / zz[:, None]
        out['rvir_in'] = f * 0.5 * (m / 1e13)[None, :] ** (1.0 / 3.0) * zz[:, None]
        out['r_s_in'] = out['rvir_in'] / out['c_in']
    out.update(args.luminosities(c))
    return out


@st.composite
def satellite(draw):
    z = [0.1, 0.4, 0.7][: draw(st.integers(2, 3))]
    nz = len(z)
    cfg = dict(draw(sat_fragment(z, full=True)), z=z, nz=nz)
    steps = []
    names = ('alignment_gi', 'gamma_1h_amp', 'wkm')
    for _ in range(draw(st.integers(1, 4))):
        f = draw(sat_fragment(z))
        if 'halo' in f:
            f['nz'] = nz
        steps.append(dict(change=f, read=None if draw(st.booleans()) else draw(st.lists(st.sampled_from(names), min_size=1, max_size=2, unique=True))))
    return dict(target='satellite', cfg=cfg, steps=steps, first=None if draw(st.booleans()) else [])


def bases():
    bins = dict(obs_min=[9.0, 10.0], obs_max=[10.0, 11.2], zmin=[0.0, 0.1], zmax=[0.9, 1.0], nz=3, nobs=20, observable_h_unit='1/h^2')
    b = dict(z=[0.1, 0.8], k=[-2.0, 1.0, 7], Mmin=10.0, Mmax=15.0, dlog10m=0.25, omega_c=0.26, omega_b=0.046, h0=0.69, n_s=0.96, sigma_8=0.8,
             w0=-0.95, wa=0.1, m_nu=0.1, log10T_AGN=7.7, transfer_model='EH', growth_model='GrowthFactor', mdef_model='SOMean',
             hmf_model='Tinker10', bias_model='Tinker10', hod_model='Cacciato', hod_params={}, hod_settings=bins,
             hod_settings_mm=dict(bins, obs_min=[8.0], obs_max=[12.0], zmin=[0.0], zmax=[1.0]), poisson_model='constant',
             poisson_params={'poisson': 0.9}, align_params={'gamma_1h_amplitude': 0.002}, response=False, pointmass=False, dewiggle=False,
             compute_observable=True, obs_settings=dict(bins, obs_min=[9.0], obs_max=[11.0], zmin=[0.0], zmax=[1.0]))
    return [dict(b, hmcode_ingredients=None, nonlinear_mode='fortuna', t_eff=0.3),
            dict(b, hmcode_ingredients='mead2020_feedback', nonlinear_mode='hmcode'),
            dict(b, hmcode_ingredients='fit', nonlinear_mode=None, pointmass=True, response=True),
            dict(b, hmcode_ingredients=None, nonlinear_mode=None, pointmass=True, mdef_model='SOVirial', dewiggle=True),
            dict(b, hmcode_ingredients=None, nonlinear_mode='bnl', beta_nl=dict(a=0.3, b=0.05, c=0.02, kp=-0.5, z=[1.0, 0.6]),
                 align_params=dict(central_ia_depends_on='luminosity', lpivot_cen=10.2, beta_cen=0.8, beta_two=0.3,
                                   z_loglum_file_centrals=dict(seed=3, n=200, z0=0.0, z1=1.1, mean=10.3, width=0.3, evol=0.2),
                                   satellite_ia_depends_on='luminosity', lpivot_sat=10.0, beta_sat=0.6,
                                   z_loglum_file_satellites=dict(seed=4, n=150, z0=0.0, z1=1.2, mean=10.0, width=0.3, evol=0.1)))]


EXT = dict(amp=1.0, k0=0.02, tilt=0.95, wig=0.05, freq=6.0, boost=0.5, growth=[0.9, 0.6])
SWITCHES = [dict(hmcode_ingredients=None), dict(hmcode_ingredients='mead2020'), dict(hmcode_ingredients='mead2020_feedback'), dict(hmcode_ingredients='fit'),
            dict(nonlinear_mode=None), dict(nonlinear_mode='fortuna'), dict(nonlinear_mode='fortuna', t_eff=0.4),
            dict(hmcode_ingredients='mead2020_feedback', nonlinear_mode='hmcode'), dict(hmcode_ingredients='mead2020', nonlinear_mode='hmcode'),
            dict(response=True), dict(response=False), dict(matter_power_nl=EXT), dict(matter_power_nl=EXT, response=True), dict(matter_power_lin=EXT),
            dict(pointmass=True), dict(pointmass=False), dict(pointmass=True, hmcode_ingredients='fit'), dict(dewiggle=True), dict(dewiggle=False),
            dict(compute_observable=True), dict(compute_observable=False), dict(poisson_model='power_law', poisson_params=dict(poisson=0.9, pivot=12.5, slope=0.1)),
            dict(mdef_model='SOVirial'), dict(mdef_model='SOMean'), dict(hmf_model='ST'), dict(bias_model='ST99'), dict(growth_array=dict(s=0.9)),
            dict(transfer_array=dict(q=0.22)), dict(one_halo_ktrunc=None), dict(two_halo_ktrunc=None), dict(one_halo_ktrunc=0.2), dict(two_halo_ktrunc=1.5),
            dict(one_halo_ktrunc_ia=None, two_halo_ktrunc_ia=None), dict(align_params=dict(central_ia_depends_on='constant')),
            dict(align_params=dict(satellite_ia_depends_on='constant'))]
# between them these matter only under some of the options
SPECIFIC = ('mb', 'log10T_AGN', 't_eff', 'matter_power_nl', 'matter_power_lin', 'obs_settings', 'hod_settings_mm', 'poisson_params', 'overdensity', 'delta_c', 'eta_cen',
            'eta_sat', 'norm_cen', 'm_nu', 'n_s')


PAIRS = [(dict(hmcode_ingredients=a), dict(hmcode_ingredients=b), keys) for a in (None, 'mead2020', 'mead2020_feedback', 'fit')
         for b, keys in (('fit', ('mb', 'eta_cen')), ('mead2020_feedback', ('log10T_AGN',)), ('mead2020', ('m_nu', 'eta_cen'))) if a != b]
PAIRS += [(dict(pointmass=False), dict(pointmass=True), ('mb', 'hod_settings_mm')), (dict(compute_observable=False), dict(compute_observable=True), ('obs_settings',)),
          (dict(dewiggle=False), dict(dewiggle=True), ('n_s', 'h0')), (dict(response=False), dict(response=True), ('matter_power_nl',)),
          (dict(response=False, matter_power_nl=EXT), dict(response=True), ('matter_power_nl',)), (dict(nonlinear_mode=None), dict(nonlinear_mode='fortuna'), ('t_eff',)),
          (dict(nonlinear_mode='hmcode', hmcode_ingredients='mead2020'), dict(nonlinear_mode='fortuna'), ('t_eff',)),
          (dict(nonlinear_mode='fortuna', hmcode_ingredients='mead2020'), dict(nonlinear_mode='hmcode'), ('m_nu', 'n_s', 'two_halo_ktrunc')),
          (dict(hmcode_ingredients='mead2020_feedback'), dict(nonlinear_mode='hmcode'), ('log10T_AGN', 'n_s'))]


@st.composite
def switched(draw):
    """A computation is selected, and then parameters are updated which matter to it, perhaps not to the one before."""
    cfg = dict(draw(st.sampled_from(bases())))
    one = list(singles())
    for key in draw(st.lists(st.sampled_from(['compute_observable', 'pointmass', 'response', 'dewiggle']), max_size=2, unique=True)):
        cfg[key] = not cfg[key]
    if cfg['nonlinear_mode'] != 'hmcode':
        cfg['hmcode_ingredients'] = draw(st.sampled_from([None, 'mead2020', 'mead2020_feedback', 'fit']))
    steps = []
    for _ in range(draw(st.integers(1, 2))):
        steps.append(dict(change=draw(st.sampled_from(SWITCHES)), read=None))
        for key in draw(st.lists(st.sampled_from(SPECIFIC), min_size=1, max_size=4, unique=True)):
            steps.append(dict(change={key: draw(st.sampled_from([v for k, v in one if k == key]))}, read=None))
    # the two options are consistent throughout
    ing, mode = cfg['hmcode_ingredients'], cfg['nonlinear_mode']
    for s in steps:
        new = (s['change'].get('hmcode_ingredients', ing), s['change'].get('nonlinear_mode', mode))
        if new[1] == 'hmcode' and new[0] not in ('mead2020', 'mead2020_feedback'):
            s['change'] = dict(s['change'], nonlinear_mode=None)
            new = (new[0], None)
        ing, mode = new
    return dict(target='spectra', cfg=cfg, first=None, steps=steps)


def singles():
    for k, (lo, hi) in list(history.COSMO.items()) + list(history.NUMBERS.items()):
        yield k, round(lo + 0.37 * (hi - lo), 4)
    for k, v in history.CHOICES.items():
        yield k, v[1]
        yield k, v[2] if len(v) > 2 else v[0]
    for k in ('one_halo_ktrunc', 'two_halo_ktrunc', 'one_halo_ktrunc_ia', 'two_halo_ktrunc_ia'):
        yield k, None
    for k in ('response', 'pointmass', 'dewiggle', 'compute_observable'):
        yield k, True
        yield k, False
    for v in (None, 'hmcode', 'fortuna'):
        yield 'nonlinear_mode', v
    for v in (None, 'mead2020', 'mead2020_feedback', 'fit'):
        yield 'hmcode_ingredients', v
    yield 'mb', 1e14
    yield 'k', [-1.7, 0.8, 9]
    yield 'hod_params', {'g1': 2.9, 'A_cen': 0.2}
    yield 'poisson_params', {'poisson': 1.3}
    yield 'align_params', {'gamma_2h_amplitude': 3.0, 'beta_sat': 0.1}
    yield 'hod_settings', dict(obs_min=[9.2, 10.1], obs_max=[10.3, 11.0], zmin=[0.0, 0.1], zmax=[0.9, 1.0], nz=4, nobs=24, observable_h_unit='1/h')
    yield 'hod_settings_mm', dict(obs_min=[8.5], obs_max=[12.0], zmin=[0.0], zmax=[1.0], nz=4, nobs=24, observable_h_unit='1/h')
    yield 'obs_settings', dict(obs_min=[9.5], obs_max=[11.5], zmin=[0.0], zmax=[1.0], nz=4, nobs=24, observable_h_unit='1/h')
    ext = dict(amp=1.0, k0=0.02, tilt=0.95, wig=0.05, freq=6.0, boost=0.5, growth=[0.9, 0.6])
    yield 'matter_power_lin', ext
    yield 'matter_power_nl', ext
    yield 'transfer_array', dict(q=0.2)
    yield 'growth_array', dict(s=0.8)


def joints():
    """Grids of the same size, values exchanged, and single entries of dictionaries."""
    for f in (dict(Mmin=10.25, Mmax=15.25), dict(z=[0.1, 0.5]), dict(z=[0.4, 0.8]), dict(k=[-2.0, 0.8, 7]), dict(k=[-1.8, 1.0, 7])):
        yield f
    for k, v in dict(log10_obs_norm_c=10.2, log10_m_ch=11.6, g1=2.5, g2=0.4, sigma_log10_O_c=0.22, norm_s=0.7, pivot=12.3, alpha_s=-0.9,
                     beta_s=1.5, b0=-0.9, b1=1.2, b2=-0.1, A_cen=0.3, A_sat=-0.3).items():
        yield dict(hod_params={k: v})
    for k, v in dict(gamma_2h_amplitude=2.0, gamma_1h_amplitude=0.004, gamma_1h_slope=-1.5, beta_cen=0.9, beta_sat=-0.2, mpivot_cen=13.0,
                     mpivot_sat=14.0, lpivot_cen=10.6, lpivot_sat=10.5, ell_max=4, truncate=True, central_ia_depends_on='constant',
                     satellite_ia_depends_on='constant').items():
        yield dict(align_params={k: v})
    for which in ('hod_settings', 'hod_settings_mm', 'obs_settings'):
        n = 2 if which == 'hod_settings' else 1
        for k, v in dict(nobs=26, nz=5, observable_h_unit='1/h', obs_min=[9.3, 10.2][:n], obs_max=[10.4, 11.6][:n], zmin=[0.02, 0.05][:n],
                         zmax=[1.0, 1.2][:n]).items():
            if k != 'obs_min':
                yield {which: {k: v}}


PROP = P()
