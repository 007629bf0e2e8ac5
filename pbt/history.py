"""
Histories of a model: a start configuration and a list of steps, each of which changes some parameters.
A step is a fragment of a case; the state it leads to is a set of keyword arguments, kept by merging dictionaries
as update() documents (a non-empty dictionary updates the previous one, an empty one clears it).
"""
import numpy as np
from hypothesis import strategies as st

from . import gen

DICTS = ('hod_params', 'hod_settings', 'hod_settings_mm', 'obs_settings', 'poisson_params', 'align_params', 'transfer_params',
         'growth_params')
SETTINGS = ('hod_settings', 'hod_settings_mm', 'obs_settings')
GRID_DEPENDENT = ('matter_power_lin', 'matter_power_nl', 'beta_nl')

COSMO = dict(omega_c=(0.15, 0.4), omega_b=(0.03, 0.07), h0=(0.6, 0.8), n_s=(0.85, 1.05), sigma_8=(0.6, 1.0), w0=(-1.3, -0.7),
             wa=(-0.3, 0.3), m_nu=(0.0, 0.4), log10T_AGN=(7.3, 8.3), tcmb=(2.5, 2.9), Neff=(3.0, 3.6))
NUMBERS = dict(t_eff=(0.0, 1.0), norm_cen=(0.6, 1.4), norm_sat=(0.6, 1.4), eta_cen=(-0.2, 0.4), eta_sat=(-0.2, 0.4),
               one_halo_ktrunc=(0.02, 0.5), two_halo_ktrunc=(0.5, 4.0), one_halo_ktrunc_ia=(1.0, 8.0), two_halo_ktrunc_ia=(2.0, 10.0),
               overdensity=(180.0, 400.0), delta_c=(1.6, 1.75))
CHOICES = dict(hmf_model=['Tinker10', 'ST', 'Tinker08'], bias_model=['Tinker10', 'ST99', 'SMT01'],
               halo_concentration_model_dm=['Duffy08', 'Bullock01', 'duffy08'], halo_concentration_model_sat=['Duffy08', 'Bullock01', 'duffy08'],
               halo_profile_model_dm=['NFW', 'Hernquist'], halo_profile_model_sat=['NFW', 'Hernquist'],
               mdef_model=['SOMean', 'SOVirial', 'SOCritical'], transfer_model=['EH', 'EH_NoBAO', 'BBKS'],
               Mmin=[9.0, 10.0, 10.5, 11.0], Mmax=[15.0, 15.5, 16.0], dlog10m=[0.2, 0.25, 0.1, 0.3])


@st.composite
def fragment(draw, cfg):
    """A change of the model cfg; a key 'clear' lists dictionaries to be emptied first."""
    kind = draw(st.sampled_from(['cosmo'] * 5 + ['number'] * 4 + ['choice'] * 4 + ['z', 'k', 'mode', 'flag', 'power', 'mb', 'hod',
                                 'hod_model', 'hod_settings', 'hod_settings_mm', 'poisson', 'align', 'beta', 'obs', 'table', 'lnk']
                                + ['shift', 'swap', 'entry', 'nudge'] * 2))
    nz = len(cfg['z'])
    if kind == 'cosmo':
        keys = draw(st.lists(st.sampled_from(sorted(COSMO)), min_size=1, max_size=2, unique=True))
        return {k: draw(gen.num(*COSMO[k])) for k in keys}
    if kind == 'number':
        k = draw(st.sampled_from(sorted(NUMBERS)))
        s = gen.num(*NUMBERS[k], 3)
        if 'ktrunc' in k:
            s = st.one_of(s, s, st.none())
        if k[:4] in ('norm', 'eta_'):
            s = st.one_of(s, st.lists(s, min_size=nz, max_size=nz))
        return {k: draw(s)}
    if kind == 'choice':
        k = draw(st.sampled_from(sorted(CHOICES)))
        f = {k: draw(st.sampled_from(CHOICES[k]))}
        return f
    if kind == 'z':
        z = draw(gen.redshifts(2, 3))
        f = dict(z=z)
        n = len(z)
        for k in ('norm_cen', 'norm_sat', 'eta_cen', 'eta_sat'):
            if isinstance(cfg.get(k), list):
                f[k] = draw(gen.num(0.1, 0.3, 3))
        for k in ('matter_power_lin', 'matter_power_nl'):
            if cfg.get(k):
                f[k] = draw(gen.external_power(n))
        if cfg.get('beta_nl'):
            f['beta_nl'] = draw(gen.beta(n))
        nb = bins(cfg)
        f['hod_settings'] = draw(gen.covering_bins(nb, z))
        f['hod_settings_mm'] = draw(gen.covering_bins(1, z))
        if cfg.get('obs_settings'):
            f['obs_settings'] = draw(gen.covering_bins(1, z))
        return f
    if kind == 'k':
        return dict(k=[draw(gen.num(-3.0, -1.5, 2)), draw(gen.num(0.3, 2.0, 2)), draw(st.integers(6, 20))])
    if kind == 'mode':
        ing = draw(st.sampled_from([None, 'mead2020', 'mead2020_feedback', 'fit']))
        modes = [None, 'bnl', 'fortuna'] + (['hmcode'] if ing in ('mead2020', 'mead2020_feedback') else [])
        f = dict(hmcode_ingredients=ing, nonlinear_mode=draw(st.sampled_from(modes)))
        if f['nonlinear_mode'] == 'bnl':
            f['beta_nl'] = draw(gen.beta(nz))
        return f
    if kind == 'flag':
        return {draw(st.sampled_from(['response', 'pointmass', 'dewiggle'])): draw(st.booleans())}
    if kind == 'power':
        return {draw(st.sampled_from(['matter_power_lin', 'matter_power_nl'])): draw(st.one_of(st.none(), gen.external_power(nz)))}
    if kind == 'mb':
        return dict(mb=10.0 ** draw(gen.num(12.5, 15.0, 2)))
    if kind == 'hod':
        return dict(hod_params=draw(gen.occupation(cfg['hod_model'], bins(cfg))))
    if kind == 'hod_model':
        m = draw(st.sampled_from(['Cacciato', 'Zheng', 'Zhai', 'Simple', 'Zehavi']))
        return dict(clear=['hod_params'], hod_model=m, hod_params=draw(gen.occupation(m, bins(cfg))))
    if kind == 'hod_settings':
        # the same number of bins, so that parameters per bin stay meaningful
        return dict(hod_settings=draw(gen.covering_bins(bins(cfg), cfg['z'], file_ok=bins(cfg) == 1)))
    if kind == 'hod_settings_mm':
        return dict(hod_settings_mm=draw(gen.covering_bins(1, cfg['z'])))
    if kind == 'poisson':
        return dict(draw(gen.poisson()), clear=['poisson_params'])
    if kind == 'align':
        a = draw(gen.alignments())
        if gen.uniform_z(cfg['z']) and draw(st.integers(0, 2)) == 0:
            a = draw(gen.luminosity_alignments(cfg['z']))
        if draw(st.booleans()):
            return dict(align_params=a, clear=['align_params'])
        # merged into the previous parameters, which may need the values that None would remove
        return dict(align_params={k: v for k, v in a.items() if v is not None})
    if kind == 'beta':
        if cfg.get('nonlinear_mode') != 'bnl':
            return dict(hmcode_ingredients=None, nonlinear_mode='bnl', beta_nl=draw(gen.beta(nz)))
        return dict(beta_nl=draw(gen.beta(nz)))
    if kind == 'obs':
        if draw(st.integers(0, 3)) == 0:
            return dict(compute_observable=False)
        return dict(compute_observable=True, obs_settings=draw(gen.covering_bins(draw(st.integers(1, 2)), cfg['z'])))
    if kind == 'table':
        f = {}
        if draw(st.booleans()):
            f['transfer_array'] = dict(q=draw(gen.num(0.1, 0.3, 3)))
        if not f or draw(st.booleans()):
            f['growth_array'] = dict(s=draw(gen.num(0.7, 1.0, 3)))
        return f
    if kind == 'shift':
        return draw(shift(cfg))
    if kind == 'swap':
        return draw(swap(cfg))
    if kind == 'entry':
        return draw(entry(cfg))
    if kind == 'nudge':
        k = draw(st.sampled_from([k for k in sorted({**COSMO, **NUMBERS}) if isinstance(cfg.get(k), float) and cfg[k]] or ['sigma_8']))
        # (three kinds of neutrinos)
        return {k: cfg[k] * (1.0 + draw(st.sampled_from([1e-4, 1e-4 if k == 'Neff' else -1e-4, 1e-2])))}
    return dict(lnk_min=float(np.log(draw(st.sampled_from([1e-4, 3e-4])))), dlnk=draw(st.sampled_from([0.1, 0.12, 0.15])))


@st.composite
def shift(draw, cfg):
    """Other grids of the same size, with one end in common."""
    which = draw(st.sampled_from(['mass', 'z', 'k']))
    if which == 'mass':
        d = draw(st.sampled_from([1, -1, 2])) * cfg['dlog10m']
        return dict(Mmin=round(cfg['Mmin'] + d, 4), Mmax=round(cfg['Mmax'] + d, 4))
    if which == 'k':
        lo, hi, n = cfg['k']
        return dict(k=draw(st.sampled_from([[lo, round(hi - 0.2, 2), n], [round(lo + 0.2, 2), hi, n]])))
    # within the range that the galaxy bins cover
    z, f = cfg['z'], draw(st.sampled_from([0.7, 0.5]))
    if draw(st.booleans()):
        return dict(z=[round(z[0] + f * (x - z[0]), 6) for x in z])
    return dict(z=[round(z[-1] + f * (x - z[-1]), 6) for x in z])


@st.composite
def swap(draw, cfg):
    """The same values in other places."""
    for which in draw(st.permutations(['norm', 'eta', 'conc', 'bins', 'list', 'power'])):
        if which in ('norm', 'eta') and repr(cfg.get(f'{which}_cen')) != repr(cfg.get(f'{which}_sat')):
            a, b = f'{which}_cen', f'{which}_sat'
            if a in cfg and b in cfg:
                return {a: cfg[b], b: cfg[a]}
        a, b = 'halo_concentration_model_dm', 'halo_concentration_model_sat'
        if which == 'conc' and cfg.get(a) != cfg.get(b):
            return {a: cfg[b], b: cfg[a]}
        h = cfg.get('hod_settings') or {}
        if which == 'bins' and len(h.get('obs_min', [])) > 1:
            return dict(hod_settings={k: v[::-1] if isinstance(v, list) else v for k, v in h.items()})
        if which == 'list':
            for k in ('norm_cen', 'norm_sat', 'eta_cen', 'eta_sat'):
                if isinstance(cfg.get(k), list) and len(set(cfg[k])) > 1:
                    return {k: cfg[k][::-1]}
        if which == 'power':
            for k in ('matter_power_lin', 'matter_power_nl'):
                if cfg.get(k):
                    return {k: dict(cfg[k], growth=cfg[k]['growth'][::-1])}
    return dict(omega_b=cfg['omega_b'] + 0.01, omega_c=cfg['omega_c'] - 0.01)


@st.composite
def entry(draw, cfg):
    """One entry of one dictionary."""
    which = draw(st.sampled_from(['hod_params', 'hod_settings', 'align_params', 'poisson_params', 'hod_settings_mm', 'obs_settings']))
    if which == 'hod_params':
        p = draw(gen.occupation(cfg['hod_model'], bins(cfg)))
    elif which == 'align_params':
        p = {k: v for k, v in draw(gen.alignments()).items() if v is not None}
    elif which == 'poisson_params':
        p = {'poisson': draw(gen.num(0.3, 1.6, 3))}
    else:
        p = dict(nobs=draw(st.integers(12, 40)), observable_h_unit=draw(st.sampled_from(['1/h', '1/h^2'])))
        h = cfg.get(which) or {}
        if not h:
            return dict(hod_params={'A_sat': draw(gen.num(-0.5, 0.8, 3))})
        if 'obs_min' in h:
            p['nz'] = draw(st.integers(2, 6))
            p['obs_max'] = [round(v + draw(gen.num(0.1, 0.5, 2)), 2) for v in h['obs_max']]
            p['zmax'] = [round(v + draw(gen.num(0.05, 0.5, 3)), 4) for v in h['zmax']]
    if not p:
        return dict(poisson_params={'poisson': draw(gen.num(0.3, 1.6, 3))})
    k = draw(st.sampled_from(sorted(p)))
    return {which: {k: p[k]}}


def bins(cfg):
    s = cfg.get('hod_settings') or {}
    return len(s['obs_min']) if 'obs_min' in s else 1


def merge_cfg(cfg, f):
    """The case-level state, used only to draw later steps and to rebuild arrays on the grids."""
    out = dict(cfg)
    for k, v in f.items():
        if k in SETTINGS and v and not ({'table', 'obs_min'} & set(v)):
            out[k] = {**(cfg.get(k) or {}), **v}
        elif k != 'clear':
            out[k] = v
    for a, b in (('transfer_array', 'transfer_model'), ('growth_array', 'growth_model')):
        if f.get(a) is not None:
            out.pop(b, None)
        if b in f:
            out.pop(a, None)
    return out


@st.composite
def histories(draw, start, max_steps=4, names=()):
    cfg = draw(start)
    steps = []
    cur = dict(cfg)
    for _ in range(draw(st.integers(1, max_steps))):
        back = len(steps) > 0 and draw(st.integers(0, 7)) == 0
        if back:
            steps.append(dict(undo=True, read=None))
            cur = prev
            continue
        f = draw(fragment(cur))
        read = None if draw(st.integers(0, 2)) else draw(st.lists(st.sampled_from(list(names)), min_size=1, max_size=3, unique=True))
        steps.append(dict(change=f, read=read))
        prev, cur = cur, merge_cfg(cur, f)
    first = None if draw(st.integers(0, 2)) else draw(st.lists(st.sampled_from(list(names)), min_size=0, max_size=3, unique=True))
    return dict(cfg=cfg, first=first, steps=steps)


class State:
    """Keyword arguments of the model after each step."""

    def __init__(self, cfg):
        self.cfg = dict(cfg)
        self.args = gen.spectra_kwargs(cfg)
        self.keep = [self.args]
        self.kw = gen.copy_kwargs(self.args.kw)
        self.past = []

    def change(self, f):
        """Returns the list of update() calls, and moves the state."""
        self.past.append((self.cfg, gen.copy_kwargs(self.kw)))
        new = merge_cfg(self.cfg, f)
        a = gen.Args({**new, **{k: f[k] for k in f if k in DICTS}, '_implicit': ()})
        self.keep.append(a)
        keys = {gen_key(k) for k in f if k != 'clear'}
        for k, pair in (('transfer_array', ('transfer_model', 'transfer_params')), ('growth_array', ('growth_model', 'growth_params'))):
            if k in f:
                keys.discard(k)
                keys.update(pair)
        clear = list(f.get('clear', []))
        for model, par in (('transfer_model', 'transfer_params'), ('growth_model', 'growth_params')):
            if model in f:
                clear.append(par)
        if keys & {'z_vec', 'k_vec', 'Mmin', 'Mmax', 'dlog10m'}:
            keys.update(k for k in GRID_DEPENDENT if new.get(k) is not None)
        calls = []
        if clear:
            calls.append({k: {} for k in clear})
        calls.append({k: gen.copy_kwargs(a.kw[k]) for k in sorted(keys)})
        for c in calls:
            self.apply(c)
        self.cfg = new
        return calls

    def apply(self, call):
        for k, v in gen.copy_kwargs(call).items():
            if k in DICTS and v:
                self.kw[k] = {**(self.kw.get(k) or {}), **v}
            else:
                self.kw[k] = v

    def undo(self):
        """Go back to the arguments before the last step."""
        if not self.past:
            return []
        cfg, kw = self.past.pop()
        now = self.kw
        calls = []
        clear = {k: {} for k in DICTS if now.get(k) and repr(now.get(k)) != repr(kw.get(k))}
        if clear:
            calls.append(clear)
        defaults = defaults_of()
        setting = {}
        for k in set(now) | set(kw):
            v = kw[k] if k in kw else defaults[k]
            if v is None and k in DICTS:
                v = {}
            setting[k] = v
        calls.append(gen.copy_kwargs({k: v for k, v in sorted(setting.items()) if not (k in DICTS and not v)}))
        self.cfg, self.kw = cfg, kw
        return calls


def gen_key(k):
    return {'z': 'z_vec', 'k': 'k_vec'}.get(k, k)


def defaults_of():
    from .ref import DEFAULTS

    return DEFAULTS
