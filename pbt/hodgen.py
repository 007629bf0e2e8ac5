"""Cases of the occupation distribution on a synthetic halo population (no halo model needed)."""
import numpy as np
from hypothesis import strategies as st

from . import gen, ref
from .core import sut

MODELS = ('Cacciato', 'Zheng', 'Zhai', 'Simple', 'Zehavi')


@st.composite
def cases(draw, models=MODELS, max_bins=4):
    model = draw(st.sampled_from(list(models)))
    nb = draw(st.integers(1, max_bins))
    nz = draw(st.integers(2, 5))
    z = [draw(st.one_of(st.just(0.0), gen.num(0.0, 1.0, 3)))]
    for _ in range(nz - 1):
        z.append(round(z[-1] + draw(gen.num(0.05, 0.6, 3)), 4))
    bins = draw(gen.hod_bins(nb, zspan=(0.0, 1.5), nobs=(11, 60)))
    if 'table' not in bins:
        # redshift bins that overlap the redshifts of the model, cover them, or miss some of them
        for b in range(nb):
            lo = z[0] + draw(gen.num(-0.3, 0.5, 3)) * (z[-1] - z[0])
            bins['zmin'][b] = round(max(0.0, lo), 4)
            bins['zmax'][b] = round(bins['zmin'][b] + draw(gen.num(0.1, 1.3, 3)) * (z[-1] - z[0]), 4)
    return dict(
        model=model, z=z, bins=bins, params=draw(gen.occupation(model, nb)),
        m=[draw(gen.num(9.5, 11.5, 2)), draw(gen.num(14.5, 16.0, 2)), draw(st.integers(20, 90))],
        n=dict(norm=draw(gen.num(-3.0, -1.0, 2)), slope=draw(gen.num(-1.1, -0.7, 3)), cut=draw(gen.num(13.0, 14.8, 2)),
               evol=draw(gen.num(-0.3, 0.1, 3))),
        b=dict(a=draw(gen.num(0.5, 1.0, 3)), b=draw(gen.num(0.1, 0.6, 3)), evol=draw(gen.num(0.0, 0.5, 3))),
        h=draw(gen.num(0.6, 0.8, 3)), form=draw(st.sampled_from(['array', 'array', 'list', 'tuple'])),
    )


def arrays(case):
    m = np.logspace(*case['m'])
    z = np.array(case['z'])
    n, b = case['n'], case['b']
    dn = 10.0 ** n['norm'] * (m / 1e12) ** n['slope'] * np.exp(-m / 10.0 ** n['cut'])
    dn = dn[None, :] * np.exp(n['evol'] * z)[:, None] + 1e-12
    bias = (b['a'] + b['b'] * (m / 1e13) ** 0.5)[None, :] * (1.0 + b['evol'] * z)[:, None]
    return m, z, dn, bias


def build(case):
    """The object under test and the matching arguments of the reference."""
    from astropy.cosmology import FlatLambdaCDM

    import onepower.hod as oh

    m, z, dn, bias = arrays(case)
    a = gen.Args({})
    settings = a.settings(case['bins'])
    par = {k: (np.array(v, float) if isinstance(v, list) else v) for k, v in case['params'].items()}
    cosmo = FlatLambdaCDM(H0=100.0 * case['h'], Om0=0.3, Ob0=0.05)
    form = {'list': lambda v: v.tolist(), 'tuple': lambda v: tuple(v.tolist())}.get(case.get('form'), np.copy)
    cls = getattr(oh, case['model'])
    with sut(f"{case['model']}(...)"):
        obj = cls(cosmo=cosmo, mass=m.copy(), dndlnm=dn.copy(), halo_bias=bias.copy(), z_vec=z.copy(),
                  hod_settings=dict(settings), **{k: form(v) if isinstance(v, np.ndarray) else v for k, v in par.items()})
    obj._verif_keep = a  # the scratch files live as long as the object
    return obj, par, settings, m, z, dn, bias, cosmo.h


def reference(case, par, settings, m, z, dn, bias, h):
    return ref.hod(case['model'], par, settings, z, m, dn, bias, h, fstar=True)


def labels(case):
    b = case['bins']
    out = [f"model={case['model']}", 'observables from a file' if 'table' in b else f"bins={len(b['obs_min'])}"]
    if case['params'].get('A_cen') or case['params'].get('A_sat'):
        out.append('assembly bias')
    return out
