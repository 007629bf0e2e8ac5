"""
Access to the code under test through its public names only.
"""
import numpy as np

from .core import Violation, sut

SPECTRA = ('mm', 'gg', 'gm', 'mi', 'ii', 'gi')
HALO = ('mass', 'kh', 'power', 'dndlnm', 'halo_bias', 'nu', 'neff', 'sigma8_z', 'mean_density0', 'mean_density_z', 'rho_halo',
        'halo_overdensity_mean', 'conc_cen', 'conc_sat', 'u_dm', 'u_sat', 'r_s_cen', 'rvir_cen', 'r_s_sat', 'rvir_sat',
        'growth_factor', 'omega_m', 'scale_factor', 'fnu')
HOD = ('number_density_cen', 'number_density_sat', 'number_density', 'f_c', 'f_s', 'avg_halo_mass_cen', 'avg_halo_mass_sat',
       'avg_halo_mass', 'galaxy_linear_bias_cen', 'galaxy_linear_bias_sat', 'galaxy_linear_bias', 'hod_cen', 'hod_sat', 'hod')


def spectra(kw):
    from onepower.pk import Spectra

    with sut('Spectra(...)'):
        return Spectra(**kw)


def power(s, name):
    """(1h, 2h, tot, bias or None) of one spectrum."""
    with sut(f'power_spectrum_{name}'):
        p = getattr(s, f'power_spectrum_{name}')
        out = [np.asarray(getattr(p, f'pk_{c}')) for c in ('1h', '2h', 'tot')]
        b = getattr(p, 'galaxy_linear_bias', None)
        return tuple(out) + (None if b is None else np.asarray(b),)


def read(s, name):
    """One public result by name, as a dict of arrays."""
    if name in SPECTRA:
        o = power(s, name)
        d = {f'{name}_{c}': v for c, v in zip(('1h', '2h', 'tot'), o)}
        if o[3] is not None and name in ('gg', 'gm'):
            d[f'{name}_bias'] = o[3]
        return d
    with sut(name):
        if name.startswith('hod.'):
            return {name: np.asarray(getattr(s.hod, name[4:]))}
        if name == 'lin':
            return {'lin': np.asarray(s.power_spectrum_lin.pk_tot)}
        v = getattr(s, name)
        # a result that does not apply to the model is None
        return {name: np.array(np.nan) if v is None else np.asarray(v)}


def read_all(s, names):
    out = {}
    for n in names:
        out.update(read(s, n))
    return out


def same_outputs(got, want, what, rtol=1e-9, atol=1e-12):
    from .cmp import compare

    if set(got) != set(want):
        raise Violation(f'{what}: results {sorted(set(got) ^ set(want))} exist in only one of the two')
    for k in want:
        compare(f'{k} ({what})', got[k], want[k], rtol=rtol, atol=atol)
