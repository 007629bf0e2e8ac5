import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from .. import cmp, gen, ref
from ..core import Prop, Violation, sut


@st.composite
def cases(draw):
    # dyadic redshifts: bin edges are exact, so that galaxies can lie on them
    step = draw(st.integers(1, 8)) * 2
    z0 = draw(st.integers(0, 40))
    nz = draw(st.integers(2, 6))
    z = [(z0 + step * i) / 64.0 for i in range(nz)]
    a = draw(gen.luminosity_alignments(z))
    for key in ('truncate', 'ell_max'):
        a.pop(key, None)
    for key in ('z_loglum_file_centrals', 'z_loglum_file_satellites'):
        if key in a and draw(st.booleans()):
            # galaxies one by one, on the lattice of the bin edges
            n = draw(st.integers(1, 25))
            a[key] = [[draw(st.integers(z0 - step, z0 + step * (nz + 1))) / 64.0, draw(gen.num(9.0, 12.5, 2))] for _ in range(n)]
    return dict(z=z, align=a)


def table(rows, path):
    from astropy.io import fits

    r = np.array(rows, float)
    cols = [fits.Column(name='z', format='D', array=r[:, 0]), fits.Column(name='loglum', format='D', array=r[:, 1])]
    fits.BinTableHDU.from_columns(cols).writeto(path)
    return path


class P(Prop):
    id = 'C17'
    rule = ('alignment amplitudes of centrals and satellites, each constant, on halo mass or on luminosity, with galaxy catalogues written to '
            'FITS files (random, or on the lattice of the redshift-bin edges, some bins empty); non-trivial: a catalogue is used')
    assumptions = ('luminosities may be rounded to 10000 bins between the faintest and the brightest galaxy of the redshift bin (the bound follows '
                   'from the galaxies); beyond it agreement to 1e-8',)
    quick, thorough = 240, 3000

    def strategy(self, tier):
        return cases()

    def check(self, case, note):
        from onepower.ia import AlignmentAmplitudes

        a = gen.Args({})
        with tempfile.TemporaryDirectory() as tmp:
            al = dict(case['align'])
            for key in list(al):
                if isinstance(al[key], list):
                    al[key] = table(al[key], os.path.join(tmp, key + '.fits'))
            al = a.luminosities(al)
            z = np.array(case['z'])
            A, cen, sat = ref.amplitudes(z, dict(al))
            with sut('AlignmentAmplitudes'):
                s = AlignmentAmplitudes(z_vec=z, **al)
                got = np.asarray(s.alignment_gi), np.asarray(s.gamma_1h_amp)
            cmp.compare('alignment_gi', got[0], cen, rtol=1e-7, note=note)
            cmp.compare('gamma_1h_amp', got[1], sat, rtol=1e-7, note=note)
            self.galaxies(z, A, al, got, note)
            for which, name in (('central', 'centrals'), ('satellite', 'satellites')):
                if A[f'{which}_ia_depends_on'] != 'luminosity':
                    continue
                with sut('luminosity distribution'):
                    lum = np.asarray(getattr(s, f'lum_{name}'))
                    pdf = np.asarray(getattr(s, f'lum_pdf_z_{name}'))
                if lum.shape != pdf.shape or lum.shape[0] != len(z):
                    raise Violation(f'shapes of the distribution of luminosities: {lum.shape}, {pdf.shape}')
                for i in range(len(z)):
                    # a distribution: non-negative, of unit area, or identically zero where there are no galaxies
                    if (pdf[i] < 0).any():
                        raise Violation('negative distribution of luminosities')
                    area = float(pdf[i].sum() * (lum[i, 1] - lum[i, 0]))
                    if pdf[i].any() and abs(area - 1.0) > 1e-6:
                        raise Violation(f'distribution of luminosities of area {area} at z[{i}]')
                    note('area', 1)

    def galaxies(self, z, A, al, got, note):
        """The mean over the galaxies themselves; their luminosities may be binned, and no more."""
        for which, sh, amp, val in (('central', 'cen', 'gamma_2h_amplitude', got[0]), ('satellite', 'sat', 'gamma_1h_amplitude', got[1])):
            if A[f'{which}_ia_depends_on'] != 'luminosity':
                continue
            l0, b1 = 10.0 ** A[f'lpivot_{sh}'], A[f'beta_{sh}']
            b2 = A['beta_two'] if which == 'central' and A['beta_two'] is not None else b1
            f = lambda L: np.where(L > l0, (L / l0) ** b1, (L / l0) ** b2)
            for i, lum in enumerate(ref.luminosities(al[f'z_loglum_file_{which}s'], z)):
                want, tol = 0.0, 0.0
                if lum.size:
                    w = 1.01 * ((lum.max() - lum.min()) or lum.mean()) / 20000
                    want = A[amp] * np.mean(f(lum))
                    tol = abs(A[amp]) * np.mean(np.maximum(abs(f(lum + w) - f(lum)), abs(f(np.maximum(lum - w, 1e-3 * lum)) - f(lum)))) + 1e-8 * abs(want)
                note('mean over galaxies', 1)
                if not abs(val[i] - want) <= tol:
                    raise Violation(f'{which} amplitude at z[{i}]: {val[i]!r}, but the mean over its {lum.size} galaxies is {want!r} (+-{tol:.3g})')

    def nontrivial(self, case):
        return any('file' in k for k in case['align'])

    def labels(self, case):
        a = case['align']
        return [f"central={a.get('central_ia_depends_on', 'halo_mass')}", f"satellite={a.get('satellite_ia_depends_on', 'halo_mass')}",
                f"broken={'beta_two' in a}", 'lattice' if any(isinstance(v, list) for v in a.values()) else 'random']


PROP = P()
