"""Real spherical harmonics in double precision, independent of spharm.

Normalization: unit maximum is not needed, the usual orthonormal P_n^m with
stable three-term recursions. c(os) and s(in) variants in longitude.
"""

import functools

import numpy as np


def _legendre(nmax, m, sinphi, cosphi, reduced=False):
    """Normalized P_n^m for n = m..nmax; reduced: divided by cosphi (m >= 1)."""
    p = np.full_like(sinphi, np.sqrt(0.5))
    for k in range(1, m + 1):
        fac = np.sqrt((2. * k + 1.) / (2. * k))
        p = p * fac if (reduced and k == m) else p * fac * cosphi
    out = {m: p}
    if nmax > m:
        out[m + 1] = np.sqrt(2. * m + 3.) * sinphi * p
    for n in range(m + 2, nmax + 1):
        a = np.sqrt((4. * n * n - 1.) / (n * n - m * m))
        b = np.sqrt(((n - 1.)**2 - m * m) / (4. * (n - 1.)**2 - 1.))
        out[n] = a * (sinphi * out[n - 1] - b * out[n - 2])
    return out


class Basis:
    """Harmonics and derivatives on latitudes and longitudes (degrees)."""

    def __init__(self, lat, lon, nmax):
        self.nmax = nmax
        self.lam = np.deg2rad(np.asarray(lon, dtype=float))
        lat = np.asarray(lat, dtype=float)
        self.sin = np.sin(np.deg2rad(lat))
        self.cos = np.cos(np.deg2rad(lat))
        # Poles exactly
        self.cos[np.abs(np.abs(lat) - 90.) < 1e-9] = 0.
        self.P, self.D, self.R = {}, {}, {}
        for m in range(nmax + 1):
            for n, p in _legendre(nmax + 1, m, self.sin, self.cos).items():
                self.P[n, m] = p
            if m >= 1:
                for n, r in _legendre(nmax + 1, m, self.sin, self.cos, reduced=True).items():
                    self.R[n, m] = r
        for m in range(nmax + 1):
            for n in range(m, nmax + 1):
                # dP/dphi = 1/2 (A P_n^{m+1} - B P_n^{m-1}) up to signs; with
                # P without Condon-Shortley phase:
                #   dP_n^m/dphi = 1/2 [ sqrt((n+m)(n-m+1)) P_n^{m-1} - sqrt((n-m)(n+m+1)) P_n^{m+1} ]
                if m == 0:
                    d = -np.sqrt(n * (n + 1.)) * self.P[n, 1] if n >= 1 else np.zeros_like(self.sin)
                    # (no factor 1/2 for m = 0)
                    d = -d
                else:
                    lo = self.P[n, m - 1]
                    d = 0.5 * (np.sqrt((n + m) * (n - m + 1.)) * lo)
                    d = -d
                    if n > m:
                        d = d + 0.5 * np.sqrt((n - m) * (n + m + 1.)) * self.P[n, m + 1]
                self.D[n, m] = d

    def trig(self, m, kind):
        return np.cos(m * self.lam) if kind == "c" else np.sin(m * self.lam)

    def dtrig(self, m, kind):
        return -m * np.sin(m * self.lam) if kind == "c" else m * np.cos(m * self.lam)

    def Y(self, n, m, kind="c"):
        return self.P[n, m][:, None] * self.trig(m, kind)[None, :]

    def grad(self, n, m, kind="c"):
        """(1/cos dY/dlam, dY/dphi) on the unit sphere."""
        gx = np.zeros((self.sin.size, self.lam.size))
        if m > 0:
            gx = self.R[n, m][:, None] * self.dtrig(m, kind)[None, :]
        gy = self.D[n, m][:, None] * self.trig(m, kind)[None, :]
        return gx, gy


@functools.lru_cache(maxsize=64)
def basis(nlat, nmax):
    nlon = 2 * (nlat - 1)
    return Basis(np.linspace(90., -90., nlat), np.arange(nlon) * (360. / nlon), nmax)


def modes(nmax, mmax=None, nmin=0):
    for n in range(nmin, nmax + 1):
        for m in range(0, n + 1):
            if mmax is not None and m > mmax:
                continue
            yield n, m, "c"
            if m > 0:
                yield n, m, "s"
