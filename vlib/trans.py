"""Transport: builders and independent formulas."""
import json
import zlib

import numpy as np

from . import scat
from .bands import ANG, MEV, PS, QE, Ref, check_fs, hbar, make_band, near, pi, tensor  # noqa: F401

UNITS = 2 * QE ** 2 / (2 * pi) ** 3 * PS / ANG ** 2


def cond_class():
    from cuprates_transport.conductivity import Conductivity
    return Conductivity


def make_cond(band, sc, B=0, th=0, ph=0, T=0, warm=None, **kw):
    """The object under test; in a third of the cases (chosen by a checksum of the case) one that ran with other settings before"""
    if warm is None:
        key = json.dumps([sc, float(B), float(th), float(ph), float(T), sorted(map(str, kw.items()))])
        warm = zlib.crc32(key.encode()) % 3 == 0 and band.kf is not None and band.kf.shape[1] <= 700
    if not warm:
        return cond_class()(band, Bamp=B, Btheta=th, Bphi=ph, T=T, **dict(scat.kwargs(sc), **kw))
    par = {k: v * 1.5 if k.startswith("gamma") else v for k, v in sc["par"].items()}
    c = cond_class()(band, Bamp=0.5 * B, Btheta=th + 20, Bphi=ph - 35, T=0,
                     **dict(scat.kwargs(dict(sc, par=par)), **dict(kw, N_time=15, rtol=1e-3, atol=1e-3)))
    c.runTransport()
    c.Bphi, c.Btheta, c.Bamp = ph, th, B
    c.rtol, c.atol, c.N_time = kw.get("rtol", 1e-4), kw.get("atol", 1e-4), kw.get("N_time", 500)
    c.scattering_params = dict(sc["par"])
    c.T = T
    return c


def field(B, th, ph):
    th, ph = np.deg2rad(th), np.deg2rad(ph)
    return B * np.array([np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)])


def sigma0(band, spec, sc, nbz=1):
    """Boltzmann sum over the stored surface, without field"""
    v = band.vf
    tau = 1 / scat.gamma(sc["models"], sc["par"], spec, band.kf.astype(float), v, np.max(band.dos_k))
    return UNITS / nbz * np.einsum("n,in,jn->ij", band.dkf * band.dos_k * tau, v, v)


def sigma0_ref(ref, spec, sc, eps=0.0, nbz=1, M=48):
    """the same from independent rays: (sigma, area of the surface)"""
    k, w, g = ref.surface_points(eps, M)
    v = g * MEV / hbar * ANG
    dos = 1 / (np.sqrt((g ** 2).sum(0)) * MEV * ANG)
    tau = 1 / scat.gamma(sc["models"], sc["par"], spec, k, v, np.max(dos) if dos.size else 1.0)
    return UNITS / nbz * np.einsum("n,in,jn->ij", w * dos * tau, v, v)


def omega_tau(band, sc, B):
    """dimensionless strength of the field: e B v / (hbar k) / gamma_min, typical"""
    v = np.median(np.sqrt((band.vf ** 2).sum(0)))
    k = np.median(np.sqrt((band.kf[:2] ** 2).sum(0))) / ANG
    return QE * abs(B) * v / (hbar * k) / (sc["par"].get("gamma_0", 1.0) * 1e12)


def gamma_bounds(sc):
    """bounds of the ratio of the largest to the smallest total rate on the surface"""
    p = sc["par"]
    g0 = p["gamma_0"] if "isotropic" in sc["models"] else 0.0
    hi = g0
    for m, k in (("cos2phi", "gamma_k"), ("cos2phi_coskz", "gamma_k"), ("sin2phi", "gamma_k_sin"), ("gamma_dos_func", "gamma_dos_max")):
        if m in sc["models"]:
            hi += p[k]
    return g0, hi


# -- independent orbits -------------------------------------------------------------------------
def rk4_orbits(ref, k0, Bvec, times):
    """hbar dk/dt = + e v x B (backward time), k in 1/Angstrom, t in ps; returns (3, n, len(times)).
    times must be uniform; two RK4 steps per interval"""
    f = QE / hbar * PS * ANG
    Bx, By, Bz = Bvec

    def rhs(k):
        vx, vy, vz = ref.velocity(*k)
        return f * np.stack([vy * Bz - vz * By, vz * Bx - vx * Bz, vx * By - vy * Bx])
    k = np.array(k0, float)
    out = np.empty(k.shape + (len(times),))
    out[..., 0] = k
    for i in range(1, len(times)):
        h = (times[i] - times[i - 1]) / 2
        for _ in range(2):
            a = rhs(k)
            b = rhs(k + h / 2 * a)
            c = rhs(k + h / 2 * b)
            d = rhs(k + h * c)
            k = k + h / 6 * (a + 2 * b + 2 * c + d)
        out[..., i] = k
    return out


def chambers(kt, vt, g, dt, weights, nbz=1):
    """sigma from orbits (3, n, nt): trapezoid in time for both integrals, exponentially fitted"""
    G = np.concatenate([np.zeros(g.shape[:1] + (1,)), np.cumsum(0.5 * (g[:, 1:] + g[:, :-1]) * dt, axis=1)], axis=1)
    f = vt * np.exp(-G)
    # Simpson-like accuracy is not needed: trapezoid on the smooth integrand
    w = np.full(vt.shape[2], dt)
    w[0] = w[-1] = dt / 2
    vj = np.einsum("int,t->in", f, w)
    return UNITS / nbz * np.einsum("n,in,jn->ij", weights, vt[:, :, 0], vj)
