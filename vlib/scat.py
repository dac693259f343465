"""Scattering rates: strategies and independent formulas."""
import math

import numpy as np

from .bands import hbar, pi, q
from .hyp import st

NAMES = dict(isotropic=("gamma_0",), cos2phi=("gamma_k", "power"), cos2phi_coskz=("gamma_k", "power", "power_z"),
             sin2phi=("gamma_k_sin", "power_sin"), gamma_dos_func=("gamma_dos_max",))


def fold(x, period):
    """representative in [-period/2, period/2)"""
    return x - period * np.floor(x / period + 0.5)


def gamma(models, par, spec, k, v=None, dos_max=None):
    """total rate in THz at k (3, ...) in 1/Angstrom, v (3, ...) in m/s"""
    kx, ky, kz = k
    x = fold(kx * spec["a"], 2 * pi)
    y = fold(ky * spec["b"], 2 * pi)
    phi = np.arctan2(y / spec["b"], x / spec["a"])
    c2, s2 = np.cos(2 * phi), np.sin(2 * phi)
    out = np.zeros(np.broadcast(kx, ky, kz).shape)
    for m in models:
        if m == "isotropic":
            out = out + par["gamma_0"]
        elif m == "cos2phi":
            out = out + par["gamma_k"] * np.abs(c2) ** par["power"]
        elif m == "cos2phi_coskz":
            out = out + par["gamma_k"] * np.abs(c2) ** par["power"] * np.abs(np.cos(kz * spec["c"] / 2)) ** par["power_z"]
        elif m == "sin2phi":
            out = out + par["gamma_k_sin"] * np.abs(s2) ** par["power_sin"]
        elif m == "gamma_dos_func":
            out = out + par["gamma_dos_max"] / (hbar * np.sqrt(v[0] ** 2 + v[1] ** 2 + v[2] ** 2)) / dos_max
        else:
            raise KeyError(m)
    return out


@st.composite
def models(draw, g0=(2, 40), aniso=1.0, only=None, smooth=False, iso=True):
    """(models, params); `aniso` bounds the anisotropic parts relative to the isotropic one"""
    pool = only if only is not None else ["cos2phi", "cos2phi_coskz", "sin2phi", "gamma_dos_func"]
    ms = draw(st.lists(st.sampled_from(pool), max_size=2, unique=True)) if pool else []
    if "cos2phi" in ms and "cos2phi_coskz" in ms:
        ms = ms[:1]                                 # they share gamma_k and power
    ms = ["isotropic"] + ms
    if draw(st.booleans()):
        ms = ms[::-1]
    par = dict(gamma_0=draw(q(g0[0], g0[1], 0.5)))
    pw = st.sampled_from([2, 4, 12, 1, 3.5]) if not smooth else st.sampled_from([2, 4, 6])
    if "cos2phi" in ms or "cos2phi_coskz" in ms:
        par.update(gamma_k=round(draw(q(0.1, 1, 0.1)) * aniso * par["gamma_0"], 3), power=draw(pw))
    if "cos2phi_coskz" in ms:
        par.update(power_z=draw(st.sampled_from([1, 2, 4]) if not smooth else st.sampled_from([2, 4])))
    if "sin2phi" in ms:
        par.update(gamma_k_sin=round(draw(q(0.1, 1, 0.1)) * aniso * par["gamma_0"], 3), power_sin=draw(pw))
    if "gamma_dos_func" in ms:
        par.update(gamma_dos_max=round(draw(q(0.1, 1, 0.1)) * aniso * par["gamma_0"], 3))
    return dict(models=ms, par=par)


def kwargs(sc):
    return dict(scattering_models=list(sc["models"]), scattering_params=dict(sc["par"]))
