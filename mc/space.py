"""
Densities, volumes, flux transforms and time adjustments of the spatial
distributions, written down from their definitions: an independent reference.
"""
import numpy as np

C_KM = 299792.458  # km / s
MPC_CM = 3.0856775814913673e24  # cm

_nodes, _weights = np.polynomial.legendre.leggauss(40)


def integral(f, a, b, panels=16):
    """The integral of a function of arrays, composite Gauss-Legendre"""
    e = np.linspace(a, b, panels + 1)
    h = 0.5 * (e[1:] - e[:-1])
    x = (0.5 * (e[1:] + e[:-1]))[:, None] + h[:, None] * _nodes[None, :]
    v = np.broadcast_to(np.asarray(f(x), dtype=float), x.shape)
    return float(np.sum(v * _weights[None, :] * h[:, None]))


class Cosmology:
    """Flat Lambda-CDM"""

    def __init__(self, Om=0.307, h0=67.7):
        self.Om, self.h0 = float(Om), float(h0)

    def E(self, z):
        return np.sqrt(self.Om * (1 + z) ** 3 + 1 - self.Om)

    def comoving(self, z):
        """Mpc"""
        return C_KM / self.h0 * integral(lambda x: 1 / self.E(x), 0, z, 4)

    def luminosity_distance(self, z):
        """cm"""
        return (1 + z) * self.comoving(z) * MPC_CM

    def volume(self, z):
        """Gpc^3 per steradian and redshift"""
        return C_KM / self.h0 * self.comoving(z) ** 2 / self.E(z) * 1e-9


class Reference:
    """The spatial distribution of a class with parameters"""

    COSMO = ("SFRDistribution", "ZPowerCosmoDistribution", "UniformCosmoDistribution")
    NORM = dict(
        ConstantSphericalDistribution="Lambda",
        ZPowerSphericalDistribution="Lambda",
        FlatlandDistribution=None,
        SpiralGalaxyDistribution=None,
        SFRDistribution="r0",
        ZPowerCosmoDistribution="Lambda",
        UniformCosmoDistribution="r0",
    )
    # what the density is proportional to
    SCALE = dict(NORM, FlatlandDistribution="Lambda", SpiralGalaxyDistribution="rho")

    def __init__(self, cls, p, is_rate=True, cosmology=None):
        self.cls, self.p, self.is_rate = cls, p, is_rate
        self.cosmological = cls in self.COSMO
        self.cosmology = cosmology or Cosmology()

    def density(self, r):
        p = self.p
        c = self.cls
        if c in ("ConstantSphericalDistribution", "FlatlandDistribution"):
            return p["Lambda"]
        if c in ("ZPowerSphericalDistribution", "ZPowerCosmoDistribution"):
            return p["Lambda"] * (1.0 + r) ** p["delta"]
        if c == "SpiralGalaxyDistribution":
            s = p["R0"] + p["R1"]
            return p["rho"] * ((r + p["R1"]) / s) ** p["a"] * np.exp(-p["b"] * (r - p["R0"]) / s)
        if c == "SFRDistribution":
            return p["r0"] * (p["a"] + p["rise"] * r) / (1 + (r / p["peak"]) ** p["decay"])
        if c == "UniformCosmoDistribution":
            return p["r0"] / (p["zmax"] - p["zmin"])
        raise KeyError(c)

    def volume(self, r):
        if self.cosmological:
            return self.cosmology.volume(r)
        if self.cls == "FlatlandDistribution":
            return 1.0
        return 4 * np.pi * r * r

    def time(self, r):
        return 1.0 + r if self.cosmological and self.is_rate else 1.0

    def flux(self, L, r):
        if self.cosmological:
            return L / (4 * np.pi * self.cosmology.luminosity_distance(r) ** 2)
        if self.cls == "FlatlandDistribution":
            return L
        return L / (4 * np.pi * (r + 1.0) ** 2)

    def number(self, r):
        return self.density(r) * self.volume(r) / self.time(r)

    def table(self, n=400):
        """Distances and the number out to them"""
        r_max = self.p["r_max"]
        e = np.union1d(np.linspace(0, r_max, n + 1), np.geomspace(1e-6 * r_max, r_max, n + 1)[:-1])
        nodes, weights = np.polynomial.legendre.leggauss(6)
        h = 0.5 * (e[1:] - e[:-1])
        x = (0.5 * (e[1:] + e[:-1]))[:, None] + h[:, None] * nodes[None, :]
        v = np.array([self.number(t) for t in x.ravel()], dtype=float).reshape(x.shape)
        c = np.concatenate([[0.0], np.cumsum(np.sum(v * weights[None, :] * h[:, None], axis=1))])
        return e, c

    def total(self):
        return float(self.table()[1][-1])

    def cdf(self):
        e, c = self.table()
        return lambda r: np.interp(r, e, c / c[-1])
