"""The harmonic and Slepian functions of the package and their parameters."""

import lib
import numpy as np
import store

MODULE = "sleplet.functions"


def make(name, L, **kw):
    return lib.get(MODULE, name)(L, **kw)


def put_data(L=24, seed=5):
    """Synthetic published data: the Earth of a real field, and a spectrum."""
    import scipy.io as sio

    rng = np.random.default_rng(seed)
    flm = (rng.standard_normal(L * L) + 1j * rng.standard_normal(L * L)) / 2
    for e in range(L):
        flm[e * e + e] = flm[e * e + e].real
    sio.savemat(store.data_dir() / "EGM2008_Topography_flms_L2190.mat",
                {"flm": flm[:, None]})
    cl = np.abs(rng.standard_normal(L)) * 1000 + 10
    sio.savemat(store.data_dir() / "wmap_lcdm_pl_model_wmap7baoh0.mat",
                {"cl": cl[:, None]})
    return flm, cl


def continents(L):
    """Masks of both continents, for the functions and for the Slepian regions."""
    import sphere

    rng = np.random.default_rng(3)
    for name in ("south_america", "africa"):
        for R in (L, 2 * L):
            sphere.save_mask(name, sphere.blob_mask(R, rng))


def scales(n, rng):
    """Wavelet parameters which have at least one selectable scale."""
    import pys2let

    B = rng.choice([2, 3, 4])
    top = pys2let.pys2let_j_max(B, n, 0)
    j0 = rng.randrange(top + 1)
    j = rng.choice([None, *range(pys2let.pys2let_j_max(B, n, j0) - j0 + 1)])
    return {"B": B, "j_min": j0, "j": j}


def sigma(rng):
    return rng.choice([0.1, 0.3, 0.9, 1.0, 1.5, 10.0, 100.0, rng.uniform(0.05, 1),
                       rng.uniform(1, 20)])


def harmonic(name, L, rng):
    """Valid parameters of a harmonic function."""
    kw = {}
    if name == "ElongatedGaussian":
        kw = {"t_sigma": sigma(rng), "p_sigma": sigma(rng)}
    elif name == "SquashedGaussian":
        kw = {"t_sigma": sigma(rng), "freq": sigma(rng)}
    elif name == "Gaussian":
        kw = {"sigma": sigma(rng)}
    elif name == "HarmonicGaussian":
        kw = {"l_sigma": sigma(rng), "m_sigma": sigma(rng)}
    elif name == "SphericalHarmonic":
        ell = rng.randrange(L)
        kw = {"ell": ell, "m": rng.randrange(-ell, ell + 1)}
    elif name == "NoiseEarth":
        kw = {"SNR": rng.choice([-10.0, 0.0, 3.0, 10.0])}
    elif name.startswith("Axisymmetric"):
        kw = scales(L, rng)
    elif name == "Ridgelets":
        kw = {**scales(L, rng), "spin": rng.choice([-3, -2, -1, 0, 1, 2, 3])}
    if name in SMOOTHABLE and rng.random() < 0.5:
        kw["smoothing"] = rng.choice([1, 2, 5])
    return kw


HARMONIC = (
    "Africa", "AxisymmetricWaveletCoefficientsAfrica",
    "AxisymmetricWaveletCoefficientsEarth",
    "AxisymmetricWaveletCoefficientsSouthAmerica", "AxisymmetricWavelets", "DiracDelta",
    "Earth", "ElongatedGaussian", "Gaussian", "HarmonicGaussian", "Identity",
    "NoiseEarth", "Ridgelets", "SouthAmerica", "SphericalHarmonic", "SquashedGaussian",
    "Wmap",
)
SMOOTHABLE = (
    "Africa", "AxisymmetricWaveletCoefficientsAfrica",
    "AxisymmetricWaveletCoefficientsEarth",
    "AxisymmetricWaveletCoefficientsSouthAmerica", "Earth", "NoiseEarth", "SouthAmerica",
)
SLEPIAN = (
    "Slepian", "SlepianAfrica", "SlepianDiracDelta", "SlepianIdentity",
    "SlepianNoiseAfrica", "SlepianNoiseSouthAmerica", "SlepianSouthAmerica",
    "SlepianWaveletCoefficientsAfrica", "SlepianWaveletCoefficientsSouthAmerica",
    "SlepianWavelets",
)


def region(kind, rng=None):
    Region = lib.get("sleplet.slepian", "Region")
    if kind == "polar":
        return Region(theta_max=store.rad(rng.choice([40, 70, 100])))
    if kind == "gap":
        return Region(theta_max=store.rad(rng.choice([30, 50])), gap=True)
    if kind == "box":
        return Region(theta_min=store.rad(20), theta_max=store.rad(120),
                      phi_max=store.rad(rng.choice([90, 200])))
    return Region(mask_name=kind)


def continent(name):
    for c in ("Africa", "SouthAmerica"):
        if name.endswith(c):
            return {"Africa": "africa", "SouthAmerica": "south_america"}[c]
    return None


def slepian(name, L, rng, where=None):
    """Valid parameters of a Slepian function."""
    where = where or continent(name) or rng.choice(["polar", "gap", "box", "africa"])
    kw = {"region": region(where, rng)}
    if name == "Slepian":
        kw["rank"] = rng.randrange(2)
    elif name == "SlepianWavelets":
        kw |= scales(L * L, rng)
    elif name.startswith("SlepianWaveletCoefficients"):
        kw |= {"B": 2, "j_min": rng.choice([0, 1]), "j": rng.choice([None, 0])}
    elif name.startswith("SlepianNoise"):
        kw["SNR"] = rng.choice([-10.0, 0.0, 5.0])
    if continent(name) and rng.random() < 0.5:
        kw["smoothing"] = rng.choice([1, 2, 5])
    return kw


MESH_HARMONIC = ("MeshBasisFunctions", "MeshField", "MeshNoiseField")
MESH_SLEPIAN = (
    "MeshSlepianField", "MeshSlepianFunctions", "MeshSlepianNoiseField",
    "MeshSlepianWaveletCoefficients", "MeshSlepianWavelets",
)


def on_mesh(name, mesh, **kw):
    return lib.get("sleplet.meshes", name)(mesh, **kw)


def mesh(k, name="cube"):
    return lib.get("sleplet.meshes", "Mesh")(name, number_basis_functions=k)


def mesh_function(name, k, rng):
    """Valid parameters of a mesh function."""
    if name in ("MeshBasisFunctions", "MeshSlepianFunctions"):
        return {"rank": rng.randrange(1)}
    if name.endswith("NoiseField"):
        return {"SNR": rng.choice([-10.0, 0.0, 5.0])}
    if name == "MeshSlepianWavelets":
        return scales(k, rng)
    if name == "MeshSlepianWaveletCoefficients":
        return {"B": 2, "j_min": rng.choice([0, 1]), "j": None}
    return {}
