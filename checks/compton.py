"""C08 and C09: Compton scattering"""

import numpy as np
from hypothesis import strategies as st

from gen import ALPHA, EPS, HBARC, ME, RTOL_CONST, gauss_legendre, lin, log, unit
from vlib import obligation, require, require_close, rule
from ries.nonresonant.klein_nishina import KleinNishina

rule(
    "C08",
    "Random photon energies from 1e-4 to 1e4 (total: 1e9) times the rest energy of the charged particle, numbers "
    "of scattering centers and masses. A case is non-trivial if the mass is not the default or the "
    "number of scattering centers is not one.",
)
rule(
    "C09",
    "Random photon energies, scattering angles and masses. A case is non-trivial if at least one "
    "angle lies strictly between 0 and pi.",
)


@st.composite
def scattering(draw, x=(1e-4, 1e4)):
    default = draw(st.integers(0, 3)) == 0
    mc2 = ME if default else draw(st.one_of(log(0.05, 2e3), log(0.05, 2e3), log(1e-6, 1e6)))
    return dict(
        mc2=None if default else mc2,
        Z=draw(st.one_of(st.integers(1, 100), st.integers(1, 100), lin(0.5, 100.0), log(1e-3, 1e6))),
        E=mc2 * draw(log(*x)),
    )


def build_kn(case):
    if case["mc2"] is None:
        return KleinNishina(case["Z"]), ME
    return KleinNishina(case["Z"], mc2=case["mc2"]), case["mc2"]


def total_reference(x):
    """Total cross section in units of pi times the squared reduced radius, by quadrature

    The integral over the ratio r = E'/E of pi / x (r + 1/r - sin^2) dr, written such that no
    cancellation occurs.
    """
    x = float(x)
    if x == 0.0:
        return 8.0 / 3.0
    L = np.log1p(2.0 * x)
    u, weight = gauss_legendre(200, 0.0, L)
    # r = exp(-u), 1 - cos = (exp(u) - 1)/x
    v = np.expm1(u) / x
    sin2 = v * (2.0 - v)
    return np.sum(weight * np.exp(-u) / x * (np.exp(-u) + np.exp(u) - sin2))


def prefactor(Z, mc2):
    return Z * (ALPHA * HBARC / mc2) ** 2


def nontrivial(case):
    return case["mc2"] is not None or case["Z"] != 1


@obligation(
    "C08",
    "total cross section",
    st.builds(
        lambda s, e: dict(s, factors=e),
        scattering(),
        st.lists(
            st.one_of(log(1e-9, 1e5), log(1e-3, 1e-1), log(1e5, 1e9), st.just(0.0)), min_size=1, max_size=6
        ),
    ),
    quick=800,
)
def total(case):
    kn, mc2 = build_kn(case)
    E = mc2 * np.array(case["factors"])
    expected = [np.pi * prefactor(case["Z"], mc2) * total_reference(f) for f in case["factors"]]
    require_close(kn(E), expected, 1e-8 + RTOL_CONST, what="total cross section")
    require_close(kn.cs_total(E), expected, 1e-8 + RTOL_CONST, what="total cross section")
    for e, value in zip(E, expected):
        require_close(kn(float(e)), value, 1e-8 + RTOL_CONST, what="total cross section")
    require_close(kn.cs_total(E), kn(E), 1e-13, what="total cross section and call")
    return nontrivial(case)


@obligation(
    "C08",
    "no scattering centers",
    st.builds(lambda s, t, p, none: dict(s, theta=t, phi=p, none=none), scattering(), lin(0.0, 3.1), lin(0.0, 6.2), st.sampled_from([0, 0.0])),
    quick=100,
)
def no_centers(case):
    kn, mc2 = build_kn(dict(case, Z=case["none"]))
    E, theta, phi = case["E"], case["theta"], case["phi"]
    Ep = E * kn.Ep_over_E(E, theta)
    for value in (
        kn(E),
        kn.cs_total(np.array([E, 2.0 * E])),
        kn.cs_diff_dOmega(E, theta, phi),
        kn.cs_diff_dOmega_unpolarized(E, theta),
        kn.cs_diff_dtheta(E, theta),
        kn.cs_diff_dEp(E, Ep),
        kn.cs_diff_dEp_dphi(E, Ep, phi),
    ):
        require(bool(np.all(np.asarray(value) == 0.0)), "cross section {!r} without scattering centers".format(value))
    return True


def angles(mc2, E, n=160):
    """Nodes in theta, and weights for an integration over cos(theta)"""
    x = E / mc2
    u, weight = gauss_legendre(n, 0.0, np.log1p(2.0 * x))
    v = np.expm1(u) / x
    theta = 2.0 * np.arcsin(np.sqrt(np.clip(0.5 * v, 0.0, 1.0)))
    return theta, weight * np.exp(u) / x


@obligation("C08", "integrals of the differential cross sections", scattering(), quick=600)
def integrals(case):
    kn, mc2 = build_kn(case)
    E = case["E"]
    x = E / mc2
    expected = np.pi * prefactor(case["Z"], mc2) * total_reference(x)
    rtol = 1e-7 + RTOL_CONST + 1e2 * EPS / x
    theta, weight = angles(mc2, E)
    sin = np.sin(theta)
    require_close(
        np.sum(weight / sin * kn.cs_diff_dtheta(E, theta)), expected, rtol, what="integral over theta"
    )
    require_close(
        2.0 * np.pi * np.sum(weight * kn.cs_diff_dOmega_unpolarized(E, theta)),
        expected,
        rtol,
        what="integral of the unpolarized cross section over the solid angle",
    )
    phi = 2.0 * np.pi * (np.arange(8) + 0.3) / 8
    polarized = kn.cs_diff_dOmega(E, theta[:, None], phi[None, :])
    require_close(
        2.0 * np.pi / 8 * np.sum(weight[:, None] * polarized),
        expected,
        rtol,
        what="integral of the polarized cross section over the solid angle",
    )
    # Integrals over the energy of the scattered photon
    u, weight = gauss_legendre(160, -np.log1p(2.0 * x), 0.0)
    Ep = E * np.exp(u)
    require_close(
        np.sum(weight * Ep * kn.cs_diff_dEp(E, Ep)),
        expected,
        rtol,
        what="integral over the scattered energy",
    )
    require_close(
        2.0 * np.pi / 8 * np.sum(
            (weight * Ep)[:, None] * kn.cs_diff_dEp_dphi(E, Ep[:, None], phi[None, :])
        ),
        expected,
        rtol,
        what="integral over the scattered energy and the azimuthal angle",
    )
    return nontrivial(case)


@obligation(
    "C08",
    "pointwise formulas",
    st.builds(
        lambda s, t, p: dict(s, theta=t, phi=p),
        scattering(),
        st.lists(st.one_of(lin(0.0, np.pi), st.sampled_from([0.0, 0.5 * np.pi, np.pi])), min_size=1, max_size=6),
        lin(-7.0, 7.0),
    ),
    quick=800,
)
def pointwise(case):
    kn, mc2 = build_kn(case)
    E = case["E"]
    theta = np.array(case["theta"])
    phi = case["phi"]
    r = 1.0 / (1.0 + 2.0 * E / mc2 * np.sin(0.5 * theta) ** 2)
    s2 = np.sin(theta) ** 2
    unpolarized = 0.5 * prefactor(case["Z"], mc2) * r**2 * (r + 1.0 / r - s2)
    polarized = (
        0.5 * prefactor(case["Z"], mc2) * r**2 * (r + 1.0 / r - 2.0 * s2 * np.cos(phi) ** 2)
    )
    # The cosine of small angles is rounded.
    rtol = 1e-9 + RTOL_CONST + 10.0 * EPS * E / mc2
    atol = 10.0 * EPS * prefactor(case["Z"], mc2)
    require_close(kn.cs_diff_dOmega(E, theta, phi), polarized, rtol, atol, what="polarized")
    require_close(kn.cs_diff_dOmega_unpolarized(E, theta), unpolarized, rtol, atol, what="unpolarized")
    require_close(
        kn.cs_diff_dtheta(E, theta),
        2.0 * np.pi * unpolarized * np.sin(theta),
        rtol,
        10 * atol,
        what="cross section with respect to theta",
    )
    # The azimuthal average of the polarized cross section is the unpolarized one.
    phis = 2.0 * np.pi * np.arange(5) / 5 + phi
    require_close(
        np.mean(kn.cs_diff_dOmega(E, theta[:, None], phis[None, :]), axis=1),
        kn.cs_diff_dOmega_unpolarized(E, theta),
        1e-12,
        atol,
        what="azimuthal average",
    )
    Ep = E * r
    inside = (theta > 0.01) & (theta < np.pi - 0.01)
    if inside.any():
        rtol = 1e-7 + RTOL_CONST + 1e3 * EPS * (mc2 / E + E / mc2)
        atol = 1e2 * atol * mc2 / Ep[inside] ** 2
        require_close(
            kn.cs_diff_dEp(E, Ep[inside]),
            2.0 * np.pi * unpolarized[inside] * mc2 / Ep[inside] ** 2,
            rtol,
            atol,
            what="cross section with respect to the scattered energy",
        )
        require_close(
            kn.cs_diff_dEp_dphi(E, Ep[inside], phi),
            polarized[inside] * mc2 / Ep[inside] ** 2,
            rtol,
            atol,
            what="cross section with respect to the scattered energy and azimuthal angle",
        )
    return nontrivial(case) and bool(inside.any())


@obligation(
    "C08",
    "polarization at small angles",
    st.builds(
        lambda s, t, b, p: dict(s, theta=t, backward=b, phi=p),
        scattering(),
        log(1e-5, 1.5),
        st.booleans(),
        st.lists(lin(-7.0, 7.0), min_size=2, max_size=2),
    ),
    quick=300,
)
def polarization(case):
    """The difference for two azimuthal angles is much smaller than the cross section."""
    kn, mc2 = build_kn(case)
    E = case["E"]
    x = E / mc2
    theta = np.pi - case["theta"] if case["backward"] else case["theta"]
    r = 1.0 / (1.0 + 2.0 * x * np.sin(0.5 * theta) ** 2)
    factor = prefactor(case["Z"], mc2) * r**2
    values = [kn.cs_diff_dOmega(E, theta, p) for p in case["phi"]]
    expected = factor * np.sin(theta) ** 2 * (np.cos(case["phi"][1]) ** 2 - np.cos(case["phi"][0]) ** 2)
    slack = 20.0 * EPS * factor * (r + 1.0 / r)
    require_close(
        values[0] - values[1],
        expected,
        1e-6 + RTOL_CONST + 1e2 * EPS * x,
        slack,
        what="difference for two azimuthal angles",
    )
    unpolarized = kn.cs_diff_dOmega_unpolarized(E, theta)
    require_close(
        unpolarized - values[0],
        factor * np.sin(theta) ** 2 * (np.cos(case["phi"][0]) ** 2 - 0.5),
        1e-6 + RTOL_CONST + 1e2 * EPS * x,
        slack,
        what="difference to the unpolarized cross section",
    )
    return abs(expected) > 10.0 * slack


@obligation(
    "C08",
    "both ends of the spectrum",
    scattering(x=(1e-3, 1e3)),
    quick=300,
)
def ends(case):
    kn, mc2 = build_kn(case)
    E = case["E"]
    for Ep, r in ((kn.compton_edge(E), 1.0 / (1.0 + 2.0 * E / mc2)), (E, 1.0)):
        expected = np.pi * prefactor(case["Z"], mc2) * (r + 1.0 / r) / E**2 * mc2
        require_close(
            kn.cs_diff_dEp(E, Ep), expected, 1e-5, what="cross section at the end of the spectrum"
        )
        require_close(
            kn.cs_diff_dEp_dphi(E, Ep, 0.4),
            0.5 * expected / np.pi,
            1e-5,
            what="cross section at the end of the spectrum",
        )
    return nontrivial(case)


@obligation(
    "C08",
    "proportionality",
    st.builds(lambda s, k: dict(s, k=k), scattering(), st.integers(2, 50)),
    quick=200,
)
def proportionality(case):
    one, mc2 = build_kn(dict(case, Z=1))
    many, _ = build_kn(dict(case, Z=case["k"]))
    E = case["E"]
    theta = 1.0
    Ep = 0.5 * (one.compton_edge(E) + E)
    for name, arguments in [
        ("cs_total", (E,)),
        ("__call__", (E,)),
        ("cs_diff_dOmega", (E, theta, 0.7)),
        ("cs_diff_dOmega_unpolarized", (E, theta)),
        ("cs_diff_dtheta", (E, theta)),
        ("cs_diff_dEp", (E, Ep)),
        ("cs_diff_dEp_dphi", (E, Ep, 0.7)),
    ]:
        require_close(
            getattr(many, name)(*arguments),
            case["k"] * getattr(one, name)(*arguments),
            1e-12,
            what=name,
        )
    require_close(many.compton_edge(E), one.compton_edge(E), 1e-14, what="Compton edge")
    return True


# C09 ----------------------------------------------------------------------------------------------

kinematics = st.builds(
    lambda s, t: dict(s, theta=t),
    st.one_of(scattering(x=(1e-5, 1e5)), scattering(x=(1e-9, 1e8))),
    st.lists(
        st.one_of(lin(0.0, np.pi), st.sampled_from([0.0, 0.5 * np.pi, np.pi])),
        min_size=1,
        max_size=8,
    ),
)


@obligation("C09", "conservation laws", kinematics, quick=800)
def conservation(case):
    kn, mc2 = build_kn(case)
    E = case["E"]
    x = E / mc2
    theta = np.array(case["theta"])
    ratio = kn.Ep_over_E(E, theta)
    # Four-momentum of the recoiling particle, in units of its rest energy:
    # (1 + x - x')^2 = 1 + x^2 + x'^2 - 2 x x' cos, i.e. x - x' = x x' (1 - cos)
    v = 2.0 * np.sin(0.5 * theta) ** 2
    require_close(
        1.0 / ratio - 1.0,
        x * v,
        1e-9 + RTOL_CONST,
        10.0 * EPS * (1.0 + x),
        what="momentum balance",
    )
    xp = x * ratio
    recoil_energy = 1.0 + x - xp
    momentum = np.hypot(x - xp * np.cos(theta), xp * np.sin(theta))
    require_close(
        recoil_energy**2 - momentum**2,
        1.0,
        3 * RTOL_CONST * (1.0 + x) ** 2 + 1e-12 * (1.0 + x) ** 2,
        what="mass of the recoiling particle",
    )
    edge = kn.compton_edge(E)
    require_close(edge, E / (1.0 + 2.0 * x), 1e-9 + RTOL_CONST, what="Compton edge")
    # Whole numbers
    whole = np.array([1, 2, 3, 50])
    for f in (kn.compton_edge, lambda e: kn.Ep_over_E(e, theta[0]), lambda e: kn.theta(e, kn.compton_edge(e))):
        require_close(f(whole), [f(float(e)) for e in whole], 1e-12, 1e-12, what="whole numbers")
        require_close(f(int(whole[-1])), f(float(whole[-1])), 1e-12, 1e-12, what="whole number")
    require((E * ratio <= E * (1 + 1e-14)).all(), "scattered energy above the initial one")
    require((E * ratio >= edge * (1 - 1e-12)).all(), "scattered energy below the Compton edge")
    ordered = kn.Ep_over_E(E, np.sort(theta))
    require((np.diff(ordered) <= 1e-15).all(), "scattered energy increases with the angle")
    require_close(kn.Ep_over_E(E, 0.0), 1.0, 1e-14, what="forward scattering")
    return bool(np.any((theta > 0) & (theta < np.pi)))


@obligation(
    "C09",
    "rows and columns",
    st.builds(
        lambda s, f, t: dict(s, f=f, theta=t),
        scattering(x=(1e-3, 1e3)),
        st.lists(log(0.1, 10.0), min_size=1, max_size=5),
        st.lists(lin(0.0, np.pi), min_size=1, max_size=5),
    ),
    quick=200,
)
def kinematics_of_tables(case):
    """All combinations of some energies and some angles at once"""
    kn, mc2 = build_kn(case)
    E = case["E"] * np.array(case["f"])
    theta = np.array(case["theta"])
    for a, b in ((E[:, None], theta[None, :]), (E[None, :], theta[:, None]), (E[:, None], theta)):
        x = a / mc2
        ratio = kn.Ep_over_E(a, b)
        require(np.shape(ratio) == np.broadcast(a, b).shape, "shape {}".format(np.shape(ratio)))
        v = 2.0 * np.sin(0.5 * b) ** 2
        require_close(1.0 / ratio - 1.0, x * v, 1e-9 + RTOL_CONST, 10.0 * EPS * (1.0 + x), what="momentum balance")
        back = kn.theta(a, a * ratio)
        require(np.shape(back) == np.shape(ratio), "shape {}".format(np.shape(back)))
        error = 40.0 * EPS * (1.0 + 1.0 / x) + 1e-15
        require_close(np.cos(back), np.cos(b) + 0.0 * a, 0.0, error, what="cosine of the angle")
    # Scattered energies that are the same for all initial energies
    Ep = float(np.max(kn.compton_edge(E))) + (np.min(E) - np.max(kn.compton_edge(E))) * theta / np.pi
    if np.min(E) > np.max(kn.compton_edge(E)):
        table = kn.theta(E[:, None], Ep[None, :])
        for i, e in enumerate(E):
            require_close(table[i], [kn.theta(float(e), float(p)) for p in Ep], 1e-9, 1e-7, what="table of angles")
    return len(E) > 1 and len(theta) > 1


@obligation(
    "C08",
    "rows and columns",
    st.builds(
        lambda s, f, t, phi: dict(s, f=f, theta=t, phi=phi),
        scattering(x=(1e-3, 1e3)),
        st.lists(log(0.1, 10.0), min_size=1, max_size=4),
        st.lists(lin(0.0, np.pi), min_size=1, max_size=4),
        st.lists(lin(0.0, 2.0 * np.pi), min_size=1, max_size=3),
    ),
    quick=150,
)
def cross_sections_of_tables(case):
    kn, mc2 = build_kn(case)
    E = case["E"] * np.array(case["f"])
    theta, phi = np.array(case["theta"]), np.array(case["phi"])
    Ep = E[:, None] * kn.Ep_over_E(E[:, None], 0.05 + 0.96 * theta[None, :])
    pairs = [(i, j) for i in range(len(E)) for j in range(len(theta))]
    for f in (kn.cs_diff_dOmega_unpolarized, kn.cs_diff_dtheta):
        table = f(E[:, None], theta[None, :])
        require(np.shape(table) == (len(E), len(theta)), "shape {}".format(np.shape(table)))
        for i, j in pairs:
            require_close(table[i, j], f(float(E[i]), float(theta[j])), 1e-9, 1e-30, what=f.__name__)
    table = kn.cs_diff_dEp(E[:, None], Ep)
    for i, j in pairs:
        require_close(table[i, j], kn.cs_diff_dEp(float(E[i]), float(Ep[i, j])), 1e-9, what="cs_diff_dEp")
    block = kn.cs_diff_dOmega(E[:, None, None], theta[None, :, None], phi[None, None, :])
    other = kn.cs_diff_dEp_dphi(E[:, None, None], Ep[:, :, None], phi[None, None, :])
    require(np.shape(block) == (len(E), len(theta), len(phi)) == np.shape(other), "shape {}".format(np.shape(block)))
    for i, j in pairs:
        for k, p in enumerate(phi):
            require_close(block[i, j, k], kn.cs_diff_dOmega(float(E[i]), float(theta[j]), float(p)), 1e-9, 1e-30, what="cs_diff_dOmega")
            require_close(other[i, j, k], kn.cs_diff_dEp_dphi(float(E[i]), float(Ep[i, j]), float(p)), 1e-9, 1e-30, what="cs_diff_dEp_dphi")
    return len(pairs) > 1


@obligation("C09", "inversion from the angle", kinematics, quick=800)
def inversion(case):
    kn, mc2 = build_kn(case)
    E = case["E"]
    x = E / mc2
    theta = np.array(case["theta"])
    Ep = E * kn.Ep_over_E(E, theta)
    back = kn.theta(E, Ep)
    require(np.isfinite(back).all(), "angle is not a number")
    # The cosine is known up to rounding errors.
    error = 40.0 * EPS * (1.0 + 1.0 / x) + 1e-15
    require_close(np.cos(back), np.cos(theta), 0.0, error, what="cosine of the angle")
    inside = (theta > 0.1) & (theta < np.pi - 0.1)
    require_close(back[inside], theta[inside], 0.0, 20.0 * error, what="angle")
    return bool(inside.any())


@obligation(
    "C09",
    "inversion from the energy",
    st.builds(lambda s, f: dict(s, f=f), st.one_of(scattering(x=(1e-5, 1e5)), scattering(x=(1e-9, 1e8))), st.lists(unit, min_size=1, max_size=6)),
    quick=800,
)
def inversion_energy(case):
    kn, mc2 = build_kn(case)
    E = case["E"]
    x = E / mc2
    edge = float(kn.compton_edge(E))
    Ep = edge + (E - edge) * np.array(case["f"] + [0.0])
    Ep[np.array(case["f"] + [0.0]) == 1.0] = E
    theta = kn.theta(E, Ep)
    require(np.isfinite(theta).all(), "angle is not a number")
    require((theta >= 0.0).all() and (theta <= np.pi).all(), "angle outside of [0, pi]")
    cosine = 1.0 - (mc2 / Ep - mc2 / E)
    error = 40.0 * EPS * (1.0 + 1.0 / x) + 4 * RTOL_CONST
    require_close(np.cos(theta), cosine, 0.0, error, what="cosine of the angle")
    require_close(E * kn.Ep_over_E(E, theta), Ep, 1e-9 + 20.0 * EPS * x, what="energy for the angle")
    # Both ends of the spectrum
    require_close(kn.theta(E, edge), np.pi, 0.0, 2.0 * np.sqrt(error), what="angle at the edge")
    require_close(kn.theta(E, E), 0.0, 0.0, 1e-7, what="angle without energy loss")
    return True
