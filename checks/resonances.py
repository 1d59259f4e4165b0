"""C03 to C07, C20, C24: resonances"""

import re
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy.special import erf, erfinv, ndtri

from gen import (
    CONTAINERS,
    EPS,
    RTOL_CONST,
    SEEDS,
    Reference,
    U,
    KB,
    build,
    count,
    cauchy_pdf,
    final_state,
    gauss_legendre,
    label,
    limits_container,
    lin,
    log,
    many,
    normal_pdf,
    resonance,
    states,
    thompson,
    unusual_widths,
    voigt_pdf,
    SHAPES,
)
from vlib import Violation, obligation, quiet, require, require_close, rule
from ries.constituents.state import GroundState, State
from ries.cross_section import ConstantCrossSection
from ries.nonresonant.klein_nishina import KleinNishina
from ries.nonresonant.xrmac import xrmac_cm2_per_g
from ries.resonance.maxwell_boltzmann import MaxwellBoltzmann
from ries.resonance.pseudo_voigt import PseudoVoigtDistribution
from ries.resonance.resonance import Resonance
from ries.resonance.recoil import FreeNucleusRecoil
from ries.resonance.voigt import SemiPseudoVoigtDistribution

# C03 ----------------------------------------------------------------------------------------------

rule(
    "C03",
    "Random states, widths, masses and temperatures for all line shapes. A case is non-trivial if "
    "the resonance has several decay channels or different spins, so that the strength is not just "
    "a function of energy and width.",
)


def interesting(case):
    return len(case["widths"]) > 1 or case["two_J0"] != case["two_J2"]


@obligation(
    "C03",
    "strength formula",
    st.one_of(
        unusual_widths(relative_width=(1e-12, 10.0)),
        unusual_widths(relative_width=(1e-12, 10.0), energy=(1e-7, 1e4)),
    ),
    quick=1000,
)
def strength(case):
    cs = build(case)
    require_close(
        cs.energy_integrated_cross_section,
        Reference(case).I,
        RTOL_CONST,
        what="energy-integrated cross section",
    )
    return interesting(case)


@obligation("C03", "integral over all energies", resonance(), quick=500)
def integral(case):
    cs = build(case)
    ref = Reference(case)
    if ref.shape == "box":
        d, weight = gauss_legendre(200, -0.49999999, 0.49999999)
        outside = cs(ref.Er + np.array([-0.51, 0.51, 3.0]))
        require_close(outside, 0.0, 0.0, what="cross section outside of the box")
        rtol = 1e-6
    else:
        t, weight = gauss_legendre(600, -0.5 * np.pi, 0.5 * np.pi)
        scale = ref.w
        d = scale * np.tan(t)
        weight = weight * scale / np.cos(t) ** 2
        rtol = 1e-6 + 100.0 * ref.rounding
    require_close(np.sum(weight * cs(ref.Er + d)), ref.I, rtol, what="integral")
    return interesting(case)


@obligation("C03", "shape independence", resonance(), quick=300)
def shape_independence(case):
    values = [build(case, shape).energy_integrated_cross_section for shape in SHAPES]
    require_close(values, values[0], 1e-12, what="strength for different shapes")
    hot = dict(case, T=3.0 * case["T"], amu=case["amu"] + 7.0)
    for shape, value in zip(SHAPES, values):
        require_close(
            build(hot, shape).energy_integrated_cross_section,
            value,
            1e-12,
            what="strength for a different temperature and mass",
        )
    return interesting(case)


@obligation(
    "C03",
    "strength with recoil",
    st.builds(lambda r, light: dict(r, light=light), resonance(shapes=("box",)), lin(1.0, 12.0)),
    quick=200,
)
def strength_recoil(case):
    initial, intermediate = states(case)
    ref = Reference(case)
    cs = Resonance(
        initial,
        intermediate,
        final_state(case["final"], initial, case["labels"]),
        FreeNucleusRecoil(case["light"]),
    )
    Er = ref.Er + ref.Er**2 / (2.0 * case["light"] * U)
    require_close(
        cs.energy_integrated_cross_section,
        ref.I * (ref.Er / Er) ** 2,
        RTOL_CONST,
        what="energy-integrated cross section with recoil",
    )
    require_close(cs(Er + 0.4), cs.energy_integrated_cross_section, 1e-9)
    require_close(cs(Er - 0.4), cs.energy_integrated_cross_section, 1e-9)
    return True


# C04 ----------------------------------------------------------------------------------------------

rule(
    "C04",
    "Random resonances and offsets from the center to thousands of widths. A case is non-trivial "
    "if at least one offset is away from the center and has a non-zero reference value.",
)

offsets = st.lists(
    st.one_of(
        lin(-6.0, 6.0),
        st.builds(lambda s, x: s * x, st.sampled_from([-1, 1]), log(1e-3, 3e3)),
        st.builds(lambda s, x: s * x, st.sampled_from([-1, 1]), log(1e-12, 1e6)),
        st.just(0.0),
    ),
    min_size=1,
    max_size=8,
)

voigt_like = st.one_of(
    resonance(shapes=("breit_wigner", "gauss", "voigt")),
    # Extremely small and large temperatures and widths
    resonance(
        shapes=("breit_wigner", "gauss", "voigt"),
        relative_width=(1e-13, 1.0),
        temperature=(1e-10, 1e8),
    ),
    # Doppler widths up to the energy
    resonance(shapes=("gauss", "voigt"), relative_width=(1e-6, 10.0), temperature=(1.0, 1e14)),
    # Comparable natural and Doppler width
    st.builds(
        lambda r, x: dict(
            r,
            widths=[
                [
                    k,
                    v
                    / sum(y for _, y in r["widths"])
                    * x
                    * (r["E2"] - r["E0"])
                    * np.sqrt(2.0 * KB * r["T"] / (r["amu"] * U)),
                ]
                for k, v in r["widths"]
            ],
        ),
        resonance(shapes=("voigt",)),
        log(1e-3, 1e3),
    ),
)


@obligation(
    "C04",
    "pointwise formula",
    st.builds(lambda r, x: dict(r=r, x=x), voigt_like, offsets),
    quick=1000,
)
def pointwise(case):
    cs = build(case["r"])
    ref = Reference(case["r"])
    d = ref.w * np.array(case["x"])
    E = ref.Er + d
    d = E - ref.Er
    expected = ref.I * ref.pdf(d)
    x = np.abs(d / ref.w)
    # Sensitivity to rounding errors and to the constants in the Doppler width
    slope = 2.0 * x * (1.0 if ref.shape == "breit_wigner" else 20.0 + 20.0 * x)
    rtol = 1e-8 + 2 * RTOL_CONST * (1.0 + slope) + 20.0 * ref.rounding * (1.0 + slope)
    require_close(cs(E), expected, rtol, 1e-280, what="cross section")
    for i in range(len(E)):
        require_close(cs(float(E[i])), expected[i], rtol[i], 1e-280, what="scalar energy")
    require_close(
        cs(cs.resonance_energy),
        ref.I * ref.pdf(0.0),
        1e-8 + 2 * RTOL_CONST + 20.0 * ref.rounding,
        1e-280,
        what="maximum",
    )
    return bool(np.any((x > 0.01) & (expected > 0.0)))


@obligation(
    "C04",
    "relative energies",
    st.builds(
        lambda r, x, flag: dict(r=r, x=x, flag=flag),
        resonance(),
        offsets,
        st.sampled_from(["False", "numpy", "0", "comparison"]),
    ),
    quick=400,
)
def relative(case):
    cs = build(case["r"])
    ref = Reference(case["r"])
    d = ref.w * np.array(case["x"])
    absolute = cs(ref.Er + d)
    require_close(cs(d, input_is_absolute_energy=False), absolute, 1e-6, 1e-290, what="relative")
    flags = dict(numpy=(np.bool_(False), np.bool_(True)), comparison=(np.max(ref.Er) < 0.0, np.max(ref.Er) > 0.0))
    flags["0"] = (0, 1)
    no, yes = flags.get(case["flag"], (False, True))
    require_close(cs(d, no), absolute, 1e-6, 1e-290, what="relative")
    require_close(cs(d, input_is_absolute_energy=no), absolute, 1e-6, 1e-290, what="relative")
    require_close(cs(ref.Er + d, input_is_absolute_energy=yes), absolute, 1e-12)
    require_close(cs(ref.Er + d, yes), absolute, 1e-12)
    # All shapes are symmetric.
    mirrored = cs(-d, input_is_absolute_energy=False)
    slope = 1.0 + np.abs(d / ref.w) * (1.0 + np.abs(d / ref.w)) * 20.0
    rtol = 1e-9 + 50.0 * ref.rounding * slope
    if ref.shape != "box":
        require_close(mirrored, absolute, rtol, 1e-280, what="symmetry")
    return bool(np.any(absolute > 0.0))


@obligation(
    "C04",
    "thermal average",
    st.builds(lambda r, x: dict(r=r, x=x), voigt_like, st.lists(lin(-10.0, 10.0), min_size=1, max_size=4)),
    quick=300,
)
def thermal_average(case):
    case = dict(case, r=dict(case["r"], shape="voigt"))
    cs = build(case["r"])
    bw = build(case["r"], "breit_wigner")
    ref = Reference(case["r"])
    if ref.Gamma < 0.01 * ref.Delta:
        # The numerical average would need a very fine grid.
        return False
    d = ref.w * np.array(case["x"])
    E = ref.Er + d
    # Composite quadrature over the shifts, refined around the position of the resonance.
    for e in E:
        center = e - ref.Er
        edges = {-9.0 * ref.sigma, 9.0 * ref.sigma}
        for k in range(-3, 12):
            for sign in (-1.0, 1.0):
                point = -center + sign * ref.Gamma * 2.0**k
                if abs(point) < 9.0 * ref.sigma:
                    edges.add(point)
        for k in np.linspace(-9.0, 9.0, 13):
            edges.add(k * ref.sigma)
        edges = sorted(edges)
        total = 0.0
        for a, b in zip(edges[:-1], edges[1:]):
            s, weight = gauss_legendre(24, a, b)
            total += np.sum(weight * normal_pdf(s, ref.sigma) * bw(e + s))
        require_close(
            cs(float(e)), total, 1e-6 + 1e3 * ref.rounding, what="average over Doppler shifts"
        )
    return True


# C05 ----------------------------------------------------------------------------------------------

rule(
    "C05",
    "Random resonances with coverages or limits (around, beside and far from the resonance). A case "
    "is non-trivial if the grid has at least two intervals, no quantile calculation failed, and the "
    "probability per interval exceeds the rounding errors.",
)

RANGES = dict(box=0.7, breit_wigner=30.0, gauss=6.0, pseudo_voigt=30.0, voigt=30.0)


@st.composite
def grid_case(draw, **kwargs):
    r = draw(resonance(**kwargs))
    kind = draw(
        st.sampled_from(["coverage", "coverage", "limits", "limits", "one-sided", "wide", "far"])
    )
    x = sorted([draw(lin(-1.0, 1.0)), draw(lin(-1.0, 1.0))])
    if kind == "one-sided":
        sign = draw(st.sampled_from([-1, 1]))
        x = sorted([sign * abs(v) for v in x])
    if kind == "far":
        sign = draw(st.sampled_from([-1, 1]))
        x = sorted([sign * draw(log(1.0, 1e4)), sign * draw(log(1.0, 1e4))])
    if kind == "wide":
        x = [-draw(log(0.1, 1e6)), draw(log(0.1, 1e6))]
    coverage = draw(st.one_of(lin(0.001, 0.999), log(1e-4, 0.5).map(lambda v: 1.0 - v)))
    return dict(
        r=r,
        kind=kind,
        x=x,
        coverage=coverage,
        n=draw(st.one_of(st.integers(2, 12), st.integers(2, 400), st.sampled_from([2, 3, 1000, 3001, 20001]))),
        container=draw(CONTAINERS),
    )


def may_fail(quantile, ref):
    """Whether rounding errors may exceed the tolerance of the numerical inversion"""
    return quantile < 2e-5 or 1e-16 * ref.w / quantile**2 > 1e-9


def fallback(record):
    return any(
        w.category is UserWarning and "failed" in str(w.message) for w in record
    )


@obligation("C05", "equal probabilities", grid_case(), quick=1200)
def equal_probabilities(case):
    cs = build(case["r"])
    ref = Reference(case["r"])
    n = case["n"]
    if case["kind"] == "coverage":
        request = case["coverage"]
    else:
        limits = [ref.Er + RANGES[ref.shape] * ref.w * x for x in case["x"]]
        limits = [max(0.0, v) for v in limits]
        if not limits[0] < limits[1]:
            return False
        request = limits_container(limits, case["container"])
    with quiet() as record:
        grid = cs.equidistant_probability_grid(request, count(n))
    failed = fallback(record)
    grid = np.asarray(grid, dtype=float)
    require(grid.shape == (n,), "grid has shape {} instead of {}".format(grid.shape, (n,)))
    require(np.isfinite(grid).all(), "grid contains values that are not finite")
    d = grid - ref.Er
    atol = 32.0 * ref.rounding
    if case["kind"] == "coverage":
        c = case["coverage"]
        negative = ref.cdf(-ref.Er) > 0.5 * (1.0 - c)
        if abs(ref.cdf(-ref.Er) - 0.5 * (1.0 - c)) < 1e-3 * (1.0 - c):
            # It depends on rounding whether the lower limit is negative.
            return False
        require(
            any("negative" in str(w.message) for w in record) == bool(negative),
            "warning about negative energies, although the limit is positive, or vice versa",
        )
        if not failed:
            lower = ref.cdf(-ref.Er) if negative else 0.5 * (1.0 - c)
            require_close(
                ref.cdf(d[0]), lower, 1e-3, atol, what="probability below the grid"
            )
            require_close(
                ref.sf(d[-1]),
                0.5 * (1.0 - c),
                1e-3,
                atol,
                what="probability above the grid",
            )
        if negative:
            require(grid[0] == 0.0, "lower limit is {!r} instead of zero".format(grid[0]))
    else:
        require_close(grid[0], limits[0], 1e-12, 1e-300, what="lower limit")
        require_close(grid[-1], limits[1], 1e-12, 1e-300, what="upper limit")
        require(
            (grid >= limits[0] * (1 - 1e-12)).all() and (grid <= limits[1] * (1 + 1e-12)).all(),
            "grid points outside of the limits",
        )
    require((np.diff(grid) >= 0.0).all(), "grid is not in increasing order")
    # The quantile calculation may give up only for extreme quantiles.
    low, high = ref.cdf(d[0]), ref.sf(d[-1])
    require(
        not failed or may_fail(min(low, high), ref),
        "quantile calculation failed between the quantiles {} and 1 - {}".format(low, high),
    )
    if failed:
        return False
    p = ref.between(d[:-1], d[1:])
    mean = ref.between(d[0], d[-1]) / (n - 1)
    # The quantiles of the pseudo-Voigt distribution are found iteratively.
    require_close(
        p,
        mean,
        1e-4,
        atol + (1e-8 if ref.shape == "pseudo_voigt" else 0.0),
        what="probability per interval",
    )
    if mean > 1e3 * atol:
        require((np.diff(grid) > 0.0).all(), "grid is not strictly increasing")
    return n > 2 and mean > 10.0 * atol


@obligation(
    "C05",
    "coverage and limits agree",
    grid_case(),
    quick=400,
)
def coverage_or_limits(case):
    cs = build(case["r"])
    ref = Reference(case["r"])
    with quiet() as record:
        a = cs.equidistant_probability_grid(case["coverage"], case["n"])
        b = cs.equidistant_probability_grid(
            limits_container([a[0], a[-1]], case["container"]), case["n"]
        )
    if fallback(record):
        return False
    c = case["coverage"]
    require_close(
        ref.cdf(b - ref.Er),
        ref.cdf(a - ref.Er),
        0.0,
        1e-8 + 1e-4 * c / (case["n"] - 1) + 100 * ref.rounding,
        what="grid from the limits of a grid",
    )
    return case["n"] > 2


@obligation(
    "C05",
    "infinite limits",
    st.fixed_dictionaries(
        dict(
            r=resonance(shapes=("box", "breit_wigner", "gauss")),
            x=lin(-1.0, 0.9),
            n=st.integers(2, 200),
            container=CONTAINERS,
        )
    ),
    quick=200,
)
def infinite_limits(case):
    cs = build(case["r"])
    ref = Reference(case["r"])
    n = case["n"]
    lower = max(0.0, ref.Er + RANGES[ref.shape] * ref.w * case["x"] * 0.5)
    with quiet():
        grid = cs.equidistant_probability_grid(limits_container([lower, np.inf], case["container"]), n)
    require(np.shape(grid) == (n,), "grid has shape {} instead of {}".format(np.shape(grid), (n,)))
    require(grid[-1] == np.inf, "upper limit {!r}".format(grid[-1]))
    require_close(grid[0], lower, 1e-12, 1e-300, what="lower limit")
    above = ref.sf(grid[:-1] - ref.Er)
    expected = ref.sf(lower - ref.Er) * (1.0 - np.arange(n - 1) / (n - 1.0))
    require_close(above, expected, 1e-6, 32.0 * ref.rounding, what="probability above the points")
    return n > 2


def whole_limits(case, grid):
    """Limits that are whole numbers, in comparison to equal floating-point numbers"""
    limits = [case["lo"], case["lo"] + case["length"]]
    with quiet():
        cs = build(case["r"])
        expected = grid(cs, tuple(float(v) for v in limits), case["n"])
        actual = grid(cs, limits_container(limits, case["container"]), case["n"])
    require(np.shape(actual) == (case["n"],), "shape of the grid")
    require_close(actual, expected, 1e-12, what="grid for whole numbers")
    return bool(np.any(np.asarray(expected) % 1.0 > 0.0))


whole_case = st.fixed_dictionaries(
    dict(
        r=resonance(energy=(1.0, 20.0), relative_width=(1e-3, 0.5)),
        lo=st.integers(0, 15),
        length=st.integers(1, 15),
        n=st.integers(2, 20),
        container=CONTAINERS,
    )
)


@obligation("C05", "whole numbers", whole_case, quick=150)
def whole_probability_grids(case):
    return whole_limits(case, lambda cs, limits, n: cs.equidistant_probability_grid(limits, n))


@obligation("C24", "whole numbers", whole_case, quick=150)
def whole_energy_grids(case):
    return whole_limits(case, lambda cs, limits, n: cs.equidistant_energy_grid(limits, n))


# C06 ----------------------------------------------------------------------------------------------

rule(
    "C06",
    "Random resonances from narrow to broader than their energy, and coverages including 0 and 1. A "
    "case is non-trivial if 0 < coverage < 1 or if a limit had to be reported by a warning.",
)

coverages = st.one_of(
    lin(0.0, 0.999),
    log(1e-4, 1.0).map(lambda v: 1.0 - v),
    log(1e-6, 1.0).map(lambda v: v * 0.9),
    log(1e-11, 1e-3).map(lambda v: 1.0 - v),
)
broad = resonance(relative_width=(1e-9, 100.0), temperature=(0.1, 1e12))


@obligation(
    "C06",
    "share of the interval",
    st.builds(lambda r, c: dict(r=r, c=c), broad, coverages),
    quick=1000,
)
def share(case):
    cs = build(case["r"])
    ref = Reference(case["r"])
    c = case["c"]
    with quiet() as record:
        limits = cs.coverage_interval(c)
    messages = [str(w.message) for w in record if w.category is UserWarning]
    require(len(limits) == 2, "result is not a pair")
    with quiet() as record:
        again = cs.coverage_interval(c)
    require(
        [str(w.message) for w in record if w.category is UserWarning] == messages,
        "other warnings for the second of two equal requests",
    )
    require_close(again, limits, 1e-13, what="second interval")
    below_zero = ref.cdf(-ref.Er)
    lower = 0.5 * (1.0 - c)
    failed = any("failed" in m for m in messages)
    require(not failed or may_fail(lower, ref), "quantile calculation failed for {}".format(lower))
    if failed:
        return False
    require(not any("nfinite" in m for m in messages), "finite upper limit reported as infinite")
    atol = 32.0 * ref.rounding
    require_close(
        ref.sf(limits[1] - ref.Er), lower, 1e-4, atol, what="share above the interval"
    )
    if abs(below_zero - lower) < 1e-3 * lower + atol:
        return False
    warned = any("negative" in m for m in messages)
    if below_zero > lower:
        require(warned, "no warning about a negative lower limit")
        require(limits[0] == 0.0, "lower limit is {!r} instead of zero".format(limits[0]))
        reported = [m for m in messages if "negative" in m]
        require(len(reported) == 1, "{} warnings about a negative limit".format(len(reported)))
        stated = re.findall(r"([0-9.eE+-]+) ?%", reported[0])
        if stated:
            # Maximum coverage in percent, with six decimal places
            above_zero = 100.0 * ref.sf(-ref.Er)
            require_close(float(stated[0]), above_zero, 2e-6, 1.1e-6, what="coverage in the warning")
    else:
        require(not warned, "warning about a negative limit, although it is positive")
        require_close(
            ref.cdf(limits[0] - ref.Er), lower, 1e-4, atol, what="share below the interval"
        )
    return True


@obligation(
    "C06",
    "nested intervals",
    st.builds(
        lambda r, c: dict(r=r, c=sorted(c)), broad, st.lists(coverages, min_size=2, max_size=4)
    ),
    quick=300,
)
def nested(case):
    cs = build(case["r"])
    ref = Reference(case["r"])
    slack = 1e-7 * ref.w + 8.0 * EPS * ref.Er
    last = None
    for c in case["c"]:
        with quiet() as record:
            limits = cs.coverage_interval(c)
        if fallback(record):
            return False
        require(
            limits[0] <= ref.Er + slack and limits[1] >= ref.Er - slack,
            "interval does not contain the median",
        )
        if last is not None:
            require(
                limits[0] <= last[0] + slack and limits[1] >= last[1] - slack,
                "interval does not contain the one for a smaller coverage",
            )
        last = limits
    return True


@obligation(
    "C06",
    "extreme coverages",
    resonance(relative_width=(1e-9, 1.0)),
    quick=200,
)
def extreme(case):
    cs = build(case)
    ref = Reference(case)
    limits = cs.coverage_interval(0.0)
    require_close(limits, ref.Er, 1e-9, 1e-3 * ref.w, what="empty interval")
    with quiet() as record:
        limits = cs.coverage_interval(1.0)
        if ref.shape != "box":
            # Warnings may be errors for the user.
            for text in ("negative", "nfinite"):
                with warnings.catch_warnings():
                    warnings.filterwarnings("error", message=".*" + text)
                    try:
                        value = cs.coverage_interval(1.0)
                    except UserWarning:
                        continue
                raise Violation("the warning did not become an error: {!r}".format(value))
    messages = [str(w.message) for w in record if w.category is UserWarning]
    if ref.shape == "box":
        require_close(limits[1], ref.Er + 0.5, 1e-9, what="upper limit of the box")
        require_close(limits[0], max(0.0, ref.Er - 0.5), 1e-9, 1e-12, what="lower limit of the box")
        require(not any("nfinite" in m for m in messages), "finite limit reported as infinite")
        return True
    require(limits[0] == 0.0, "lower limit is {!r} instead of zero".format(limits[0]))
    require(np.isinf(limits[1]) and limits[1] > 0, "upper limit is not infinite")
    require(any("negative" in m for m in messages), "no warning about the lower limit")
    require(any("nfinite" in m for m in messages), "no warning about the upper limit")
    return True


@obligation(
    "C06",
    "several requests",
    st.fixed_dictionaries(
        dict(
            lines=st.lists(broad, min_size=1, max_size=3),
            requests=st.lists(
                st.tuples(st.integers(0, 2), st.one_of(coverages, st.sampled_from([0.0, 1.0, 1.0])), st.booleans()).map(list),
                min_size=2,
                max_size=6,
            ),
        )
    ),
    quick=200,
)
def several_requests(case):
    """The warnings do not depend on former requests, and the user's settings for warnings stay"""
    lines = [build(r) for r in case["lines"]]

    def request(cs, c, grid):
        return cs.equidistant_probability_grid(c, 3)[[0, -1]] if grid else cs.coverage_interval(c)

    def categories(record):
        return [str(w.message) for w in record if w.category is UserWarning]

    expected = []
    for i, c, grid in case["requests"]:
        fresh = build(case["lines"][i % len(lines)])
        with quiet() as record:
            limits = request(fresh, c, grid)
        expected.append((limits, categories(record)))
    with quiet() as record:
        before = list(warnings.filters)
        for (i, c, grid), (limits, messages) in zip(case["requests"], expected):
            n = len(record)
            actual = request(lines[i % len(lines)], c, grid)
            require(
                categories(record[n:]) == messages,
                "warnings {} instead of {} after other requests".format(categories(record[n:]), messages),
            )
            require_close(actual, limits, 1e-12, what="limits after other requests")
        require(list(warnings.filters) == before, "filters for warnings changed")
    return any(messages for _, messages in expected)


# C07 ----------------------------------------------------------------------------------------------

rule(
    "C07",
    "Random resonance energies, masses, temperatures and ratios of the natural and the Doppler width "
    "between 1e-7 and 1e6. A case is non-trivial if both the normal and the Cauchy part contribute "
    "more than 0.1 percent.",
)

pv_parameters = st.fixed_dictionaries(
    dict(
        Er=st.one_of(log(1e-2, 20.0), log(1e-2, 20.0), log(1e-6, 1e3)),
        amu=st.one_of(lin(1.0, 250.0), lin(1.0, 250.0), log(1e-2, 1e4)),
        T=st.one_of(log(1.0, 1e4), log(1.0, 1e4), log(1e-3, 1e8)),
        ratio=st.one_of(log(1e-4, 1e4), log(1e-7, 1e6)),
        voigt=st.booleans(),
    )
)


class PV:
    def __init__(self, case):
        self.Er = case["Er"]
        self.Delta = self.Er * np.sqrt(2.0 * KB * case["T"] / (case["amu"] * U))
        self.Gamma = self.Delta * case["ratio"]
        self.sigma = self.Delta / np.sqrt(2.0)
        self.fwhm, self.eta = thompson(2.0 * np.sqrt(np.log(2.0)) * self.Delta, self.Gamma)
        self.distribution = (
            SemiPseudoVoigtDistribution if case["voigt"] else PseudoVoigtDistribution
        )(self.Er, self.Gamma, case["amu"], case["T"])
        r = dict(
            shape="pseudo_voigt",
            E0=0.0,
            E2=self.Er,
            two_J0=0,
            two_J2=2,
            parity=1,
            widths=[["i", self.Gamma]],
            amu=case["amu"],
            T=case["T"],
            final=None,
        )
        self.ref = Reference(r)
        self.voigt = case["voigt"]
        self.nontrivial = 1e-3 < self.eta < 0.999


@obligation(
    "C07",
    "density and cumulative distribution",
    st.builds(lambda p, x: dict(p=p, x=x), pv_parameters, offsets),
    quick=1000,
)
def pv_density(case):
    pv = PV(case["p"])
    ref = pv.ref
    E = ref.Er + ref.w * np.array(case["x"])
    d = E - ref.Er
    x = np.abs(d / ref.w)
    slope = 10.0 * (1.0 + x)
    # The normal part dies out at a few widths, the Cauchy part is insensitive.
    rtol = 1e-8 + (RTOL_CONST + 10.0 * ref.rounding) * np.minimum(slope**2, 4e3)
    if pv.voigt:
        expected = voigt_pdf(d, pv.sigma, 0.5 * pv.Gamma)
    else:
        expected = ref.pdf(d)
    require_close(pv.distribution.pdf(E), expected, rtol, 1e-280, what="density")
    require_close(
        pv.distribution.cdf(E),
        ref.cdf(d),
        1e-6,
        1e-12 + 2 * RTOL_CONST + 16.0 * ref.rounding,
        what="cumulative distribution",
    )
    return pv.nontrivial


@obligation(
    "C07",
    "exact limits",
    st.fixed_dictionaries(
        dict(
            Er=log(1e-2, 20.0),
            amu=lin(1.0, 250.0),
            T=log(1.0, 1e4),
            ratio=log(1e-6, 1e-2),
            normal=st.booleans(),
            zero=st.sampled_from([0, 0.0]),
            x=st.lists(lin(-4.0, 4.0), min_size=1, max_size=4),
            q=st.lists(lin(0.05, 0.95), min_size=1, max_size=4),
        )
    ),
    quick=150,
)
def pv_exact_limits(case):
    """No natural width, or nuclei at rest"""
    Er, x, q = case["Er"], np.array(case["x"]), np.array(case["q"])
    if case["normal"]:
        width, T = case["zero"], case["T"]
        scale = Er * np.sqrt(2.0 * KB * T / (case["amu"] * U))
        density = np.exp(-x * x) / (scale * np.sqrt(np.pi))
        below = 0.5 * (1.0 + erf(x))
        quantiles = Er + scale * erfinv(2.0 * q - 1.0)
    else:
        width, T = Er * case["ratio"], case["zero"]
        scale = 0.5 * width
        density = 1.0 / (np.pi * scale * (1.0 + x * x))
        below = 0.5 + np.arctan(x) / np.pi
        quantiles = Er + scale * np.tan(np.pi * (q - 0.5))
    rounding = 1e-16 * Er / scale
    for kind in (PseudoVoigtDistribution, SemiPseudoVoigtDistribution):
        pv = kind(Er, width, case["amu"], T)
        E = Er + scale * x
        require_close(pv.pdf(E), density, 1e-6 + 1e2 * rounding, what="density")
        # The semi-pseudo-Voigt distribution has the same cumulative distribution.
        require_close(pv.cdf(E), below, 1e-6 + 1e2 * rounding, what="cumulative distribution")
        require_close(pv.ppf(q), quantiles, 0.0, (1e-4 + 1e2 * rounding) * scale, what="quantiles")
    return True


@obligation("C07", "accuracy", pv_parameters, quick=300)
def pv_accuracy(case):
    pv = PV(dict(case, voigt=False))
    t, weight = gauss_legendre(400, -0.5 * np.pi, 0.5 * np.pi)
    d = pv.ref.w * np.tan(t)
    true = voigt_pdf(d, pv.sigma, 0.5 * pv.Gamma)
    density = pv.distribution.pdf(pv.Er + d)
    peak = voigt_pdf(0.0, pv.sigma, 0.5 * pv.Gamma)
    noise = 1e3 * pv.ref.rounding
    require(
        np.max(np.abs(density - true)) < (0.015 + noise) * peak,
        "density deviates by {:.3g} of the maximum".format(
            np.max(np.abs(density - true)) / peak
        ),
    )
    # Cumulative distribution of the Voigt profile by integration up to a few points
    for limit in (-1.2, -0.8, -0.3, 0.2, 0.5, 1.0, 1.3):
        t, weight = gauss_legendre(400, -0.5 * np.pi, limit)
        d = pv.ref.w * np.tan(t)
        jacobian = pv.ref.w / np.cos(t) ** 2
        end = pv.Er + pv.ref.w * np.tan(limit)
        cumulative = float(pv.distribution.cdf(end))
        require_close(
            cumulative,
            np.sum(weight * jacobian * voigt_pdf(d, pv.sigma, 0.5 * pv.Gamma)),
            0.0,
            0.006 + noise,
            what="cumulative distribution compared to the Voigt profile",
        )
        require_close(
            cumulative,
            np.sum(weight * jacobian * pv.distribution.pdf(pv.Er + d)),
            1e-5,
            1e-6 + noise,
            what="integral of the density",
        )
    return pv.nontrivial


@obligation(
    "C07",
    "quantiles",
    st.builds(
        lambda p, q, scalar: dict(p=p, q=q, scalar=scalar),
        pv_parameters,
        st.lists(
            st.one_of(lin(0.001, 0.999), log(1e-4, 0.5), log(1e-4, 0.5).map(lambda v: 1.0 - v)),
            min_size=1,
            max_size=20,
        ),
        st.booleans(),
    ),
    quick=800,
)
def pv_quantiles(case):
    pv = PV(case["p"])
    with quiet() as record:
        if case["scalar"]:
            E = np.array([pv.distribution.ppf(q) for q in case["q"]])
        else:
            E = pv.distribution.ppf(np.array(case["q"]))
    if fallback(record):
        extreme_quantile = min(min(case["q"]), 1.0 - max(case["q"]))
        require(may_fail(extreme_quantile, pv.ref), "quantile calculation failed")
        return False
    require(np.shape(E) == (len(case["q"]),), "wrong shape {}".format(np.shape(E)))
    q = np.array(case["q"])
    d = E - pv.Er
    require_close(
        pv.distribution.cdf(E), q, 1e-5, 32 * pv.ref.rounding, what="CDF of the quantile"
    )
    lower = q < 0.5
    reached = np.where(lower, pv.ref.cdf(d), pv.ref.sf(d))
    require_close(
        reached,
        np.where(lower, q, 1.0 - q),
        1e-4,
        32 * pv.ref.rounding + 1e-15,
        what="probability beyond the quantile",
    )
    return pv.nontrivial


@obligation(
    "C07",
    "arrays of any shape",
    st.fixed_dictionaries(
        dict(
            p=pv_parameters,
            shape=st.sampled_from([[], [1], [1, 1], [3, 1], [1, 4], [2, 3], [2, 2, 2]]),
            q=lin(0.01, 0.99),
            layout=st.sampled_from(["plain", "transposed", "readonly"]),
        )
    ),
    quick=200,
)
def pv_shapes(case):
    pv = PV(case["p"])
    n = int(np.prod(case["shape"]))
    q = ((case["q"] + 0.618 * np.arange(n)) % 0.98 + 0.01).reshape(case["shape"])
    if case["layout"] == "transposed":
        q = q.T
    if case["layout"] == "readonly":
        q.flags.writeable = False
    with quiet() as record:
        E = pv.distribution.ppf(q)
    if fallback(record):
        require(may_fail(min(np.min(q), 1.0 - np.max(q)), pv.ref), "quantile calculation failed")
        return False
    require(np.shape(E) == np.shape(q), "shape {} instead of {}".format(np.shape(E), np.shape(q)))
    require_close(pv.ref.cdf(np.ravel(E) - pv.Er), np.ravel(q), 1e-4, 32 * pv.ref.rounding + 1e-15, what="share below the quantile")
    for name in ("pdf", "cdf"):
        function = getattr(pv.distribution, name)
        values = function(np.asarray(E))
        require(np.shape(values) == np.shape(E), "shape of " + name)
        require_close(np.ravel(values), [function(float(e)) for e in np.ravel(E)], 1e-12, 1e-300, what=name)
    return pv.nontrivial


# Numbers of numpy as coverage and as quantile, C05 to C07 and C24

KINDS_OF_NUMBERS = ["float64", "float32", "int64", "int32", "uint8"]

typed_coverage = st.fixed_dictionaries(
    dict(
        r=resonance(relative_width=(1e-6, 0.1)),
        kind=st.sampled_from(KINDS_OF_NUMBERS),
        coverage=lin(0.01, 0.95),
        n=st.integers(2, 30),
    )
)


def typed(kind, value):
    """Number of numpy, and the equal number of Python. Integers are zero."""
    number = getattr(np, kind)(value if kind.startswith("float") else 0)
    return number, number.item()


def compare_typed(case, operation):
    cs, ref = build(case["r"]), Reference(case["r"])
    number, plain = typed(case["kind"], case["coverage"])
    with quiet():
        value = operation(cs, number)
        expected = operation(build(case["r"]), plain)
    require(np.shape(value) == np.shape(expected), "shape {}".format(np.shape(value)))
    # The difference of one and a number may be calculated in single precision.
    slack = (1e-4 if case["kind"] == "float32" else 1e-12) * (1.0 if ref.shape == "box" else ref.w)
    require_close(value, expected, 0.0, slack + 8 * EPS * ref.Er, what="result for " + repr(number))
    return case["kind"] != "float64"


@obligation("C06", "numbers of numpy", typed_coverage, quick=150)
def typed_intervals(case):
    return compare_typed(case, lambda cs, c: cs.coverage_interval(c))


@obligation("C05", "numbers of numpy", typed_coverage, quick=150)
def typed_probability_grids(case):
    return compare_typed(case, lambda cs, c: cs.equidistant_probability_grid(c, case["n"]))


@obligation("C24", "numbers of numpy", typed_coverage, quick=150)
def typed_energy_grids(case):
    return compare_typed(case, lambda cs, c: cs.equidistant_energy_grid(c, case["n"]))


@obligation(
    "C07",
    "numbers of numpy",
    st.fixed_dictionaries(
        dict(p=pv_parameters, kind=st.sampled_from(["float64", "float32"]), q=lin(0.05, 0.95))
    ),
    quick=150,
)
def typed_quantiles(case):
    pv = PV(case["p"])
    number, plain = typed(case["kind"], case["q"])
    with quiet() as record:
        value = pv.distribution.ppf(number)
    if fallback(record):
        require(may_fail(min(plain, 1.0 - plain), pv.ref), "quantile calculation failed")
        return False
    require(np.ndim(value) == 0, "result for a scalar has the shape {}".format(np.shape(value)))
    require_close(pv.ref.cdf(value - pv.Er), plain, 1e-4, 32 * pv.ref.rounding, what="share below the quantile")
    return case["kind"] != "float64"


# C20 ----------------------------------------------------------------------------------------------

rule(
    "C20",
    "Random excited states with one to eight decay channels, some of them with zero width. A case is "
    "non-trivial if there are at least two channels with different widths.",
)


@st.composite
def channels_case(draw):
    r = draw(unusual_widths(final=False, max_channels=draw(st.sampled_from([2, 8, 8, 30]))))
    zero = draw(st.lists(st.booleans(), min_size=30, max_size=30))
    for i, pair in enumerate(r["widths"]):
        if zero[i] and pair[0] != "i" and draw(st.booleans()):
            pair[1] = 0.0
    if not any(width for _, width in r["widths"]):
        r["widths"][0][1] = 1e-3
    return dict(r=r, x=draw(st.lists(lin(-3.0, 3.0), min_size=1, max_size=5)))


@obligation("C20", "channels", channels_case(), quick=600)
def channels(case):
    r = case["r"]
    initial, intermediate = states(r)
    ref = Reference(r)
    require_close(intermediate.width, ref.Gamma, 1e-12, what="total width")
    require(
        intermediate.partial_widths == {label(k, r["labels"]): v for k, v in r["widths"]},
        "partial widths changed",
    )
    excitation = build(r)
    E = ref.Er + (0.15 if ref.shape == "box" else ref.w) * np.array(case["x"])
    total = excitation(E)
    require_close(
        excitation.energy_integrated_cross_section, ref.I, RTOL_CONST, what="excitation strength"
    )
    require_close(excitation.final_state_branching_ratio, 1.0, 1e-12)
    summed = 0.0
    strength_sum = 0.0
    for name, width in r["widths"]:
        cs = build(r, final=name)
        value = cs(E)
        ratio = width / ref.Gamma
        require_close(value, ratio * total, 1e-12, 1e-290, what="cross section of channel " + name)
        require_close(
            cs.energy_integrated_cross_section,
            Reference(r, final=name).I,
            RTOL_CONST,
            what="strength of channel " + name,
        )
        require_close(cs.final_state_branching_ratio, ratio, 1e-12, what="branching ratio")
        summed = summed + value
        strength_sum += cs.energy_integrated_cross_section
    require_close(summed, total, 1e-11, 1e-290, what="sum over all channels")
    require_close(
        strength_sum, excitation.energy_integrated_cross_section, 1e-11, what="sum of strengths"
    )
    return len({w for _, w in r["widths"]}) > 1


@obligation(
    "C20",
    "total width",
    st.fixed_dictionaries(
        dict(
            widths=st.one_of(
                st.lists(st.one_of(st.just(0.0), log(1e-12, 1e-3)), min_size=1, max_size=12),
                st.builds(
                    lambda n, seed: many(n, seed, 1e-12, 1e-3, True), st.integers(12, 100), SEEDS
                ),
            ),
            keys=st.permutations(list(range(12))),
            two_J=st.integers(0, 20),
            parity=st.sampled_from([-1, 1]),
            E=log(1e-3, 30.0),
            own=st.booleans(),
        )
    ),
    quick=600,
)
def total_width(case):
    keys = ["{}/2^+_{}".format(k, k % 3) for k in case["keys"]]
    if case["own"]:
        # The label of the state itself
        keys[0] = "x"
    keys += ["{}^-_{}".format(k, k % 5) for k in range(len(case["widths"]) - len(keys))]
    widths = dict(zip(keys, case["widths"]))
    state = State("x", case["two_J"], case["parity"], case["E"], dict(widths))
    require_close(state.width, float(np.sum(case["widths"])), 1e-12, what="total width")
    require(state.partial_widths == widths, "partial widths changed")
    require(
        (state.J_pi, state.two_J, state.parity, state.excitation_energy)
        == ("x", case["two_J"], case["parity"], case["E"]),
        "properties of the state changed",
    )
    ground = GroundState("y", case["two_J"], case["parity"])
    require(
        (ground.J_pi, ground.two_J, ground.parity, ground.excitation_energy)
        == ("y", case["two_J"], case["parity"], 0.0),
        "properties of the ground state changed",
    )
    return len(case["widths"]) > 1


# C24 ----------------------------------------------------------------------------------------------

rule(
    "C24",
    "Random resonances, nonresonant and constant cross sections and sums, limits (integers and "
    "floating-point numbers in several containers), coverages and numbers of points. A case is "
    "non-trivial if there are at least three points.",
)


def any_cross_section(kind, r):
    if kind == "resonance":
        return build(r)
    if kind == "kn":
        return KleinNishina(r["two_J0"] + 1)
    if kind == "xrmac":
        return xrmac_cm2_per_g["Fe"]
    if kind == "constant":
        return ConstantCrossSection(2.5)
    if kind == "product":
        return 3 * build(r)
    return build(r) + KleinNishina(6) * 0.5 + 1


@obligation(
    "C24",
    "limits",
    st.fixed_dictionaries(
        dict(
            r=resonance(),
            kind=st.sampled_from(["resonance", "kn", "xrmac", "constant", "product", "sum"]),
            a=st.one_of(lin(-5.0, 20.0), st.integers(-5, 20)),
            width=st.one_of(log(1e-6, 1e3), st.integers(1, 20), log(1e-30, 1e30)),
            n=st.one_of(st.integers(2, 300), st.integers(2, 300), st.integers(300, 10000), st.integers(10000, 100000)),
            container=CONTAINERS,
            reverse=st.integers(0, 4).map(lambda v: v == 4),
        )
    ),
    quick=1000,
)
def equidistant_limits(case):
    cs = any_cross_section(case["kind"], case["r"])
    a, b = case["a"], case["a"] + case["width"]
    if case["reverse"]:
        a, b = b, a
    n = case["n"]
    grid = cs.equidistant_energy_grid(limits_container([a, b], case["container"]), count(n))
    require(np.shape(grid) == (n,), "shape {} instead of ({},)".format(np.shape(grid), n))
    scale = EPS * (abs(a) + abs(b))
    require_close((grid[0], grid[-1]), (a, b), 0.0, scale, what="limits")
    expected = a + (b - a) * np.arange(n) / (n - 1.0)
    require_close(grid, expected, 0.0, 4.0 * scale, what="grid")
    require_close(np.diff(grid), (b - a) / (n - 1.0), 0.0, 8.0 * scale, what="steps")
    if case["kind"] in ("kn", "xrmac", "constant") and not case["reverse"]:
        # No structure: equal probabilities are equal steps by definition of the library.
        grid = cs.equidistant_probability_grid(limits_container([a, b], case["container"]), count(n))
        require_close(grid, expected, 0.0, 4.0 * scale, what="grid of a nonresonant cross section")
    return n > 2


@obligation(
    "C24",
    "coverage",
    st.fixed_dictionaries(
        dict(
            r=resonance(),
            coverage=st.one_of(lin(0.001, 0.999), log(1e-4, 0.5).map(lambda v: 1.0 - v)),
            n=st.one_of(st.integers(2, 300), st.integers(2, 300), st.integers(300, 5000)),
        )
    ),
    quick=1000,
)
def equidistant_coverage(case):
    r, n, c = case["r"], case["n"], case["coverage"]
    ref = Reference(r)
    cs = build(r)
    grid = cs.equidistant_energy_grid(c, count(n))
    a, b = cs.coverage_interval(c)
    require(np.shape(grid) == (n,), "shape {} instead of ({},)".format(np.shape(grid), n))
    scale = EPS * (abs(a) + abs(b))
    require_close(grid, a + (b - a) * np.arange(n) / (n - 1.0), 0.0, 8.0 * scale, what="grid")
    require((np.diff(grid) >= -scale).all(), "grid is not increasing")
    if a > 0.0:
        # Independent of the coverage interval of the library
        share = ref.between(grid[0] - ref.Er, grid[-1] - ref.Er)
        require_close(share, c, 1e-5, 1e3 * ref.rounding, what="covered share")
        require_close(
            0.5 * (grid[0] + grid[-1]), ref.Er, 0.0, 1e-5 * ref.w + 4 * EPS * ref.Er, what="center"
        )
    return n > 2
