"""C29: line shapes defined by the user"""

import numpy as np
import scipy.stats
from hypothesis import strategies as st

from gen import CONTAINERS, EPS, HBARC, RTOL_CONST, SEEDS, limits_container, lin, log, many
from vlib import obligation, quiet, require, require_close, rule
from ries.constituents.state import GroundState, State
from ries.cross_section import ConstantCrossSection
from ries.resonance.recoil import FreeNucleusRecoil, NoRecoil
from ries.resonance.resonance import Resonance

rule(
    "C29",
    "Resonances with ten distributions, most of them asymmetric, from a library or written by the "
    "user. A case is non-trivial if the median differs from the center of the coverage interval by "
    "more than one percent of its length, or if a limit is outside of the domain.",
)

# Distributions of t = (E - loc)/scale: density, share below and above, quantile


class Shape:
    def __init__(self, name, c, heights):
        self.name = name
        self.c = c
        self.heights = np.array(heights)
        self.edges = np.concatenate([[0.0], np.cumsum(self.heights)]) / np.sum(self.heights)
        self.lower, self.upper = {
            "expon": (0.0, np.inf),
            "weibull_min": (0.0, np.inf),
            "triang": (0.0, 1.0),
            "powerlaw": (0.0, 1.0),
            "beta": (0.0, 1.0),
            "exponweib": (0.0, np.inf),
            "uniform": (0.0, 1.0),
            "ramp": (0.0, 1.0),
            "histogram": (0.0, 1.0),
        }.get(name, (-np.inf, np.inf))

    def pdf(self, t):
        t = np.asarray(t, dtype=float)
        c, n = self.c, len(self.heights)
        inside = (t >= self.lower) & (t <= self.upper)
        s = np.clip(t, self.lower, self.upper)
        if self.name == "expon":
            value = np.exp(-s)
        elif self.name == "weibull_min":
            value = c * s ** (c - 1.0) * np.exp(-(s**c))
        elif self.name == "triang":
            p = c / 6.0
            value = np.where(s < p, 2.0 * s / p, 2.0 * (1.0 - s) / (1.0 - p))
        elif self.name == "powerlaw":
            value = c * s ** (c - 1.0)
        elif self.name == "beta":
            value = c * (1.0 - s) ** (c - 1.0)
        elif self.name == "exponweib":
            a, e = 1.0 + 0.2 * c, np.exp(-(s**c))
            value = a * c * (1.0 - e) ** (a - 1.0) * e * s ** (c - 1.0)
        elif self.name == "uniform":
            value = np.ones(t.shape)
        elif self.name == "ramp":
            value = 2.0 * s
        elif self.name == "histogram":
            i = np.minimum((s * n).astype(int), n - 1)
            value = self.heights[i] * n / np.sum(self.heights)
        elif self.name == "laplace":
            value = 0.5 * np.exp(-np.abs(s))
        elif self.name == "logistic":
            value = np.exp(-np.abs(s)) / (1.0 + np.exp(-np.abs(s))) ** 2
        else:
            value = np.exp(-s - np.exp(-s))
        return np.where(inside, value, 0.0)

    def cdf(self, t):
        t = np.asarray(t, dtype=float)
        s = np.clip(t, self.lower, self.upper)
        c, n = self.c, len(self.heights)
        if self.name == "expon":
            return -np.expm1(-s)
        if self.name == "weibull_min":
            return -np.expm1(-(s**c))
        if self.name == "triang":
            p = c / 6.0
            return np.where(s < p, s * s / p, 1.0 - (1.0 - s) ** 2 / (1.0 - p))
        if self.name == "powerlaw":
            return s**c
        if self.name == "beta":
            return 1.0 - (1.0 - s) ** c
        if self.name == "exponweib":
            return (-np.expm1(-(s**c))) ** (1.0 + 0.2 * c)
        if self.name == "uniform":
            return s
        if self.name == "ramp":
            return s * s
        if self.name == "histogram":
            return np.interp(s, np.linspace(0.0, 1.0, n + 1), self.edges)
        if self.name == "laplace":
            return np.where(s < 0.0, 0.5 * np.exp(-np.abs(s)), 1.0 - 0.5 * np.exp(-np.abs(s)))
        if self.name == "logistic":
            return np.where(s < 0.0, np.exp(-np.abs(s)), 1.0) / (1.0 + np.exp(-np.abs(s)))
        return np.exp(-np.exp(-s))

    def ppf(self, q):
        q = np.asarray(q, dtype=float)
        c, n = self.c, len(self.heights)
        with np.errstate(all="ignore"):
            if self.name == "expon":
                return -np.log1p(-q)
            if self.name == "weibull_min":
                return (-np.log1p(-q)) ** (1.0 / c)
            if self.name == "triang":
                p = c / 6.0
                return np.where(q < p, np.sqrt(p * q), 1.0 - np.sqrt((1.0 - q) * (1.0 - p)))
            if self.name == "powerlaw":
                return q ** (1.0 / c)
            if self.name == "beta":
                return 1.0 - (1.0 - q) ** (1.0 / c)
            if self.name == "exponweib":
                return (-np.log1p(-(q ** (1.0 / (1.0 + 0.2 * c))))) ** (1.0 / c)
            if self.name == "uniform":
                return q
            if self.name == "ramp":
                return np.sqrt(q)
            if self.name == "histogram":
                return np.interp(q, self.edges, np.linspace(0.0, 1.0, n + 1))
            if self.name == "laplace":
                return np.where(q < 0.5, np.log(2.0 * q), -np.log(2.0 * (1.0 - q)))
            if self.name == "logistic":
                return np.log(q) - np.log1p(-q)
            return -np.log(-np.log(q))


class UserDistribution:
    """Class with the required methods, but without relation to scipy"""

    def __init__(self, shape):
        self.shape = shape

    def pdf(self, E, loc, scale):
        return self.shape.pdf((E - loc) / scale) / scale

    def cdf(self, E, loc, scale):
        return self.shape.cdf((np.asarray(E) - loc) / scale)

    def ppf(self, quantile, loc, scale):
        return loc + scale * self.shape.ppf(quantile)


class UserResonance(Resonance):
    def __init__(self, distribution, parameters, *states, **arguments):
        Resonance.__init__(self, *states, **arguments)
        self.probability_distribution = distribution
        self.probability_distribution_parameters = parameters


SCIPY = ["expon", "weibull_min", "triang", "powerlaw", "uniform", "laplace", "logistic", "gumbel_r"]
SCIPY += ["beta", "exponweib"]
names = st.sampled_from(SCIPY + ["ramp", "histogram"])

shape_case = dict(
    name=names,
    user=st.booleans(),
    subclass=st.booleans(),
    c=st.one_of(lin(1.0, 5.0), st.sampled_from([1.0, 2.0])),
    heights=st.lists(log(0.1, 10.0), min_size=1, max_size=6),
    E=log(0.05, 20.0),
    initial=st.one_of(st.just(0.0), lin(0.0, 5.0)),
    width=log(1e-9, 1.0),
    other=st.lists(log(1e-9, 1.0), max_size=2),
    two_J=st.tuples(st.integers(0, 14), st.integers(0, 14)).map(list),
    shift=st.one_of(st.just(0.0), lin(-2.0, 2.0)),
    scale=st.one_of(log(1e-6, 0.1), log(1e-6, 0.1), log(0.1, 3.0)),
    recoil=st.one_of(st.none(), st.none(), log(5.0, 250.0)),
    final=st.booleans(),
    array=st.booleans(),
    # Resonance that was used before the distribution was assigned
    used=st.booleans(),
    # Distribution of scipy with fixed parameters
    frozen=st.booleans(),
)


class Line:
    def __init__(self, case):
        self.shape = Shape(case["name"], case["c"], case["heights"])
        ground = GroundState("0^+_1", case["two_J"][0], 1)
        if case["initial"] > 0.0:
            ground = State("0^+_1", case["two_J"][0], 1, case["initial"], {"x": 1.0})
        widths = {"0^+_1": case["width"]}
        widths.update({"c{}".format(i): w for i, w in enumerate(case["other"])})
        state = State("1^-_1", case["two_J"][1], -1, case["initial"] + case["E"], widths)
        difference = state.excitation_energy - ground.excitation_energy
        recoil = NoRecoil() if case["recoil"] is None else FreeNucleusRecoil(case["recoil"])
        arguments = {}
        if case["recoil"] is not None:
            arguments["recoil_correction"] = recoil
        self.branching = 1.0
        if case["final"]:
            arguments["final_state"] = ground
            self.branching = case["width"] / sum(widths.values())
        self.Er = float(recoil(difference))
        self.scale = case["scale"] * case["E"]
        self.loc = self.Er + case["shift"] * self.scale
        self.I = (
            (np.pi * HBARC / self.Er) ** 2
            * (case["two_J"][1] + 1.0)
            / (case["two_J"][0] + 1.0)
            * case["width"]
            * self.branching
        )
        parameters = [self.loc, self.scale]
        if case["user"] or case["name"] not in SCIPY:
            distribution = UserDistribution(self.shape)
        else:
            distribution = getattr(scipy.stats, case["name"])
            if case["name"] in ("weibull_min", "powerlaw"):
                parameters = [case["c"]] + parameters
            if case["name"] == "triang":
                parameters = [case["c"] / 6.0] + parameters
            if case["name"] == "beta":
                parameters = [1.0, case["c"]] + parameters
            if case["name"] == "exponweib":
                parameters = [1.0 + 0.2 * case["c"], case["c"]] + parameters
            if case["frozen"]:
                distribution = distribution(*parameters)
                parameters = []
        parameters = np.array(parameters) if case["array"] else tuple(parameters)
        if case["subclass"]:
            self.cs = UserResonance(distribution, parameters, ground, state, **arguments)
        else:
            self.cs = Resonance(ground, state, **arguments)
            if case["used"]:
                # The former shape must not have any influence.
                with quiet():
                    for c in (0.5, case.get("coverage", 0.9)):
                        self.cs.coverage_interval(c)
                        self.cs.equidistant_probability_grid(c, case.get("n", 5))
                    self.cs.equidistant_energy_grid(0.5, case.get("n", 5))
                    self.cs.equidistant_probability_grid((0.5 * self.Er, 2.0 * self.Er), case.get("n", 5))
                    self.cs(self.Er * np.array([0.5, 1.0, 2.0]))
            self.cs.probability_distribution = distribution
            self.cs.probability_distribution_parameters = parameters
        # Rounding errors of an energy in units of the scale
        self.rounding = 4.0 * EPS * (self.Er + abs(self.loc)) / self.scale

    def energy(self, t):
        return self.loc + self.scale * np.asarray(t)

    def between(self, E):
        """Shares between neighbouring energies"""
        return np.diff(self.shape.cdf((np.asarray(E) - self.loc) / self.scale))

    def steepness(self):
        # Largest density in units of the scale. All are bounded for c >= 1.
        return 6.0 * max(1.0, self.shape.c) * max(1.0, len(self.shape.heights) * 10.0)


@obligation(
    "C29",
    "values",
    st.fixed_dictionaries(
        dict(shape_case, t=st.lists(st.one_of(lin(-1.5, 2.5), lin(-20.0, 20.0)), min_size=1, max_size=6))
    ),
    quick=500,
)
def user_values(case):
    line = Line(case)
    require_close(line.cs.energy_integrated_cross_section, line.I, RTOL_CONST, what="strength")
    # Not at the discontinuities
    t = np.array(case["t"])
    jumps = np.linspace(0.0, 1.0, len(case["heights"]) + 1)
    near = np.min(np.abs(t[:, None] - jumps[None, :]), axis=1) < 1e-6 + 10 * line.rounding
    t = t[~near]
    if len(t) == 0:
        return False
    E = line.energy(t)
    expected = line.I * line.shape.pdf(t) / line.scale
    tol = line.I / line.scale * (1e-12 + 100 * line.rounding) * line.steepness()
    require_close(line.cs(E), expected, RTOL_CONST + 1e-9, tol, what="cross section")
    require_close(
        line.cs(E - line.Er, input_is_absolute_energy=False),
        expected,
        RTOL_CONST + 1e-9,
        tol,
        what="cross section at relative energies",
    )
    for x, y in zip(E, expected):
        require_close(float(line.cs(float(x))), y, RTOL_CONST + 1e-9, tol, what="cross section")
    total = 2.5 * line.cs + ConstantCrossSection(line.I) + line.cs
    require_close(total(E), 3.5 * expected + line.I, RTOL_CONST + 1e-9, 4 * tol, what="sum")
    return bool(np.any(expected > 0.0))


@obligation(
    "C29",
    "coverage",
    st.fixed_dictionaries(
        dict(
            shape_case,
            coverage=st.one_of(lin(0.0, 0.99), log(1e-4, 0.5).map(lambda x: 1.0 - x), st.sampled_from([0, 1, 0.5])),
            n=st.integers(2, 40),
        )
    ),
    quick=500,
)
def user_coverage(case):
    line = Line(case)
    c = case["coverage"]
    quantiles = np.array([0.5 * (1.0 - c), 0.5 * (1.0 + c)])
    expected = line.energy(line.shape.ppf(quantiles))
    if line.energy(line.shape.ppf(0.5)) <= 0.0:
        # Not a resonance at positive energies
        return False
    slack = (1e-9 / max(0.5 * (1.0 - c), 1e-6) + 1e2 * line.rounding) * line.scale
    cut = expected[0] < 0.0
    with quiet() as record:
        limits = line.cs.coverage_interval(c)
    messages = [str(w.message) for w in record]
    if abs(expected[0]) > slack or cut and np.isinf(expected[0]):
        require(any("negative" in m for m in messages) == bool(cut), "warnings {!r} for {!r}".format(messages, expected))
    require(any("nfinite" in m for m in messages) == bool(np.isinf(expected[1])), "infinite upper limit")
    if cut:
        expected[0] = 0.0
    for value, target in zip(limits, expected):
        if np.isinf(target):
            require(value == target, "limit {!r} instead of infinity".format(value))
        else:
            require_close(value, target, 1e-12, slack, what="coverage interval")
    with quiet():
        grid = line.cs.equidistant_probability_grid(c, case["n"])
        even = line.cs.equidistant_energy_grid(c, case["n"]) if np.isfinite(expected[1]) else None
    require(len(grid) == case["n"], "number of points")
    for value, target in zip((grid[0], grid[-1]), expected):
        if np.isinf(target):
            require(value == target, "limit {!r} instead of infinity".format(value))
        else:
            require_close(value, target, 1e-12, slack, what="limits of the grid")
    with np.errstate(invalid="ignore"):
        require((np.diff(grid[np.isfinite(grid)]) >= 0.0).all(), "grid is not increasing")
    shares = line.between(grid)
    tol = 1e-9 + 1e2 * line.rounding * line.steepness()
    require_close(shares, np.full(case["n"] - 1, np.mean(shares)), 1e-9, tol, what="shares")
    if not cut:
        require_close(np.sum(shares), c, 0.0, tol, what="covered share")
        # The same share on both sides of the median
        median = float(line.energy(line.shape.ppf(0.5)))
        left, right = line.between([limits[0], median, limits[1]])
        require_close((left, right), (0.5 * c, 0.5 * c), 0.0, tol, what="shares on both sides")
    if even is not None:
        require_close(even, np.linspace(*expected, case["n"]), 1e-12, slack, what="equidistant grid")
        length = expected[1] - expected[0]
        center = float(line.energy(line.shape.ppf(0.5))) - 0.5 * (expected[0] + expected[1])
        return abs(center) > 0.01 * length
    return True


@obligation(
    "C29",
    "limits",
    st.fixed_dictionaries(
        dict(
            shape_case,
            limits=st.lists(st.one_of(lin(-0.5, 1.5), lin(0.0, 1.0), lin(-5.0, 5.0)), min_size=2, max_size=2),
            n=st.one_of(st.integers(2, 40), st.integers(2, 2000)),
            container=CONTAINERS,
            repeat=st.booleans(),
        )
    ),
    quick=500,
)
def user_limits(case):
    line = Line(case)
    a, b = (float(v) for v in line.energy(sorted(case["limits"])))
    a = max(0.0, a)
    if not b > a * (1 + 1e-12):
        return False
    limits = limits_container([a, b], case["container"])
    with quiet() as record:
        grid = line.cs.equidistant_probability_grid(limits, case["n"])
        if case["repeat"]:
            again = line.cs.equidistant_probability_grid(limits, case["n"])
            require(np.array_equal(grid, again), "another grid when repeated")
    require(len(record) == 0, "warning {}".format([str(w.message) for w in record]))
    require(np.shape(grid) == (case["n"],), "shape {} of the grid".format(np.shape(grid)))
    require(grid[0] == a and grid[-1] == b, "limits of the grid")
    require(np.isfinite(grid).all() and (np.diff(grid) >= 0.0).all(), "grid is not increasing")
    shares = line.between(grid)
    tol = 1e-9 + 1e2 * line.rounding * line.steepness()
    if np.sum(shares) > 1e-6:
        require_close(shares, np.full(case["n"] - 1, np.mean(shares)), 1e-9, tol, what="shares")
    even = line.cs.equidistant_energy_grid(limits, case["n"])
    require_close(even, np.linspace(a, b, case["n"]), 1e-13, 1e-13 * b, what="equidistant grid")
    total = 2 * line.cs + 1.0
    union = total.equidistant_probability_grid(limits, case["n"])
    require(np.array_equal(union, np.unique(np.concatenate([grid, np.linspace(a, b, case["n"])]))), "grid of a sum")
    outside = a < line.energy(line.shape.lower) or b > line.energy(line.shape.upper)
    return bool(outside) or np.sum(shares) > 0.01


@obligation(
    "C29",
    "several lines",
    st.fixed_dictionaries(
        dict(
            first=st.fixed_dictionaries(shape_case),
            second=st.fixed_dictionaries(shape_case),
            t=SEEDS,
            n=st.integers(2, 30),
        )
    ),
    quick=300,
)
def user_several(case):
    """A shape that is assigned to one object does not affect another one."""
    lines = [Line(case["first"]), Line(case["second"])]
    ground = GroundState("0^+_1", 0, 1)
    state = State("1^-_1", 2, -1, 5.0, {"0^+_1": 1e-3})
    box = Resonance(ground, state)
    height = (np.pi * HBARC / 5.0) ** 2 * 3.0 * 1e-3
    require_close(box(np.array([4.4, 4.6, 5.0, 5.4, 5.6])), height * np.array([0, 1, 1, 1, 0]), RTOL_CONST, what="box")
    for line in lines:
        t = np.sort(many(5, case["t"], 0.05, 0.95))
        E = line.energy(line.shape.ppf(t))
        jumps = np.linspace(0.0, 1.0, len(line.shape.heights) + 1)
        near = np.min(np.abs(line.shape.ppf(t)[:, None] - jumps[None, :]), axis=1) < 1e-6 + 10 * line.rounding
        t, E = t[~near], E[~near]
        expected = line.I * line.shape.pdf(line.shape.ppf(t)) / line.scale
        tol = line.I / line.scale * (1e-12 + 100 * line.rounding) * line.steepness()
        require_close(line.cs(E), expected, RTOL_CONST + 1e-9, tol, what="cross section")
    return case["first"]["name"] != case["second"]["name"]
