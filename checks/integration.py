"""C18, C19, C21: numerical integration"""

import functools
import math

import numpy as np
from hypothesis import strategies as st

from gen import (
    STYLES,
    as_callable,
    CONTAINERS,
    EPS,
    SEEDS,
    Reference,
    build,
    gauss_legendre,
    limits_container,
    lin,
    log,
    many,
    resonance,
    unit,
)
from vlib import obligation, quiet, require, require_close, rule
from ries.integration.darboux import darboux
from ries.integration.quad_partition import quad_partition
from ries.nonresonant.klein_nishina import KleinNishina

rule(
    "C18",
    "Random partitions, values and functions. A case is non-trivial if the partition has at least two "
    "intervals of different length.",
)
rule(
    "C19",
    "Random functions of one to four variables, partitions and limits. A case is non-trivial if the "
    "partition has at least two intervals.",
)
rule(
    "C21",
    "Random resonances and sums of resonances, coverages, limits and numbers of grid points. A case is "
    "non-trivial if the covered share is between 0.1 and 0.999, or if the cross section is a sum.",
)


@st.composite
def partition(draw, min_intervals=1, max_intervals=12, lo=(-10.0, 10.0)):
    x = [draw(lin(*lo))]
    for _ in range(draw(st.integers(min_intervals, max_intervals))):
        x.append(x[-1] + draw(st.one_of(log(1e-3, 10.0), lin(0.1, 2.0))))
    return x


def darboux_reference(f, x):
    low = math.fsum(min(a, b) * (y - z) for a, b, z, y in zip(f[:-1], f[1:], x[:-1], x[1:]))
    high = math.fsum(max(a, b) * (y - z) for a, b, z, y in zip(f[:-1], f[1:], x[:-1], x[1:]))
    return low, high - low


def uneven(x):
    return len({round(v, 6) for v in np.diff(x)}) > 1


@st.composite
def values_on_partition(draw):
    x = draw(partition())
    magnitude = draw(st.one_of(log(1e-6, 1e6), log(1e-60, 1e60)))
    return dict(
        x=x,
        f=[magnitude * draw(st.one_of(lin(-1.0, 1.0), st.sampled_from([0.0, 1.0]))) for _ in x],
        offset=magnitude * draw(st.sampled_from([0.0, 0.0, 2.0, -2.0])),
    )


@obligation("C18", "sums", values_on_partition(), quick=1500)
def sums(case):
    x = np.array(case["x"])
    f = np.array(case["f"]) + case["offset"]
    low, difference = darboux_reference(f.tolist(), x.tolist())
    size = float(np.sum(np.maximum(np.abs(f[1:]), np.abs(f[:-1])) * np.diff(x)))
    table = dict(zip(x.tolist(), f.tolist()))

    def function(z):
        return np.array([table[v] for v in np.asarray(z).tolist()])

    for argument in (f, function):
        result = darboux(argument, x)
        require(len(result) == 2, "result is not a pair")
        require_close(result[0], low, 1e-13, 1e-13 * size, what="lower sum")
        require_close(result[1], difference, 1e-13, 1e-13 * size, what="difference of the sums")
        require(result[1] >= 0.0, "difference is negative")
    return uneven(x)


@obligation(
    "C18",
    "large partitions",
    st.fixed_dictionaries(
        dict(
            n=st.one_of(st.integers(1, 5), st.integers(2, 400), st.integers(400, 6000), st.integers(6000, 60000)),
            seed=SEEDS,
            start=st.one_of(lin(-1e3, 1e3), st.just(0.0)),
            step=st.one_of(log(1e-6, 1e3), log(1e-30, 1e30)),
            magnitude=st.one_of(log(1e-9, 1e9), log(1e-60, 1e60)),
            offset=st.sampled_from([0.0, 1.0, -1.0]),
            integer=st.booleans(),
        )
    ),
    quick=300,
)
def large_partitions(case):
    n = case["n"]
    steps = many(n - 1, case["seed"], 0.01, 1.0) if n > 1 else []
    f = case["magnitude"] * (np.array(many(n, case["seed"] + 1, -1.0, 1.0)) + case["offset"])
    if case["integer"]:
        # Integer positions and values
        x = np.cumsum([int(case["start"])] + [1 + int(10 * s) for s in steps])
        f = np.rint(1e3 * f / case["magnitude"]).astype(int)
    else:
        x = case["start"] + case["step"] * np.cumsum([0.0] + steps)
    low, difference = darboux_reference(f.tolist(), x.tolist())
    size = float(np.sum(np.maximum(np.abs(f[1:]), np.abs(f[:-1])) * np.diff(x)))
    before = x.copy(), f.copy()
    for argument in (f, lambda z: f):
        result = darboux(argument, x)
        require_close(result[0], low, 0.0, 1e-12 * size, what="lower sum")
        require_close(result[1], difference, 0.0, 1e-12 * size, what="difference of the sums")
    require(np.array_equal(x, before[0]) and np.array_equal(f, before[1]), "arguments changed")
    # Shifting or scaling the partition
    shifted = darboux(f, x + 3)
    scaled = darboux(f, 2 * x)
    slack = 1e-11 * size + 4 * EPS * (np.max(np.abs(x)) + 3.0) * np.sum(np.abs(f)) * 2.0
    require_close(shifted, (low, difference), 0.0, slack, what="shifted partition")
    require_close(scaled, (2 * low, 2 * difference), 0.0, slack, what="stretched partition")
    return n > 2


MONOTONE = {
    # name: (function, antiderivative)
    "exp": (lambda x: np.exp(x), lambda x: np.exp(x)),
    "decay": (lambda x: np.exp(-x), lambda x: -np.exp(-x)),
    "linear": (lambda x: 2.0 * x - 1.0, lambda x: x * x - x),
    "cubic": (lambda x: -(x**3), lambda x: -0.25 * x**4),
    "arctan": (lambda x: np.arctan(x), lambda x: x * np.arctan(x) - 0.5 * np.log1p(x * x)),
    "step": (lambda x: np.where(x < 0.5, -1.0, 3.0), lambda x: np.where(x < 0.5, -(x - 0.5), 3.0 * (x - 0.5))),
    "constant": (lambda x: 0.0 * x + 2.5, lambda x: 2.5 * x),
    # Monotonous on both sides of zero, which is a point of the partition
    "parabola": (lambda x: x * x, lambda x: x**3 / 3.0),
    "lorentz": (lambda x: 1.0 / (1.0 + x * x), lambda x: np.arctan(x)),
    "modulus": (lambda x: -np.abs(x), lambda x: -0.5 * x * np.abs(x)),
}


@obligation(
    "C18",
    "bounds and refinement",
    st.fixed_dictionaries(
        dict(
            function=st.sampled_from(sorted(MONOTONE)),
            x=partition(lo=(-5.0, 2.0), max_intervals=8),
            refine=st.lists(unit, min_size=1, max_size=6),
            shift=lin(-3.0, 3.0),
            scale=st.sampled_from([1.0, 1.0, -1.0, 10.0]),
        )
    ),
    quick=1500,
)
def bounds(case):
    function, antiderivative = MONOTONE[case["function"]]
    x = np.array([v for v in case["x"] if v < 20.0] or [0.0])
    x = np.unique(np.append(x, [0.0, x[0] + 0.5]))

    def f(z):
        return case["scale"] * (function(z) + case["shift"])

    exact = case["scale"] * (
        float(antiderivative(x[-1]) - antiderivative(x[0])) + case["shift"] * (x[-1] - x[0])
    )
    fine = np.unique(np.append(x, x[0] + (x[-1] - x[0]) * np.array(case["refine"])))
    fine = np.clip(fine, x[0], x[-1])
    size = float(np.sum(np.maximum(np.abs(f(x))[1:], np.abs(f(x))[:-1]) * np.diff(x)))
    size += abs(float(antiderivative(x[-1]))) + abs(float(antiderivative(x[0])))
    tol = 1e-12 * (size + 1.0)
    low, difference = darboux(f, x)
    require(low - tol <= exact, "lower sum {!r} above the integral {!r}".format(low, exact))
    require(low + difference + tol >= exact, "upper sum below the integral {!r}".format(exact))
    low_fine, difference_fine = darboux(f, fine)
    require(low_fine >= low - tol, "lower sum decreases by refinement")
    require(low_fine + difference_fine <= low + difference + tol, "upper sum increases by refinement")
    require_close(darboux(f(fine), fine), (low_fine, difference_fine), 1e-13, tol)
    return uneven(fine)


@obligation(
    "C18",
    "infinite values",
    st.builds(
        lambda v, i, sign: dict(v, i=i, sign=sign), values_on_partition(), st.integers(0, 99), st.sampled_from([-1, 1])
    ),
    quick=200,
)
def infinite_values(case):
    """A pole at one point makes one of the sums infinite, and leaves the other one as it is"""
    x, f = np.array(case["x"]), np.array(case["f"])
    i = case["i"] % len(f)
    f[i] = np.inf * case["sign"]
    if case["sign"] < 0:
        expected = -np.inf
    else:
        expected = float(np.sum(np.minimum(f[1:], f[:-1]) * np.diff(x)))
    tolerance = 1e-12 * float(np.sum(np.where(np.isinf(f), 0.0, np.abs(f)))) * (x[-1] - x[0])
    for argument in (f, lambda z: f):
        low, difference = darboux(argument, x)
        require(np.isinf(difference) and difference > 0.0, "difference {!r} of the sums".format(difference))
        require_close(low, expected, 0.0, tolerance, what="lower sum")
    return len(f) > 2


class Polynomial:
    """Callable object that has a length, and entries that are not its values"""

    def __init__(self, c):
        self.c = c

    def __len__(self):
        return len(self.c)

    def __getitem__(self, i):
        return self.c[i]

    def __call__(self, x):
        return np.polyval(self.c, x)


CALLABLES = dict(
    poly1d=np.poly1d,
    polynomial=np.polynomial.Polynomial,
    partial=lambda c: functools.partial(np.polyval, c),
    vectorized=lambda c: np.vectorize(lambda x: float(np.polyval(c, x))),
    own=Polynomial,
    method=lambda c: Polynomial(c).__call__,
)


@obligation(
    "C18",
    "callable objects",
    st.fixed_dictionaries(
        dict(
            kind=st.sampled_from(sorted(CALLABLES)),
            c=st.lists(lin(-3.0, 3.0), min_size=1, max_size=5),
            x=partition(max_intervals=5, lo=(-3.0, 3.0)),
        )
    ),
    quick=200,
)
def callable_objects(case):
    f = CALLABLES[case["kind"]](case["c"])
    x = np.array(case["x"])
    values = np.array([float(f(v)) for v in case["x"]])
    low, difference = darboux_reference(values.tolist(), case["x"])
    size = float(np.sum(np.maximum(np.abs(values[1:]), np.abs(values[:-1])) * np.diff(x)))
    require_close(darboux(f, x), (low, difference), 0.0, 1e-12 * size, what="sums of a callable object")
    return uneven(x)


@obligation(
    "C18",
    "repeated points",
    st.builds(lambda v, i: dict(v, repeat=i), values_on_partition(), st.lists(st.integers(0, 99), min_size=1, max_size=5)),
    quick=300,
)
def repeated_points(case):
    """A function with steps has two values at the same point, which belong to the intervals on both sides"""
    x, f = list(case["x"]), list(case["f"])
    for i in case["repeat"]:
        i = i % len(x)
        x.insert(i, x[i])
        f.insert(i, f[(7 * i + 1) % len(f)])
    low, difference = darboux_reference(f, x)
    x, f = np.array(x), np.array(f)
    size = float(np.sum(np.maximum(np.abs(f[1:]), np.abs(f[:-1])) * np.diff(x)))
    for argument in (f, lambda z: f):
        require_close(darboux(argument, x), (low, difference), 0.0, 1e-13 * size, what="sums with repeated points")
    return uneven(x)


@obligation(
    "C18",
    "additivity",
    st.builds(lambda v, i: dict(v, split=i), values_on_partition(), st.integers(0, 99)),
    quick=500,
)
def additivity(case):
    x, f = np.array(case["x"]), np.array(case["f"])
    i = 1 + case["split"] % (len(x) - 1)
    whole = darboux(f, x)
    a = darboux(f[: i + 1], x[: i + 1])
    b = darboux(f[i:], x[i:]) if i < len(x) - 1 else (0.0, 0.0)
    size = float(np.sum(np.maximum(np.abs(f[1:]), np.abs(f[:-1])) * np.diff(x)))
    require_close(a[0] + b[0], whole[0], 0.0, 1e-12 * size, what="sum of the lower sums")
    require_close(a[1] + b[1], whole[1], 0.0, 1e-12 * size, what="sum of the differences")
    # The negative function exchanges both sums
    negative = darboux(-f, x)
    require_close(negative[0], -(whole[0] + whole[1]), 0.0, 1e-12 * size, what="negative function")
    require_close(negative[1], whole[1], 0.0, 1e-12 * size, what="negative function")
    return i < len(x) - 1


# C19 ----------------------------------------------------------------------------------------------


@st.composite
def quad_case(draw):
    dimension = draw(st.sampled_from([1, 1, 1, 2, 2, 3]))
    limits = []
    for _ in range(dimension - 1):
        # Limits of different coordinates may be equal.
        a = draw(st.sampled_from([v[0] for v in limits] + [draw(lin(-2.0, 2.0))]))
        b = draw(st.sampled_from([v[1] for v in limits] + [a + draw(lin(0.1, 3.0))]))
        limits.append([a, b if b >= a + 0.1 else a + 1.0])
    # Terms: coefficient, powers per coordinate
    terms = draw(
        st.lists(
            st.tuples(lin(-3.0, 3.0), st.lists(st.integers(0, 3), min_size=3, max_size=3)).map(list),
            min_size=1,
            max_size=4,
        )
    )
    largest = {1: draw(st.sampled_from([5, 5, 5, 60])), 2: 5, 3: 2}[dimension]
    x0 = draw(partition(max_intervals=largest, lo=(-2.0, 2.0)))
    return dict(
        x0=[x0[0] + 4.0 * (v - x0[0]) / max(4.0, x0[-1] - x0[0]) for v in x0],
        limits=limits,
        terms=terms,
        rate=draw(st.one_of(st.just(0.0), lin(-1.0, 1.0))),
        unit=draw(st.one_of(st.just(1.0), st.just(1.0), log(1e-14, 1e8))),
        containers=[draw(CONTAINERS), draw(CONTAINERS), draw(CONTAINERS)],
        explicit=draw(st.booleans()),
        reverse=draw(st.integers(0, 7)) == 0,
        style=draw(STYLES),
    )


def exp_moments(k, p, a, b):
    x, w = gauss_legendre(30, a, b)
    return float(np.sum(w * x**p * np.exp(k * x)))


@obligation("C19", "exact integrals", quad_case(), quick=300)
def exact_integrals(case):
    limits = case["limits"]
    n = 1 + len(limits)
    x0 = case["x0"]
    if case["reverse"]:
        x0 = x0[::-1]
    unit = case["unit"]

    def f(*x):
        if len(x) != n:
            raise RuntimeError("wrong number of arguments")
        x = (x[0] / unit, *x[1:])
        return math.exp(case["rate"] * x[0]) / unit * sum(
            c * math.prod(v**p for v, p in zip(x, powers)) for c, powers in case["terms"]
        )

    f = as_callable(f, case["style"], n)
    exact = 0.0
    size = 0.0
    for c, powers in case["terms"]:
        term = c * exp_moments(case["rate"], powers[0], x0[0], x0[-1])
        for (a, b), p in zip(limits, powers[1:]):
            term *= (b ** (p + 1) - a ** (p + 1)) / (p + 1)
        exact += term
        bound = abs(c) * math.exp(abs(case["rate"]) * max(abs(v) for v in x0))
        for (a, b), p in zip([[x0[0], x0[-1]], *limits], powers):
            bound *= abs(b - a) * max(abs(a), abs(b)) ** p
        size += bound
    x0 = [unit * v for v in x0]
    containers = case["containers"]
    if n == 1:
        arguments = ([],) if case["explicit"] else ()
    elif containers[1] == "array":
        arguments = (np.array(limits),)
    else:
        arguments = (limits_container([limits_container(v, containers[2]) for v in limits], containers[1]),)
    result = quad_partition(f, limits_container(x0, containers[0]), *arguments)
    require(len(result) == 2, "result is not a pair")
    tol = 1e-6 * (1.0 + abs(exact)) + 1e-12 * size
    require_close(result[0], exact, 0.0, tol, what="integral")
    single = [quad_partition(f, [a, b], *arguments) for a, b in zip(x0[:-1], x0[1:])]
    require_close(result[0], math.fsum(s[0] for s in single), 1e-12, 1e-13 * size, what="sum of integrals")
    error = math.sqrt(math.fsum(s[1] ** 2 for s in single))
    require_close(result[1], error, 1e-9, what="error estimate")
    require(result[1] >= 0.0, "error estimate is negative")
    if n == 1:
        from scipy.integrate import quad

        errors = [quad(f, a, b)[1] for a, b in zip(x0[:-1], x0[1:])]
        require_close(result[1], math.sqrt(math.fsum(e * e for e in errors)), 1e-9, what="error")
    return len(x0) > 2


@obligation(
    "C19",
    "narrow peaks",
    st.fixed_dictionaries(
        dict(
            center=lin(-5.0, 5.0),
            width=log(1e-7, 1.0),
            shape=st.sampled_from(["lorentz", "gauss"]),
            left=lin(1.0, 10.0),
            right=lin(1.0, 10.0),
            container=CONTAINERS,
            second=st.one_of(st.none(), lin(0.5, 2.0)),
        )
    ),
    quick=200,
)
def narrow_peaks(case):
    c, w = case["center"], case["width"]

    def peak(x):
        t = (x - c) / w
        if case["shape"] == "lorentz":
            return 1.0 / (math.pi * w * (1.0 + t * t))
        return math.exp(-min(0.5 * t * t, 700.0)) / (w * math.sqrt(2.0 * math.pi))

    offsets = w * np.array([1.0, 5.0, 25.0, 125.0, 625.0, 3125.0, 1e5])
    left = [c - v for v in offsets[::-1] if v < case["left"]]
    right = [c + v for v in offsets if v < case["right"]]
    x0 = [c - case["left"], *left, c, *right, c + case["right"]]
    if case["shape"] == "lorentz":
        exact = (math.atan(case["left"] / w) + math.atan(case["right"] / w)) / math.pi
    else:
        exact = 0.5 * (
            math.erf(case["left"] / w / math.sqrt(2)) + math.erf(case["right"] / w / math.sqrt(2))
        )
    if case["second"] is None:
        result = quad_partition(peak, limits_container(x0, case["container"]))
    else:
        s = case["second"]
        result = quad_partition(
            lambda x, y: peak(x) * 2.0 * y, limits_container(x0, case["container"]), [[0.0, s]]
        )
        exact *= s * s
    require_close(result[0], exact, 1e-6, 1e-6, what="integral of a peak")
    require(result[1] < 1e-4, "error estimate {!r} is too large".format(result[1]))


# Functions of the second variable with infinite limits, and their integrals from a to b
def density_of_tails(name, s):
    if name == "gauss":
        return (
            lambda y: math.exp(-min(0.5 * (y / s) ** 2, 700.0)),
            lambda y: s * math.sqrt(0.5 * math.pi) * math.erf(y / s / math.sqrt(2.0)),
        )
    if name == "lorentz":
        return lambda y: 1.0 / (1.0 + (y / s) ** 2), lambda y: s * math.atan(y / s)
    return (
        lambda y: math.exp(-min(abs(y) / s, 700.0)),
        lambda y: s * math.copysign(-math.expm1(-abs(y) / s), y),
    )


@obligation(
    "C19",
    "infinite limits",
    st.fixed_dictionaries(
        dict(
            name=st.sampled_from(["gauss", "lorentz", "decay"]),
            s=log(0.3, 3.0),
            x0=partition(max_intervals=3, lo=(-2.0, 2.0)),
            first=st.sampled_from(["finite", "finite", "lower", "upper", "both"]),
            ends=st.lists(st.one_of(lin(-2.0, 2.0), st.just(math.inf)), min_size=2, max_size=2),
            dimension=st.integers(1, 2),
            container=CONTAINERS,
        )
    ),
    quick=60,
)
def infinite_limits(case):
    g, antiderivative = density_of_tails(case["name"], case["s"])
    x0 = [v / 4.0 for v in case["x0"]]
    if case["first"] in ("lower", "both"):
        x0.insert(0, -math.inf)
    if case["first"] in ("upper", "both"):
        x0.append(math.inf)
    exact = antiderivative(x0[-1]) - antiderivative(x0[0])
    arguments = ()
    if case["dimension"] == 2:
        a, b = case["ends"]
        a = min(-a, b) if math.isfinite(a) and math.isfinite(b) else -a
        arguments = ([limits_container([a, b], case["container"])],)
        exact *= antiderivative(b) - antiderivative(a)
        value, error = quad_partition(lambda x, y: g(x) * g(y), x0, *arguments)
    else:
        value, error = quad_partition(g, limits_container(x0, case["container"]))
    # The accuracy of the quadrature is limited by the kink of an exponential decay on both sides.
    require_close(value, exact, 1e-3 if case["name"] == "decay" else 1e-6, 1e-6, what="integral with infinite limits")
    require(0.0 <= error < 1e-3, "error estimate {!r}".format(error))
    return case["first"] != "finite" or (case["dimension"] == 2 and math.inf in case["ends"])


@obligation(
    "C19",
    "four variables",
    st.fixed_dictionaries(
        dict(
            x0=partition(max_intervals=2, lo=(-2.0, 2.0)),
            limits=st.lists(st.tuples(lin(-2.0, 2.0), lin(0.1, 2.0)).map(list), min_size=3, max_size=3),
            powers=st.lists(st.integers(0, 2), min_size=4, max_size=4),
            containers=st.lists(CONTAINERS, min_size=2, max_size=2),
        )
    ),
    quick=4,
)
def four_variables(case):
    a, b, c, d = case["powers"]
    x0 = [v / 4.0 for v in case["x0"]]
    limits = [[lo, lo + length] for lo, length in case["limits"]]
    exact = 1.0
    for (lo, hi), p in zip([[x0[0], x0[-1]]] + limits, case["powers"]):
        exact *= (hi ** (p + 1) - lo ** (p + 1)) / (p + 1)
    value, error = quad_partition(
        lambda x, y, z, t: x**a * y**b * z**c * t**d,
        limits_container(x0, case["containers"][0]),
        limits_container(limits, case["containers"][1]),
    )
    require_close(value, exact, 1e-8, 1e-8, what="integral over four variables")
    require(0.0 <= error < 1e-3, "error estimate {!r}".format(error))
    return limits != sorted(limits)


@obligation(
    "C19",
    "long partitions",
    st.fixed_dictionaries(
        dict(
            n=st.one_of(st.integers(2, 100), st.integers(100, 3000)),
            seed=SEEDS,
            c=st.lists(lin(-3.0, 3.0), min_size=3, max_size=3),
            start=lin(-2.0, 2.0),
            length=lin(0.5, 4.0),
            repeat=st.booleans(),
        )
    ),
    quick=25,
)
def long_partitions(case):
    steps = np.array(many(case["n"], case["seed"], 1e-3, 1.0, True))
    if case["repeat"]:
        # Empty intervals
        steps[:: 7] = 0.0
    if not np.sum(steps) > 0.0:
        return False
    x0 = case["start"] + case["length"] * np.concatenate([[0.0], np.cumsum(steps)]) / np.sum(steps)
    c = case["c"]
    value, error = quad_partition(lambda x: c[0] + x * (c[1] + x * c[2]), x0)
    a, b = float(x0[0]), float(x0[-1])
    exact = c[0] * (b - a) + c[1] * (b**2 - a**2) / 2.0 + c[2] * (b**3 - a**3) / 3.0
    require_close(value, exact, 1e-9, 1e-9, what="integral")
    require(0.0 <= error < 1e-9, "error estimate {!r}".format(error))
    return case["n"] > 1


# C21 ----------------------------------------------------------------------------------------------


def true_between(ref, a, b):
    """Share between two offsets. Numerical integration of the true Voigt profile"""
    if ref.shape != "voigt":
        return float(ref.between(a, b))
    t = np.linspace(np.arcsinh(a / ref.w), np.arcsinh(b / ref.w), 41)
    total = 0.0
    for lo, hi in zip(t[:-1], t[1:]):
        u, weight = gauss_legendre(20, lo, hi)
        total += float(np.sum(weight * ref.w * np.cosh(u) * ref.pdf(ref.w * np.sinh(u))))
    return total


integrable = resonance(
    shapes=("breit_wigner", "gauss", "pseudo_voigt", "voigt"),
    energy=(0.1, 20.0),
    relative_width=(1e-10, 1e-2),
    temperature=(1.0, 1e4),
)


@obligation(
    "C21",
    "Darboux sums enclose the strength",
    st.fixed_dictionaries(
        dict(
            r=integrable,
            coverage=st.one_of(lin(0.05, 0.95), lin(0.9, 0.999)),
            half=st.integers(1, 60),
            grid=st.sampled_from(["probability", "energy", "limits"]),
        )
    ),
    quick=500,
)
def enclosure(case):
    r = case["r"]
    ref = Reference(r)
    cs = build(r)
    n = 2 * case["half"] + 1
    if case["grid"] == "probability":
        E = cs.equidistant_probability_grid(case["coverage"], n)
    elif case["grid"] == "energy":
        E = cs.equidistant_energy_grid(case["coverage"], n)
    else:
        half = ref.Er - cs.coverage_interval(case["coverage"])[0]
        E = cs.equidistant_probability_grid((ref.Er - half, ref.Er + half), n)
    require(len(E) == n, "number of points")
    if E[0] <= 0.0:
        # Cut off at zero energy, not symmetric any more
        return False
    # The maximum is in the middle, because the distribution is symmetric.
    require_close(E[case["half"]], ref.Er, 0.0, 1e-6 * ref.w + 10 * EPS * ref.Er, what="center")
    share = true_between(ref, E[0] - ref.Er, E[-1] - ref.Er)
    if ref.shape != "voigt":
        require_close(share, case["coverage"], 1e-6, 1e3 * ref.rounding, what="covered share")
    else:
        require_close(share, case["coverage"], 0.0, 0.015, what="covered share")
    low, difference = darboux(cs, E)
    exact = share * ref.I
    tol = exact * (2e-6 + 1e3 * ref.rounding)
    require(low <= exact + tol, "lower sum {!r} exceeds {!r}".format(low, exact))
    require(low + difference >= exact - tol, "upper sum {!r} is below {!r}".format(low + difference, exact))
    # Both converge: the gap is bounded by the variation times the largest interval
    peak = float(ref.pdf(0.0))
    require(
        difference <= 2.0 * ref.I * peak * np.max(np.diff(E)) * (1 + 1e-3 + 1e3 * ref.rounding),
        "difference of the sums is too large",
    )
    require_close(darboux(cs(E), E), (low, difference), 1e-12, what="values instead of a function")
    return 0.1 < case["coverage"] < 0.999


@obligation(
    "C21",
    "partitioned integration reproduces the strength",
    st.fixed_dictionaries(
        dict(
            r=integrable,
            coverage=lin(0.05, 0.999),
            n=st.integers(3, 15),
            grid=st.sampled_from(["coverage", "limits"]),
            left=log(0.1, 100.0),
            right=log(0.1, 100.0),
        )
    ),
    quick=250,
)
def partitioned(case):
    r = case["r"]
    ref = Reference(r)
    cs = build(r)
    if case["grid"] == "coverage":
        E = cs.equidistant_probability_grid(case["coverage"], case["n"])
    else:
        lo = max(0.0, ref.Er - case["left"] * ref.w)
        E = cs.equidistant_probability_grid((lo, ref.Er + case["right"] * ref.w), case["n"])
    share = true_between(ref, E[0] - ref.Er, E[-1] - ref.Er)
    # The absolute tolerance of the integration is not small for weak resonances.
    scaled = cs * (1.0 / ref.I)

    def f(energy):
        return float(np.squeeze(scaled(np.array([energy]))))

    value, error = quad_partition(f, E)
    require_close(value, share, 2e-6 + 1e3 * ref.rounding, 1e-6, what="covered share")
    require(0.0 <= error < 1e-4, "error estimate {!r}".format(error))
    return 0.1 < share < 0.999


@obligation(
    "C21",
    "fine grids",
    st.fixed_dictionaries(
        dict(
            r=integrable,
            n=st.integers(100, 900),
            kind=st.sampled_from(["probability", "energy"]),
            left=log(0.1, 100.0),
            right=log(0.1, 100.0),
        )
    ),
    quick=5,
)
def partitioned_finely(case):
    ref = Reference(case["r"])
    cs = build(case["r"])
    limits = (max(0.0, ref.Er - case["left"] * ref.w), ref.Er + case["right"] * ref.w)
    if case["kind"] == "probability":
        E = cs.equidistant_probability_grid(limits, case["n"])
    else:
        E = cs.equidistant_energy_grid(limits, case["n"])
    share = true_between(ref, E[0] - ref.Er, E[-1] - ref.Er)
    scaled = cs * (1.0 / ref.I)
    value, error = quad_partition(lambda e: float(np.squeeze(scaled(np.array([e])))), E)
    require_close(value, share, 2e-6 + 1e3 * ref.rounding, 1e-6, what="covered share")
    require(0.0 <= error < 1e-4, "error estimate {!r}".format(error))
    return 0.1 < share < 0.999


@obligation(
    "C21",
    "sums of cross sections",
    st.fixed_dictionaries(
        dict(
            r=resonance(
                shapes=("breit_wigner", "gauss", "pseudo_voigt", "voigt"),
                energy=(0.5, 5.0),
                relative_width=(1e-6, 1e-3),
                temperature=(1.0, 1e4),
            ),
            others=st.lists(
                st.tuples(
                    st.sampled_from(["breit_wigner", "gauss", "pseudo_voigt", "voigt"]),
                    lin(-5.0, 5.0),
                    log(0.3, 3.0),
                ).map(list),
                min_size=0,
                max_size=3,
            ),
            factors=st.lists(log(1e-2, 1e2), min_size=4, max_size=4),
            constant=lin(0.0, 5.0),
            compton=st.booleans(),
            doppler=log(0.3, 3.0),
            left=lin(0.2, 20.0),
            right=lin(0.2, 20.0),
            n=st.integers(8, 20),
        )
    ),
    quick=100,
)
def integral_of_sums(case):
    r = case["r"]
    w = sum(width for _, width in r["widths"])
    # Doppler width and natural width are similar.
    r["T"] = r["T"] * (case["doppler"] * w / Reference(r).Delta) ** 2
    parts = [r]
    for shape, shift, k in case["others"]:
        parts.append(
            dict(
                r,
                shape=shape,
                E2=r["E2"] + shift * w,
                widths=[[name, k * width] for name, width in r["widths"]],
                T=r["T"] * k * k,
            )
        )
    refs = [Reference(r) for r in parts]
    Er = refs[0].Er
    limits = (max(0.0, Er - case["left"] * w), Er + case["right"] * w)
    length = limits[1] - limits[0]
    # The share of the constant is comparable to that of the resonances.
    constant = case["constant"] / length
    total = constant
    exact = case["constant"]
    for r, ref, k in zip(parts, refs, case["factors"]):
        total = total + build(r) * (k / ref.I)
        exact += k * true_between(ref, limits[0] - ref.Er, limits[1] - ref.Er)
    if case["compton"]:
        kn = KleinNishina(3)
        total = (1.0 / length) * kn + total
        exact += float(kn(0.5 * (limits[0] + limits[1])))
    E = total.equidistant_probability_grid(limits, case["n"])
    require_close((E[0], E[-1]), limits, 1e-14, what="limits of the grid")
    for r in parts:
        grid = build(r).equidistant_probability_grid(limits, case["n"])
        require(
            all(np.min(np.abs(E - e)) <= 4 * EPS * e for e in grid), "grid of a part is not contained"
        )
    value, error = quad_partition(lambda e: float(np.squeeze(total(np.array([e])))), E)
    rounding = max(ref.rounding for ref in refs)
    compton_slack = 30.0 * (length / Er) ** 2 if case["compton"] else 0.0
    tol = (1e-5 + 1e3 * rounding) * (case["constant"] + sum(case["factors"])) + 50.0 * compton_slack
    require_close(value, exact, 1e-5, tol, what="integral of the sum")
    low, difference = darboux(total, E)
    # The maximum of a sum need not be a point of the grid.
    peak = sum(k * float(ref.pdf(0.0)) for ref, k in zip(refs, case["factors"]))
    slack = tol + len(refs) * peak * np.max(np.diff(E))
    require(low <= exact + slack, "lower sum is too large")
    require(low + difference >= exact - slack, "upper sum is too small")
    return True
