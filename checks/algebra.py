"""C01, C02, C22, C23: combination of cross sections, absence of side effects, vectorization"""

import copy
import decimal
import gc
import locale
import os
import random
import signal
import sys
import tempfile
import threading
import warnings

import numpy as np
from hypothesis import strategies as st

from gen import (
    CONTAINERS,
    EPS,
    RTOL_CONST,
    SEEDS,
    Reference,
    build,
    count,
    limits_container,
    lin,
    log,
    many,
    resonance,
    states,
    unit,
)
from vlib import obligation, quiet, require, require_close, rule
from ries.constituents.element import Element, X, natural_elements
from ries.constituents.isotope import Isotope
from ries.constituents.natural_element_data import Geant4DensityDataReader, NISTElementDataReader
from ries.constituents.state import State
from ries.cross_section import ConstantCrossSection, CrossSection, CrossSectionWeightedSum
from ries.integration.darboux import darboux
from ries.integration.quad_partition import quad_partition
from ries.nonresonant.klein_nishina import KleinNishina
from ries.nonresonant.xrmac import XRMAC, xrmac_cm2_per_g, xrmac_fm2_per_atom
from ries.resonance.debye_model import (
    effective_temperature_debye_approximation,
    room_temperature_T_D,
)
from ries.resonance.maxwell_boltzmann import MaxwellBoltzmann
from ries.resonance.pseudo_voigt import PseudoVoigtDistribution
from ries.resonance.recoil import FreeNucleusRecoil, NoRecoil

rule(
    "C01",
    "Random expressions with +, * and sum() over resonances, Compton scattering, attenuation "
    "coefficients, constants and numbers. A case is non-trivial if the expression has at least two "
    "operations.",
)
rule(
    "C02",
    "Random sums of resonances, nonresonant and constant cross sections, and random limits. A case "
    "is non-trivial if the sum has at least two parts, one of which is a resonance.",
)
rule(
    "C22",
    "Random sequences of operations on a common set of objects. A case is non-trivial if the "
    "sequence has at least three operations.",
)
rule(
    "C23",
    "Random functions, parameters and arrays with zero to three dimensions, including non-contiguous "
    "arrays. A case is non-trivial if the array has at least two entries.",
)

# Expressions --------------------------------------------------------------------------------------

number = st.one_of(
    lin(-5.0, 5.0), log(1e-6, 1e6), st.integers(-5, 20), st.sampled_from([0, 0.0, 1, 1.0, -1, 1e-26, 1e24])
)
# Whole numbers that need more than 32 or 64 bits are added only, since products of numpy integers may overflow.
addend = st.one_of(number, number, number, st.sampled_from([3 * 10**9, -(2**40), 10**20]))

def as_type(value, kind):
    """Plain number or the equal numpy number"""
    if kind == "numpy":
        return np.float64(value)
    if kind == "integer":
        return np.int64(int(min(value, 1e9)))
    return value


leaf = st.one_of(
    resonance(relative_width=(1e-6, 0.5), energy=(0.1, 10.0)).map(lambda r: ["resonance", r]),
    resonance(relative_width=(1e-3, 0.5), energy=(0.1, 10.0)).map(lambda r: ["resonance", r]),
    st.integers(1, 92).map(lambda Z: ["kn", Z]),
    st.sampled_from([1, 6, 13, 26, 82, 92]).map(lambda Z: ["xrmac", Z]),
    st.sampled_from([1, 6, 13, 26, 82, 92]).map(lambda Z: ["atom", Z]),
    number.map(lambda x: ["constant", x]),
    st.tuples(number, number).map(lambda x: ["user", list(x)]),
)


def extend(children):
    return st.one_of(
        st.tuples(st.just("add"), children, children).map(list),
        st.tuples(st.just("add"), children, children).map(list),
        st.tuples(st.sampled_from(["add_number", "radd_number"]), children, addend).map(list),
        st.tuples(st.sampled_from(["add_number", "radd_number", "mul", "rmul"]), children, number).map(list),
        st.tuples(st.sampled_from(["mul", "rmul"]), children, number).map(list),
        st.tuples(
            st.sampled_from(["add_number", "radd_number", "mul", "rmul"]),
            children,
            number,
            st.sampled_from(["numpy", "integer"]),
        ).map(list),
        st.tuples(st.just("sum"), st.lists(children, min_size=1, max_size=4)).map(list),
        st.tuples(
            st.just("weighted"),
            st.lists(children, min_size=1, max_size=4),
            st.lists(number, min_size=4, max_size=4),
        ).map(list),
        st.tuples(st.just("list"), st.lists(children, min_size=0, max_size=4)).map(list),
        st.tuples(st.just("twice"), children).map(list),
    )


expression = st.recursive(leaf, extend, max_leaves=10)


class UserDefined(CrossSection):
    """Cross section of a user of the library"""

    def __init__(self, a, b):
        self.a = a
        self.b = b

    def __call__(self, E):
        return self.a + self.b * E

    def equidistant_probability_grid(self, limits, n_points):
        return limits[0] + (limits[1] - limits[0]) * np.linspace(0.0, 1.0, n_points) ** 2


def make_leaf(node):
    kind, value = node
    if kind == "resonance":
        return build(value)
    if kind == "kn":
        return KleinNishina(value)
    if kind == "xrmac":
        return xrmac_cm2_per_g[X[value]]
    if kind == "atom":
        return xrmac_fm2_per_atom[X[value]]
    if kind == "constant":
        return ConstantCrossSection(value)
    return UserDefined(*value)


LEAVES = ("resonance", "kn", "xrmac", "atom", "constant", "user")


class Combination:
    """The object of the library, and its list of (factor, leaf)

    All intermediate objects are kept, since they must not be changed by further operations.
    """

    def __init__(self, node):
        self.intermediate = []
        self.operations = 0
        self.cs, self.parts = self.make(node)

    def make(self, node):
        cs, parts = self.operation(node)
        self.intermediate.append((cs, parts))
        return cs, parts

    def operation(self, node):
        kind = node[0]
        if kind in LEAVES:
            cs = make_leaf(node)
            return cs, [(1.0, cs)]
        self.operations += 1
        if kind == "add":
            a, a_parts = self.make(node[1])
            b, b_parts = self.make(node[2])
            return a + b, a_parts + b_parts
        if kind == "twice":
            a, parts = self.make(node[1])
            return a + a, parts + parts
        if kind in ("add_number", "radd_number"):
            a, parts = self.make(node[1])
            x = as_type(node[2], node[3] if len(node) > 3 else None)
            cs = a + x if kind == "add_number" else x + a
            return cs, parts + [(1.0, ConstantCrossSection(float(x)))]
        if kind in ("mul", "rmul"):
            a, parts = self.make(node[1])
            x = as_type(node[2], node[3] if len(node) > 3 else None)
            cs = a * x if kind == "mul" else x * a
            return cs, [(float(x) * f, p) for f, p in parts]
        children = [self.make(child) for child in node[1]]
        objects = [c for c, _ in children]
        if kind == "sum":
            # The built-in function starts with zero
            return sum(objects), [p for _, parts in children for p in parts] + [
                (1.0, ConstantCrossSection(0))
            ]
        if kind == "list":
            cs = CrossSectionWeightedSum(objects) if objects else CrossSectionWeightedSum()
            return cs, [p for _, parts in children for p in parts]
        factors = node[2][: len(objects)]
        return CrossSectionWeightedSum(objects, factors), [
            (k * f, p) for k, (_, parts) in zip(factors, children) for f, p in parts
        ]


def evaluate(parts, E):
    value = np.zeros(np.shape(E))
    size = np.zeros(np.shape(E))
    for factor, part in parts:
        term = factor * part(E)
        value = value + term
        size = size + np.abs(term)
    return value, size


energies = st.lists(st.one_of(log(1e-3, 20.0), log(1e-3, 20.0), log(1e-9, 1e6)), min_size=1, max_size=6)


@obligation(
    "C01",
    "expressions",
    st.builds(lambda e, E: dict(expression=e, E=E), expression, energies),
    quick=700,
)
def expressions(case):
    c = Combination(case["expression"])
    E = np.array(case["E"])
    for cs, parts in c.intermediate:
        expected, size = evaluate(parts, E)
        require_close(cs(E), expected, 0.0, 1e-13 * size, what="combined cross section")
        for i, e in enumerate(case["E"]):
            require_close(
                cs(e),
                expected[i],
                0.0,
                1e-11 * size[i],
                what="combined cross section of a scalar",
            )
    return c.operations > 1


@obligation(
    "C01",
    "long sums",
    st.fixed_dictionaries(
        dict(
            leaves=st.lists(leaf, min_size=1, max_size=4),
            count=st.integers(5, 60),
            seed=SEEDS,
            E=energies,
            how=st.sampled_from(["left", "right", "tree", "sum", "list"]),
        )
    ),
    quick=100,
)
def long_sums(case):
    """Sums of many different multiples of a few cross sections"""
    leaves = [make_leaf(p) for p in case["leaves"]]
    n = case["count"]
    factors = many(n, case["seed"], -3.0, 3.0)
    E = np.array(case["E"])
    values = [np.asarray(cs(E), dtype=float) for cs in leaves]
    terms = [k * leaves[i % len(leaves)] for i, k in enumerate(factors)]
    if case["how"] == "left":
        cs = terms[0]
        for term in terms[1:]:
            cs = cs + term
    elif case["how"] == "right":
        cs = terms[-1]
        for term in terms[-2::-1]:
            cs = term + cs
    elif case["how"] == "tree":
        while len(terms) > 1:
            terms = [a + b for a, b in zip(terms[::2], terms[1::2])] + (
                [terms[-1]] if len(terms) % 2 else []
            )
        cs = terms[0]
    elif case["how"] == "sum":
        cs = sum(terms)
    else:
        cs = CrossSectionWeightedSum([leaves[i % len(leaves)] for i in range(n)], factors)
    expected = sum(k * values[i % len(leaves)] for i, k in enumerate(factors))
    size = sum(abs(k) * np.abs(values[i % len(leaves)]) for i, k in enumerate(factors))
    require_close(cs(E), expected, 0.0, 1e-12 * size, what="long sum")
    require_close((0.5 * cs)(E), 0.5 * expected, 0.0, 1e-12 * size, what="half of a long sum")
    return len(leaves) > 1


@obligation(
    "C01",
    "laws",
    st.fixed_dictionaries(
        dict(a=expression, b=expression, c=expression, x=number, y=number, E=energies)
    ),
    quick=300,
)
def laws(case):
    a, b, c = (Combination(case[k]).cs for k in "abc")
    x, y = case["x"], case["y"]
    E = np.array(case["E"])
    A, B, C = (np.asarray(v(E), dtype=float) for v in (a, b, c))
    size = sum(evaluate(Combination(case[k]).parts, E)[1] for k in "abc")
    tol = 1e-12 * (1.0 + abs(x)) * (1.0 + abs(y)) * (size + 1.0)
    for name, cs, expected in [
        ("a + b", a + b, A + B),
        ("b + a", b + a, A + B),
        ("(a + b) + c", (a + b) + c, A + B + C),
        ("a + (b + c)", a + (b + c), A + B + C),
        ("x (a + b)", x * (a + b), x * A + x * B),
        ("(a + b) x", (a + b) * x, x * A + x * B),
        ("x a + y b", x * a + y * b, x * A + y * B),
        ("x (y a)", x * (y * a), x * y * A),
        ("x a + a", x * a + a, (x + 1) * A),
        ("a + x", a + x, A + x),
        ("x + a", x + a, A + x),
        ("x + a + y", x + a + y, A + x + y),
        ("y (x + a)", y * (x + a), y * (x + A)),
        ("x (a + y) + b", x * (a + y) + b, x * (A + y) + B),
        ("sum", sum([a, b, c]), A + B + C),
        ("sum with start", sum([a, x * b], y * c), A + x * B + y * C),
    ]:
        require_close(cs(E), expected, 0.0, tol, what=name)
    return True


# C02 ----------------------------------------------------------------------------------------------


@obligation(
    "C02",
    "union of grids",
    st.fixed_dictionaries(
        dict(
            expression=expression,
            lo=st.one_of(lin(0.01, 5.0), lin(0.01, 5.0), log(1e-6, 1e2), st.just(0.0)),
            width=st.one_of(log(1e-3, 10.0), log(1e-3, 10.0), log(1e-9, 1e3)),
            n=st.one_of(st.integers(2, 12), st.integers(2, 12), st.integers(12, 200)),
            container=CONTAINERS,
            integer=st.booleans(),
        )
    ),
    quick=500,
)
def union(case):
    c = Combination(case["expression"])
    limits = [case["lo"], case["lo"] + case["width"]]
    if case["integer"]:
        limits = [int(limits[0]), int(limits[1]) + 1]
    n = case["n"]
    for cs, parts in c.intermediate:
        if not isinstance(cs, CrossSectionWeightedSum):
            continue
        grid = cs.equidistant_probability_grid(limits_container(limits, case["container"]), count(n))
        single = [p.equidistant_probability_grid(tuple(limits), n) for _, p in parts]
        # The start value of sum() is a constant cross section, with the grid of all constants.
        expected = np.array(sorted({float(e) for g in single for e in g}))
        require(isinstance(grid, np.ndarray) and grid.ndim == 1, "grid is not an array")
        require((np.diff(grid) > 0).all(), "grid is not strictly increasing")
        require(
            len(grid) == len(expected), "{} instead of {} points".format(len(grid), len(expected))
        )
        require_close(grid, expected, 1e-15, what="grid of the sum")
    return c.operations > 0 and "resonance" in repr(case["expression"])


@obligation(
    "C02",
    "infinite limit",
    st.fixed_dictionaries(
        dict(
            parts=st.lists(
                resonance(shapes=("box", "breit_wigner", "gauss"), energy=(0.1, 10.0), relative_width=(1e-6, 1.0)),
                min_size=1,
                max_size=4,
            ),
            factors=st.lists(number, min_size=4, max_size=4),
            lo=st.one_of(lin(0.0, 10.0), st.just(0.0)),
            n=st.integers(2, 30),
            container=CONTAINERS,
        )
    ),
    quick=150,
)
def infinite_union(case):
    parts = [build(r) for r in case["parts"]]
    limits = [case["lo"], np.inf]
    with quiet():
        single = [p.equidistant_probability_grid(tuple(limits), case["n"]) for p in parts]
        cs = CrossSectionWeightedSum(parts, case["factors"][: len(parts)])
        grids = [cs.equidistant_probability_grid(limits_container(limits, case["container"]), case["n"])]
        total = case["factors"][0] * parts[0]
        for p in parts[1:]:
            total = total + p
        grids.append(total.equidistant_probability_grid(limits_container(limits, case["container"]), case["n"]))
    expected = np.unique(np.concatenate(single))
    for grid in grids:
        require(len(grid) == len(expected), "{} instead of {} points".format(len(grid), len(expected)))
        require(grid[-1] == np.inf, "upper limit {!r}".format(grid[-1]))
        finite = np.isfinite(expected)
        require(np.array_equal(np.isfinite(grid), finite), "finite points")
        require_close(np.asarray(grid)[finite], expected[finite], 1e-15, what="grid of the sum")
    return len(parts) > 1


@obligation(
    "C02",
    "very fine grids",
    st.fixed_dictionaries(
        dict(
            parts=st.lists(leaf, min_size=1, max_size=3),
            lo=st.one_of(lin(0.01, 5.0), lin(0.01, 5.0), log(1e-6, 1e2), st.just(0.0)),
            width=st.one_of(log(1e-3, 10.0), log(1e-3, 10.0), log(1e-9, 1e3)),
            n=st.integers(500, 30000),
        )
    ),
    quick=40,
)
def fine_grids(case):
    parts = [make_leaf(p) for p in case["parts"]]
    limits = (case["lo"], case["lo"] + case["width"])
    with quiet():
        grid = CrossSectionWeightedSum(parts).equidistant_probability_grid(limits, case["n"])
        single = [p.equidistant_probability_grid(limits, case["n"]) for p in parts]
    expected = np.unique(np.concatenate(single))
    require(len(grid) == len(expected), "{} instead of {} points".format(len(grid), len(expected)))
    require_close(grid, expected, 1e-15, what="grid of the sum")
    return len(parts) > 1


@obligation(
    "C02",
    "scale factors",
    st.fixed_dictionaries(
        dict(
            parts=st.lists(leaf, min_size=1, max_size=5),
            factors=st.lists(number, min_size=5, max_size=5),
            lo=st.one_of(lin(0.01, 5.0), lin(0.01, 5.0), log(1e-6, 1e2), st.just(0.0)),
            width=st.one_of(log(1e-3, 10.0), log(1e-3, 10.0), log(1e-9, 1e3)),
            n=st.one_of(st.integers(2, 15), st.integers(15, 500)),
        )
    ),
    quick=400,
)
def scale_factors(case):
    parts = [make_leaf(p) for p in case["parts"]]
    limits = (case["lo"], case["lo"] + case["width"])
    expected = np.unique(
        np.concatenate([p.equidistant_probability_grid(limits, case["n"]) for p in parts])
    )
    scaled = sum(k * p for k, p in zip(case["factors"][1:], parts[1:])) if parts[1:] else None
    first = case["factors"][0] * parts[0]
    cs = first if scaled is None else first + scaled
    if scaled is not None and parts[1:]:
        # The start value zero of sum() has an equidistant grid.
        expected = np.unique(np.concatenate([expected, np.linspace(*limits, case["n"])]))
    grid = cs.equidistant_probability_grid(limits, case["n"])
    require(len(grid) == len(expected), "{} instead of {} points".format(len(grid), len(expected)))
    require_close(grid, expected, 1e-15, what="grid")
    grid = CrossSectionWeightedSum(parts, case["factors"][: len(parts)])
    grid = grid.equidistant_probability_grid(limits, case["n"])
    plain = CrossSectionWeightedSum(parts).equidistant_probability_grid(limits, case["n"])
    require_close(grid, plain, 0.0, what="grid with other factors")
    require(len(plain) >= case["n"] or any(p[0] != "kn" for p in case["parts"]), "points are missing")
    return len(parts) > 1 and any(p[0] == "resonance" for p in case["parts"])


# C22 ----------------------------------------------------------------------------------------------


def snapshot(value):
    """Comparable copy of a result"""
    if isinstance(value, np.ndarray):
        return value.copy()
    return copy.deepcopy(value)


def same(a, b):
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return np.array_equal(np.asarray(a, dtype=float), np.asarray(b, dtype=float), equal_nan=True)


def similar(a, b):
    """Equal up to rounding errors"""
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(similar(x, y) for x, y in zip(a, b))
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    size = np.max(np.abs(b[np.isfinite(b)]), initial=0.0)
    return np.allclose(a, b, rtol=1e-9, atol=1e-11 * size, equal_nan=True)


def spoil(value):
    """Modify a returned array in place"""
    if isinstance(value, tuple):
        for v in value:
            spoil(v)
    elif isinstance(value, np.ndarray) and value.ndim > 0 and value.flags.writeable:
        value[...] = -1234.5


OPERATIONS = ["call", "relative", "pgrid", "egrid", "add", "mul", "addnum", "coverage", "pcoverage", "ecoverage", "darboux", "strength"]

step = st.fixed_dictionaries(
    dict(
        op=st.sampled_from(OPERATIONS),
        i=st.integers(0, 20),
        j=st.integers(0, 20),
        x=number,
        E=st.lists(log(1e-2, 15.0), min_size=1, max_size=4),
        n=st.integers(2, 8),
        container=CONTAINERS,
    )
)

SINGLE = (
    "resonance_energy",
    "energy_integrated_cross_section",
    "statistical_factor",
    "final_state_branching_ratio",
)


def perform(s, pool, argument):
    """Result of a step, or a new object for the pool"""
    cs = pool[s["i"] % len(pool)]
    op = s["op"]
    if op == "add":
        return None, cs + pool[s["j"] % len(pool)]
    if op == "mul":
        return None, (cs * s["x"] if s["j"] % 2 else s["x"] * cs)
    if op == "addnum":
        return None, (cs + s["x"] if s["j"] % 2 else s["x"] + cs)
    if op == "call":
        return cs(argument), None
    if op == "pgrid":
        return cs.equidistant_probability_grid(argument, s["n"]), None
    if op == "egrid":
        return cs.equidistant_energy_grid(argument, s["n"]), None
    if op == "darboux":
        return darboux(cs(argument) + np.zeros(len(argument)), argument), None
    if not hasattr(cs, "coverage_interval"):
        return None, None
    if op == "relative":
        return cs(argument, input_is_absolute_energy=False), None
    if op == "coverage":
        return cs.coverage_interval(0.5 + 0.05 * s["n"]), None
    if op == "pcoverage":
        return cs.equidistant_probability_grid(0.5 + 0.05 * s["n"], s["n"]), None
    if op == "ecoverage":
        return cs.equidistant_energy_grid(0.5 + 0.05 * s["n"], s["n"]), None
    if op == "strength":
        return tuple(getattr(cs, name) for name in SINGLE), None
    return None, None


def make_argument(s):
    if s["op"] in ("call", "darboux"):
        return np.array(sorted(s["E"]) + [20.0])
    if s["op"] == "relative":
        return np.array(sorted(s["E"])) - 1.0
    if s["op"] in ("pgrid", "egrid"):
        return limits_container([min(s["E"]), max(s["E"]) + 1.0], s["container"])
    return None


def table_digest():
    out = []
    for symbol in ("H", "B", "Fe", "Tc", "Pb", "U"):
        e = natural_elements[symbol]
        out.append((e.Z, e.X, e.amu, e.density, dict(e.abundances), sorted(e.isotopes)))
        out.append([i.amu for i in e.isotopes.values()])
        for tables in (xrmac_cm2_per_g, xrmac_fm2_per_atom):
            out.append(float(np.sum(tables[symbol].data)))
            out.append(float(tables[symbol](0.5)))
    out.append(sorted((k, v) for k, v in room_temperature_T_D.items()))
    out.append((len(natural_elements), len(X), len(xrmac_cm2_per_g), len(xrmac_fm2_per_atom)))
    # As text, since the cross section per atom of an element without a mass may be undefined
    return repr(out)


@obligation(
    "C22",
    "histories",
    st.fixed_dictionaries(
        dict(
            leaves=st.lists(leaf, min_size=1, max_size=4),
            steps=st.one_of(
                st.lists(step, min_size=1, max_size=14),
                st.lists(step, min_size=1, max_size=14),
                st.lists(step, min_size=15, max_size=40),
            ),
        )
    ),
    quick=400,
)
def histories(case):
    tables = table_digest()
    pool = [make_leaf(p) for p in case["leaves"]]
    # How to obtain a fresh copy of each object
    recipes = [(lambda p=p: make_leaf(p)) for p in case["leaves"]]
    probe = np.array([0.05, 0.7, 3.0, 9.0])
    first = [snapshot(cs(probe) + np.zeros(4)) for cs in pool]
    results = []
    for s in case["steps"]:
        argument = make_argument(s)
        before = snapshot(argument)
        result, new = perform(s, pool, argument)
        require(argument is None or same(argument, before), "{} changed its arguments".format(s["op"]))
        if new is not None:
            n = len(pool)
            i, j = s["i"] % n, s["j"] % n
            recipes.append(lambda s=s, i=i, j=j: perform(dict(s, i=0, j=1 if s["op"] == "add" else s["j"]), [recipes[i](), recipes[j]()], None)[1])
            pool.append(new)
            first.append(snapshot(new(probe) + np.zeros(4)))
            require(
                similar(first[-1], recipes[-1]()(probe) + np.zeros(4)),
                "{} differs from that of fresh objects".format(s["op"]),
            )
        if result is not None:
            n = len(pool)
            fresh = [recipes[s["i"] % n]()]
            other, _ = perform(dict(s, i=0), fresh, make_argument(s))
            require(similar(result, other), "{} differs from that of a fresh object".format(s["op"]))
            results.append((s, n, snapshot(result)))
            spoil(result)
            again, _ = perform(s, pool[:n], make_argument(s))
            require(same(again, results[-1][2]), "{} has a different result when repeated".format(s["op"]))
            if isinstance(argument, np.ndarray):
                # The caller uses the same array for other energies
                perform(s, pool[:n], argument)
                argument[...] = 1.0 + 1.5 * argument
                again, _ = perform(s, pool[:n], argument)
                other, _ = perform(dict(s, i=0), fresh, argument.copy())
                require(similar(again, other), "{} with a modified array differs from that of a fresh object".format(s["op"]))
    for cs, value in zip(pool, first):
        require(same(cs(probe) + np.zeros(4), value), "cross section changed")
    for s, n, value in results:
        again, _ = perform(s, pool[:n], make_argument(s))
        require(same(again, value), "{} has a different result at the end".format(s["op"]))
    require(table_digest() == tables, "supplied data changed")
    return len(case["steps"]) > 2


@obligation(
    "C22",
    "operands",
    st.fixed_dictionaries(
        dict(a=expression, b=expression, c=expression, x=number, y=number, E=energies)
    ),
    quick=300,
)
def operands(case):
    """Several operations with the same operands, in comparison with fresh operands each"""
    x, y = case["x"], case["y"]
    E = np.array(case["E"])

    def fresh():
        return [Combination(case[k]).cs for k in "abc"]

    operations = [
        lambda a, b, c: a + b,
        lambda a, b, c: a + c,
        lambda a, b, c: a + x,
        lambda a, b, c: a * x,
        lambda a, b, c: y + a,
        lambda a, b, c: a + y * c,
        lambda a, b, c: (a + b) + c,
        lambda a, b, c: b + a,
        lambda a, b, c: sum([a, b, c]),
        lambda a, b, c: a + a,
    ]
    shared = fresh()
    before = [snapshot(cs(E) + np.zeros(len(E))) for cs in shared]
    size = sum(evaluate(Combination(case[k]).parts, E)[1] for k in "abc") + abs(x) + abs(y)
    size = size * (1.0 + abs(x) + abs(y))
    results = [operation(*shared) for operation in operations]
    for operation, result in zip(operations, results):
        expected = operation(*fresh())
        require_close(result(E), expected(E), 0.0, 1e-12 * size, what="result with used operands")
    for cs, value in zip(shared, before):
        require(same(cs(E) + np.zeros(len(E)), value), "operand changed")
    return True


@obligation(
    "C22",
    "assignments",
    st.fixed_dictionaries(
        dict(
            a=expression,
            b=expression,
            steps=st.lists(
                st.tuples(st.sampled_from(["+=", "+=", "*=", "+= number"]), st.integers(0, 9), number).map(list),
                min_size=1,
                max_size=5,
            ),
            E=energies,
            n=st.integers(2, 6),
        )
    ),
    quick=200,
)
def assignments(case):
    """Assignments with an operation, while other variables refer to the same objects"""
    E = np.array(case["E"])
    limits = (0.5, 6.0)
    objects = [Combination(case[k]).cs for k in "ab"]
    sizes = [evaluate(Combination(case[k]).parts, E)[1] for k in "ab"]
    values = [cs(E) + np.zeros(len(E)) for cs in objects]
    with quiet():
        grids = [cs.equidistant_probability_grid(limits, case["n"]) for cs in objects]
    for what, i, x in case["steps"]:
        i = i % len(objects)
        cs, value, size = objects[i], values[i], sizes[i]
        if what == "+=":
            cs += objects[-1]
            value, size = value + values[-1], size + sizes[-1]
        elif what == "*=":
            cs *= x
            value, size = value * x, size * abs(x)
        else:
            cs += x
            value, size = value + x, size + abs(x)
        objects.append(cs)
        values.append(value)
        sizes.append(size)
        with quiet():
            grids.append(cs.equidistant_probability_grid(limits, case["n"]))
        for other, v, s, grid in zip(objects, values, sizes, grids):
            require_close(other(E) + np.zeros(len(E)), v, 1e-12, 1e-12 * s, what="object after an assignment")
            with quiet():
                again = other.equidistant_probability_grid(limits, case["n"])
            require(same(again, grid), "grid changed by an assignment")
    return True


@obligation(
    "C22",
    "states and resonances",
    st.builds(lambda r, E: dict(r=r, E=E), resonance(), energies),
    quick=300,
)
def states_unchanged(case):
    initial, intermediate = states(case["r"])
    before = copy.deepcopy((vars(initial), vars(intermediate)))
    from ries.resonance.breit_wigner import BreitWigner
    from ries.resonance.gauss import Gauss
    from ries.resonance.pseudo_voigt import PseudoVoigt
    from ries.resonance.resonance import Resonance
    from ries.resonance.voigt import Voigt

    amu, T = case["r"]["amu"], case["r"]["T"]
    shared = [
        Resonance(initial, intermediate),
        BreitWigner(initial, intermediate, initial),
        Gauss(initial, intermediate, amu, T),
        PseudoVoigt(initial, intermediate, amu, T, initial),
        Voigt(initial, intermediate, amu, T),
    ]
    E = np.array(case["E"])
    values = [cs(E) for cs in shared]
    relative = E - 1.0
    for cs in shared:
        cs(relative, input_is_absolute_energy=False)
        require(same(relative, E - 1.0), "array of relative energies changed")
    # Use in between, with other parameters
    for cs in (Voigt(initial, intermediate, 2 * amu, 3 * T), PseudoVoigt(initial, intermediate, 2 * amu, 3 * T)):
        cs(E)
        cs.equidistant_probability_grid((0.1, 1.0), 5)
        cs.coverage_interval(0.9)
    FreeNucleusRecoil(amu)(1.0)
    for cs, value in zip(shared, values):
        require(same(cs(E), value), "cross section changed")
    require((vars(initial), vars(intermediate)) == before, "states changed")


VARIATIONS = ["shape", "E0", "E2", "two_J0", "two_J2", "width", "other width", "amu", "T", "final"]


def vary(r, what, k):
    """Change one parameter of a resonance"""
    r = copy.deepcopy(r)
    if what == "shape":
        r["shape"] = ["box", "breit_wigner", "gauss", "pseudo_voigt", "voigt"][k % 5]
    elif what == "E0":
        # Same resonance energy
        r["E0"] += 0.25 * k
        r["E2"] += 0.25 * k
    elif what == "E2":
        r["E2"] += 0.125 * k
    elif what in ("two_J0", "two_J2"):
        r[what] += k
    elif what == "width":
        for pair in r["widths"]:
            pair[1] *= 1.0 + 0.5 * k if pair[0] == "i" else 1.0
    elif what == "other width":
        for pair in r["widths"]:
            pair[1] *= 1.0 if pair[0] == "i" else 1.0 + 0.5 * k
    elif what == "amu":
        r["amu"] += k
    elif what == "T":
        r["T"] *= 1.0 + 0.5 * k
    else:
        names = [None] + [name for name, _ in r["widths"]]
        r["final"] = names[k % len(names)]
    return r


@obligation(
    "C22",
    "similar resonances",
    st.fixed_dictionaries(
        dict(
            r=resonance(relative_width=(1e-6, 1e-2), energy=(0.1, 10.0), temperature=(10.0, 1e4)),
            variations=st.lists(
                st.tuples(st.sampled_from(VARIATIONS), st.integers(1, 4), st.integers(0, 9)).map(list),
                min_size=1,
                max_size=8,
            ),
            order=st.permutations(list(range(9))),
            x=st.lists(lin(-1.5, 1.5), min_size=1, max_size=3),
            c=lin(0.1, 0.9),
        )
    ),
    quick=300,
)
def similar_resonances(case):
    """Many objects that differ in few parameters, in comparison with the reference formulas"""
    family = [case["r"]]
    for what, k, i in case["variations"]:
        family.append(vary(family[i % len(family)], what, k))
    order = [i for i in case["order"] if i < len(family)]
    objects = {i: build(family[i]) for i in order}
    for i in order[::-1] + order:
        cs, ref = objects[i], Reference(family[i])
        require_close(cs.resonance_energy, ref.Er, 1e-13, what="resonance energy")
        require_close(cs.energy_integrated_cross_section, ref.I, RTOL_CONST, what="strength")
        E = ref.Er + (0.3 if ref.shape == "box" else ref.w) * np.array(case["x"])
        rtol = 1e-4 + 1e3 * ref.rounding
        require_close(cs(E), ref.I * ref.pdf(E - ref.Er), rtol, what="cross section")
        limits = cs.coverage_interval(case["c"])
        lower = 0.5 * (1.0 - case["c"])
        require_close(ref.sf(limits[1] - ref.Er), lower, 1e-4, 32.0 * ref.rounding, what="coverage")
        if limits[0] > 0.0:
            require_close(
                ref.cdf(limits[0] - ref.Er), lower, 1e-4, 32.0 * ref.rounding, what="coverage"
            )
        grid = cs.equidistant_probability_grid((limits[0], limits[1]), 4)
        p = ref.between(grid[:-1] - ref.Er, grid[1:] - ref.Er)
        require_close(p, np.mean(p), 1e-3, 1e2 * ref.rounding, what="probability per interval")
    return len(family) > 2


@obligation(
    "C22",
    "similar arguments",
    st.fixed_dictionaries(
        dict(
            values=st.lists(lin(0.5, 5.0), min_size=5, max_size=5),
            steps=st.lists(
                st.tuples(
                    st.sampled_from(
                        ["kn", "edge", "ratio", "debye", "doppler", "recoil", "xrmac", "darboux", "quad", "state", "element"]
                    ),
                    *[st.integers(0, 2)] * 4,
                ).map(list),
                min_size=2,
                max_size=12,
            ),
        )
    ),
    quick=300,
)
def similar_arguments(case):
    """Functions with arguments from a small set, in comparison with the reference formulas"""
    from compton import prefactor, total_reference
    from data import loglog
    from gen import KB, U
    from integration import darboux_reference
    from thermal import debye_reference

    v = case["values"]
    for name, a, b, c, d in case["steps"]:
        A, B, C = v[a], v[b], v[c]
        array = np.array([v[d], v[a], v[b]])
        if name == "kn":
            actual = KleinNishina(a + 1, mc2=B)(C)
            expected = np.pi * prefactor(a + 1, B) * total_reference(C / B)
        elif name == "edge":
            actual = KleinNishina(a + 1, mc2=B).compton_edge(array)
            expected = array / (1.0 + 2.0 * array / B)
        elif name == "ratio":
            actual = KleinNishina(a + 1, mc2=B).Ep_over_E(array, 0.5 * C)
            expected = 1.0 / (1.0 + array / B * (1.0 - np.cos(0.5 * C)))
        elif name == "debye":
            actual = effective_temperature_debye_approximation(np.array([A, B]), C)
            expected = [debye_reference(A, C), debye_reference(B, C)]
        elif name == "doppler":
            actual = MaxwellBoltzmann(A, B).get_doppler_width(array)
            expected = array * np.sqrt(2.0 * KB * B / (A * U))
        elif name == "recoil":
            actual = FreeNucleusRecoil(A)(array) - array
            expected = array**2 / (2.0 * A * U)
        elif name == "xrmac":
            table = [[0.1, A], [1.0, B], [7.0, C]]
            actual = XRMAC(np.array(table))(array)
            expected = [loglog(table, e)[0] for e in array]
        elif name == "darboux":
            x = np.array([0.0, A, A + B])
            f = np.array([C, v[d], B])
            actual = darboux(f, x)
            expected = darboux_reference(f.tolist(), x.tolist())
        elif name == "quad":
            actual = quad_partition(lambda x, y: A * x + y, [0.0, B, B + 1.0], [[0.0, C]])[0]
            expected = A * 0.5 * (B + 1.0) ** 2 * C + (B + 1.0) * 0.5 * C * C
        elif name == "state":
            state = State("x", a, 1, B, {"a": A, "b": C})
            actual = (state.width, state.excitation_energy, state.two_J)
            expected = (A + C, B, a)
        else:
            isotopes = {"1X": Isotope("1X", A), "2X": Isotope("2X", B)}
            actual = Element(1, "X", isotopes, {"1X": 0.25 * C, "2X": 0.5}).amu
            expected = 0.25 * C * A + 0.5 * B
        require_close(actual, expected, 1e-6, what=name)
    return len({tuple(s) for s in case["steps"]}) > 2


@obligation(
    "C22",
    "functions",
    st.fixed_dictionaries(
        dict(
            E=st.lists(log(1e-2, 10.0), min_size=2, max_size=6),
            table=st.lists(st.tuples(log(1e-3, 10.0), log(1e-3, 1e3)).map(list), min_size=2, max_size=6),
            T=log(1.0, 1e3),
        )
    ),
    quick=200,
)
def functions_pure(case):
    E = np.array(sorted(case["E"]))
    table = np.array(sorted(case["table"])) * np.array([1.0, 1.0])
    table[:, 0] += 1e-3 * np.arange(len(table))
    kn = KleinNishina(3)
    limits = [[0.0, 1.0], [0.0, 2.0]]
    array_limits = np.array(limits)
    f = 1.0 / E
    theta = np.linspace(0.1, 3.0, len(E))
    cs = XRMAC(table)
    fixed = [snapshot(v) for v in (E, table, limits, array_limits, f, theta)]
    calls = [
        lambda: cs(E),
        lambda: darboux(f, E),
        lambda: darboux(lambda x: x * x, E),
        lambda: kn.cs_diff_dOmega(E, theta, theta),
        lambda: kn.cs_diff_dOmega_unpolarized(E, theta),
        lambda: kn.cs_diff_dtheta(E, theta),
        lambda: kn.cs_diff_dEp(E, 0.9 * E),
        lambda: kn.theta(E, 0.9 * E),
        lambda: kn.Ep_over_E(E, theta),
        lambda: kn.compton_edge(E),
        lambda: kn(E),
        lambda: effective_temperature_debye_approximation(E * case["T"], case["T"]),
        lambda: MaxwellBoltzmann(12.0, case["T"]).get_doppler_width(E),
        lambda: FreeNucleusRecoil(12.0)(E),
        lambda: quad_partition(lambda x, y, z: x * y + z, E[:2], limits),
        lambda: quad_partition(lambda x, y, z: x * y + z, E[:2], array_limits),
        lambda: quad_partition(lambda x: x * x, E),
    ]
    with np.errstate(all="ignore"):
        first = [call() for call in calls]
        values = [snapshot(v) for v in first]
        for v in first:
            spoil(v)
        for call, value in zip(calls[::-1], values[::-1]):
            require(same(call(), value), "repeated call gives another result")
    for v, old in zip((E, table, limits, array_limits, f, theta), fixed):
        require(same(v, old), "an argument was changed")


def interpreter():
    """Settings that belong to the whole process"""
    kind, keys, *state = np.random.get_state()
    return dict(
        errors=np.geterr(),
        print=repr(np.get_printoptions()),
        random=random.getstate(),
        numpy=(kind, keys.tolist(), *state),
        filters=list(warnings.filters),
        variables=dict(os.environ),
        directory=os.getcwd(),
        recursion=sys.getrecursionlimit(),
        locale=locale.setlocale(locale.LC_ALL),
        collection=(gc.isenabled(), gc.get_threshold()),
        precision=decimal.getcontext().prec,
        path=list(sys.path),
        threads=threading.active_count(),
        streams=(id(sys.stdout), id(sys.stderr), id(sys.excepthook)),
        error_call=np.geterrcall(),
        switch=sys.getswitchinterval(),
        handlers=[signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGFPE)],
    )


USES = ["file", "density", "element", "table", "line", "coverage", "grid", "pv", "fallback", "kn", "debye", "darboux", "quad", "sum"]


def use(name, case, directory):
    x, r = case["x"], case["r"]
    E = np.array([0.2, 1.0, 3.0]) * x
    file = os.path.join(directory, name)
    if name == "file":
        with open(file, "w") as f:
            f.write("1.00000E-03  1.000E+00  2.000E+00\n1.00000E-02  1.000E+00  2.000E+00\n")
        XRMAC(file)(E)
    elif name == "density":
        with open(file, "w") as f:
            f.write("H   7.5\n")
        Geant4DensityDataReader(file).read_density_data("H")
    elif name == "element":
        with open(file, "w") as f:
            f.write(
                "Atomic Number = 1\nAtomic Symbol = X\nMass Number = 1\nRelative Atomic Mass = 1.0\n"
                "Isotopic Composition = 1\nStandard Atomic Weight = 1\nNotes = m\n"
            )
        NISTElementDataReader(file).read_nist_element_data(1)
    elif name == "table":
        XRMAC(np.array([[1.0, 2.0], [2.0, x]]))(E)
        xrmac_fm2_per_atom["Fe"](E)
    elif name in ("line", "coverage", "grid"):
        cs = build(r)
        if name == "line":
            cs(E)
        elif name == "coverage":
            cs.coverage_interval(0.9)
            cs.coverage_interval(1.0)
        else:
            cs.equidistant_probability_grid((0.5 * x, 2.0 * x), 5)
            cs.equidistant_probability_grid(0.5, 5)
            cs.equidistant_energy_grid(0.5, 5)
    elif name in ("pv", "fallback"):
        pv = PseudoVoigtDistribution(x, 1e-3 * x, r["amu"], r["T"])
        pv.pdf(E)
        pv.cdf(E)
        pv.ppf(0.3)
        pv.ppf(np.array([0.1, 0.8]))
        if name == "fallback":
            pv.ppf(np.array([0.0, 1e-9, 1.0]))
    elif name == "kn":
        kn = KleinNishina(case["Z"])
        kn(E)
        kn.cs_diff_dEp(E, 0.9 * E)
        kn.theta(E, 0.9 * E)
        kn.cs_diff_dtheta(E, 0.5)
    elif name == "debye":
        effective_temperature_debye_approximation(np.array([300.0, r["T"]]), 100.0 * x)
    elif name == "darboux":
        darboux(lambda z: z * z, E)
    elif name == "quad":
        quad_partition(lambda z, y: z * y, E, [[0.0, x]])
    else:
        total = 2.0 * build(r) + KleinNishina(case["Z"]) * x + x
        total(E)
        total.equidistant_probability_grid((0.5 * x, 2.0 * x), 5)


@obligation(
    "C22",
    "settings of the process",
    st.fixed_dictionaries(
        dict(
            uses=st.lists(st.sampled_from(USES), min_size=1, max_size=6),
            r=resonance(energy=(0.5, 5.0), relative_width=(1e-6, 0.1)),
            x=log(0.1, 10.0),
            Z=st.integers(1, 92),
            errors=st.lists(st.sampled_from(["ignore", "warn"]), min_size=4, max_size=4),
            seed=st.integers(0, 2**31),
        )
    ),
    quick=250,
)
def settings_of_the_process(case):
    saved = random.getstate(), np.random.get_state(), np.geterr()
    precision = np.get_printoptions()["precision"]
    try:
        with quiet(), tempfile.TemporaryDirectory() as directory:
            random.seed(case["seed"])
            np.random.seed(case["seed"])
            np.set_printoptions(precision=4 + case["seed"] % 8)
            np.seterr(**dict(zip(("divide", "over", "under", "invalid"), case["errors"])))
            before = interpreter()
            for name in case["uses"]:
                use(name, case, directory)
                after = interpreter()
                for key in before:
                    require(after[key] == before[key], "{} changed the setting {} of the process".format(name, key))
    finally:
        random.setstate(saved[0])
        np.random.set_state(saved[1])
        np.seterr(**saved[2])
        np.set_printoptions(precision=precision)
    return len(set(case["uses"])) > 1


# C23 ----------------------------------------------------------------------------------------------

FUNCTIONS = [
    "resonance", "relative", "kn", "xrmac", "atom", "sum", "cs_total", "dOmega", "dOmega_theta", "unpolarized",
    "dtheta", "dEp", "dEp_dphi", "edge", "ratio", "theta", "doppler", "temperature", "recoil", "no_recoil", "debye",
]


def vector_function(case):
    """Function of energies (in MeV) and a flag whether integers are allowed"""
    name = case["function"]
    r = case["r"]
    kn = KleinNishina(case["Z"])
    if name in ("resonance", "relative"):
        cs = build(r)
        if name == "relative":
            return lambda E: cs(E - r["E2"] + r["E0"], input_is_absolute_energy=False)
        return cs
    table = dict(
        kn=kn,
        cs_total=kn.cs_total,
        xrmac=xrmac_cm2_per_g[X[case["Z"]]],
        atom=xrmac_fm2_per_atom[X[case["Z"]]],
        dOmega=lambda E: kn.cs_diff_dOmega(E, 0.7, 0.3),
        dOmega_theta=lambda E: kn.cs_diff_dOmega(2.0, E, 0.3 * E),
        unpolarized=lambda E: kn.cs_diff_dOmega_unpolarized(E, 0.7),
        dtheta=lambda E: kn.cs_diff_dtheta(1.5, E),
        dEp=lambda E: kn.cs_diff_dEp(E, kn.compton_edge(E) * 0.6 + 0.4 * E),
        dEp_dphi=lambda E: kn.cs_diff_dEp_dphi(E, kn.compton_edge(E) * 0.6 + 0.4 * E, E),
        edge=kn.compton_edge,
        ratio=lambda E: kn.Ep_over_E(E, 1.2),
        theta=lambda E: kn.theta(E, kn.compton_edge(E) * 0.6 + 0.4 * E),
        doppler=MaxwellBoltzmann(r["amu"], r["T"]).get_doppler_width,
        temperature=lambda E: MaxwellBoltzmann.get_effective_temperature(1e-3 * E, r["amu"], E),
        recoil=FreeNucleusRecoil(r["amu"]),
        no_recoil=NoRecoil(),
        debye=lambda E: effective_temperature_debye_approximation(E, 7.0),
    )
    if name == "sum":
        return 2.0 * build(r) + table["xrmac"] * 0.5 + kn + 3
    return table[name]


@st.composite
def vector_case(draw):
    r = draw(resonance(relative_width=(1e-3, 0.5), energy=(0.5, 10.0)))
    shape = draw(st.lists(st.integers(1, 4), min_size=0, max_size=3))
    count = int(np.prod(shape)) if shape else 1
    integer = draw(st.booleans())
    one = st.integers(1, 20) if integer else log(1e-2, 20.0)
    if integer and draw(st.booleans()):
        # Not representable with less than double precision
        one = st.one_of(one, st.integers(2**24, 2**30))
    return dict(
        function=draw(st.sampled_from(FUNCTIONS)),
        r=r,
        Z=draw(st.sampled_from([1, 5, 26, 50, 82])),
        shape=shape,
        values=[draw(one) for _ in range(count)],
        integer=integer,
        layout=draw(st.sampled_from(["C", "F", "strided", "reversed", "readonly", "swapped"])),
    )


def arrange(values, shape, layout, dtype):
    a = np.array(values, dtype=dtype).reshape(shape)
    if layout == "F":
        return np.array(a, order="F")
    if layout == "swapped":
        # The byte order of files from other computers
        return a.astype(a.dtype.newbyteorder())
    if layout == "readonly":
        a.setflags(write=False)
    if layout == "strided" and shape:
        b = np.zeros([2 * n for n in shape], dtype=dtype)
        view = b[tuple(slice(None, None, 2) for _ in shape)]
        view[...] = a
        return view
    if layout == "reversed" and shape:
        return a[::-1].copy()[::-1]
    return a


@obligation("C23", "shapes and types", vector_case(), quick=2000)
def shapes_and_types(case):
    f = vector_function(case)
    shape = tuple(case["shape"])
    E = arrange(case["values"], shape, case["layout"], int if case["integer"] else float)
    result = f(E)
    require(np.shape(result) == shape, "shape {} instead of {}".format(np.shape(result), shape))
    result = np.asarray(result, dtype=float).ravel()
    for i, e in enumerate(case["values"]):
        single = f(float(e))
        require(np.size(single) == 1, "result for a scalar has {} entries".format(np.size(single)))
        single = float(np.asarray(single).ravel()[0])
        # Vectorized functions may be rounded differently.
        require_close(result[i], single, 1e-9, 1e-250, what="entry {}".format(i))
        if case["integer"]:
            require_close(
                np.asarray(f(int(e)), dtype=float).ravel()[0], single, 1e-9, 1e-250, what="integer"
            )
    return result.size > 1


@obligation(
    "C23",
    "undefined and infinite entries",
    st.builds(
        lambda case, special: dict(case, special=special),
        vector_case(),
        st.lists(
            st.tuples(st.integers(0, 63), st.sampled_from(["nan", "nan", "inf"])).map(list), min_size=1, max_size=3
        ),
    ),
    quick=500,
)
def undefined_entries(case):
    """Entries of an array do not have an influence on each other"""
    f = vector_function(case)
    shape = tuple(case["shape"])
    values = [float(e) for e in case["values"]]
    for i, special in case["special"]:
        # There is no infinite temperature.
        values[i % len(values)] = float("nan" if case["function"] == "debye" else special)
    result = f(arrange(values, shape, case["layout"], float))
    require(np.shape(result) == shape, "shape {} instead of {}".format(np.shape(result), shape))
    result = np.asarray(result, dtype=float).ravel()
    for i, e in enumerate(values):
        single = float(np.asarray(f(np.float64(e))).ravel()[0])
        if np.isfinite(e):
            require_close(result[i], single, 1e-9, 1e-250, what="entry {}".format(i))
        elif np.isnan(single):
            require(np.isnan(result[i]), "entry {} is {!r} instead of nan".format(i, result[i]))
        else:
            require_close(result[i], single, 1e-9, 1e-250, what="entry {} at {!r}".format(i, e))
        if np.isnan(e):
            require(np.isnan(result[i]), "entry {} at nan is {!r}".format(i, result[i]))
    return any(np.isfinite(e) for e in values)


@obligation(
    "C23",
    "large and empty arrays",
    st.fixed_dictionaries(
        dict(
            function=st.sampled_from(FUNCTIONS),
            r=resonance(relative_width=(1e-3, 0.5), energy=(0.5, 10.0)),
            Z=st.sampled_from([1, 5, 26, 50, 82]),
            shape=st.sampled_from(
                [[0], [0, 3], [2, 0], [64], [65], [257], [1000], [1025], [3000], [40, 30], [7, 8, 9]]
            ),
            seed=SEEDS,
            order=st.sampled_from(["random", "sorted", "reversed", "repeated"]),
        )
    ),
    quick=400,
)
def large_arrays(case):
    shape = tuple(case["shape"])
    count = int(np.prod(shape))
    if case["function"] == "debye" and count > 300:
        # Numerical integration for each entry
        shape, count = (300,), 300
    values = np.array(many(count, case["seed"], 1e-2, 20.0, True))
    if case["order"] != "random":
        values = np.sort(values)
    if case["order"] == "reversed":
        values = values[::-1].copy()
    if case["order"] == "repeated" and count:
        values = np.repeat(values, 3)[:count]
    f = vector_function(case)
    E = values.reshape(shape)
    before = E.copy()
    result = f(E)
    require(np.shape(result) == shape, "shape {} instead of {}".format(np.shape(result), shape))
    require(np.array_equal(E, before), "argument changed")
    result = np.asarray(result, dtype=float).ravel()
    for i in {0, 1, count // 2, count - 2, count - 1, *range(0, count, max(1, count // 12))}:
        if 0 <= i < count:
            single = float(np.asarray(f(float(values[i]))).ravel()[0])
            require_close(result[i], single, 1e-9, 1e-250, what="entry {}".format(i))
    return count > 1
