"""C32, C33: user-defined cross sections, and failures of user-defined functions and files"""

import json
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from gen import CONTAINERS, Reference, build, limits_container, lin, log, resonance
from vlib import Violation, obligation, require, require_close, rule
from ries.constituents.natural_element_data import Geant4DensityDataReader, NISTElementDataReader
from ries.cross_section import CrossSection
from ries.integration.darboux import darboux
from ries.integration.quad_partition import quad_partition
from ries.nonresonant.klein_nishina import KleinNishina
from ries.nonresonant.nonresonant import Nonresonant
from ries.nonresonant.xrmac import XRMAC
from ries.resonance.breit_wigner import BreitWigner
from ries.resonance.gauss import Gauss
from ries.resonance.resonance import Resonance

rule(
    "C32",
    "Random sums of user-defined and built-in cross sections. A case is non-trivial if at least one "
    "part is user-defined and at least two parts contribute.",
)
rule(
    "C33",
    "Random operations in which a user-defined function fails at a random call, or a file is missing or "
    "damaged at a random place. A case is non-trivial if the failure was reached.",
)

# C32 ----------------------------------------------------------------------------------------------


class Record:
    """Arguments with which the methods of a user were called"""

    def __init__(self):
        self.energies = []
        self.grids = []


def polynomial(c, E):
    return c[0] + c[1] * E + c[2] * E * E


def user_grid(limits, n):
    """Grid with points that become denser"""
    grid = limits[0] + (limits[1] - limits[0]) * np.linspace(0.0, 1.0, n) ** 2
    grid[-1] = limits[1]
    return grid


def same_points(grid, expected, what, optional=(), strict=True):
    """Compare grids, in which points may coincide up to rounding errors"""
    require(np.ndim(grid) == 1 and bool(np.all(np.diff(grid) >= 0.0)), what + " is not increasing")
    require(not strict or bool(np.all(np.diff(grid) > 0.0)), what + " has repeated points")
    for a, b, text in ((grid, np.append(expected, optional), "unexpected"), (expected, grid, "missing")):
        b = np.sort(b)
        i = np.searchsorted(b, a)
        distance = np.minimum(np.abs(a - b[np.clip(i - 1, 0, None)]), np.abs(a - b[np.clip(i, None, len(b) - 1)]))
        k = int(np.argmax(distance))
        require(distance[k] <= 1e-12 * np.max(b), "{}: {} point {!r}".format(what, text, float(a[k])))


class General(CrossSection):
    def __init__(self, c, unordered=False):
        self.c = c
        self.unordered = unordered
        self.record = Record()

    def __call__(self, E):
        self.record.energies.append(np.array(E))
        return polynomial(self.c, E)

    def equidistant_probability_grid(self, limits, n_points):
        self.record.grids.append((float(limits[0]), float(limits[1]), n_points))
        grid = user_grid(limits, n_points)
        if self.unordered:
            grid = np.append(grid[::-1], grid[:2])
        return grid


class False_(General):
    def __bool__(self):
        return False


class Empty(General):
    def __len__(self):
        return 0


class Equal(General):
    """Equal to everything, like the entries of some containers"""

    def __eq__(self, other):
        return True

    def __hash__(self):
        return 1


class WithoutGrid(CrossSection):
    def __init__(self, c):
        self.c = c
        self.record = Record()

    def __call__(self, E):
        self.record.energies.append(np.array(E))
        return polynomial(self.c, E)


class WithoutEvaluation(CrossSection):
    def __init__(self, c):
        self.record = Record()

    def equidistant_probability_grid(self, limits, n_points):
        self.record.grids.append((float(limits[0]), float(limits[1]), n_points))
        return user_grid(limits, n_points)


class Background(Nonresonant):
    def __init__(self, c):
        self.c = c
        self.record = Record()

    def __call__(self, E):
        self.record.energies.append(np.array(E))
        return polynomial(self.c, E)


def derived(base, evaluation, c):
    """Class derived from a line shape, with another evaluation or grid"""

    class Derived(base):
        record = Record()
        if evaluation:

            def __call__(self, E, input_is_absolute_energy=True):
                self.record.energies.append(np.array(E))
                return polynomial(c, E) + 2.0 * super().__call__(E, input_is_absolute_energy)

        else:

            def equidistant_probability_grid(self, coverage_or_limits, n_points):
                limits = coverage_or_limits
                self.record.grids.append((float(limits[0]), float(limits[1]), n_points))
                return user_grid(limits, n_points)

    return Derived


KINDS = ["general", "nonresonant", "evaluation", "grid", "builtin", "number", "compton"]

part = st.fixed_dictionaries(
    dict(
        kind=st.sampled_from(KINDS + ["general", "evaluation"]),
        c=st.lists(lin(0.0, 3.0), min_size=3, max_size=3),
        r=resonance(shapes=("box", "breit_wigner", "gauss"), energy=(0.5, 5.0), relative_width=(1e-3, 0.1)),
        factor=st.one_of(st.none(), lin(-2.0, 3.0), st.integers(-1, 4)),
        right=st.booleans(),
        unordered=st.booleans(),
        truth=st.sampled_from(["", "", "false", "empty", "equal"]),
    )
)


class Part:
    def __init__(self, p):
        self.p = p
        kind = p["kind"]
        c, r = p["c"], p["r"]
        self.record = None
        self.factor = 1.0 if p["factor"] is None else p["factor"]
        if kind == "general":
            self.cs = dict(false=False_, empty=Empty, equal=Equal).get(p.get("truth"), General)(c, p.get("unordered", False))
        elif kind == "no grid":
            self.cs = WithoutGrid(c)
        elif kind == "no evaluation":
            self.cs = WithoutEvaluation(c)
        elif kind == "nonresonant":
            self.cs = Background(c)
        elif kind in ("evaluation", "grid"):
            plain = build(r)
            base = dict(box=Resonance, breit_wigner=BreitWigner, gauss=Gauss)[r["shape"]]
            arguments = [plain.initial_state, plain.intermediate_state]
            if base is Gauss:
                arguments += [r["amu"], r["T"]]
            self.cs = derived(base, kind == "evaluation", c)(*arguments, plain.final_state)
        elif kind == "builtin":
            self.cs = build(r)
        elif kind == "compton":
            self.cs = KleinNishina(6)
        else:
            self.cs = c[0]
        self.record = getattr(self.cs, "record", None)
        if self.record is not None:
            self.record.energies.clear()
            self.record.grids.clear()

    def term(self):
        """The part, multiplied by its factor"""
        if self.p["factor"] is None:
            return self.cs
        if self.p["right"]:
            return self.cs * self.p["factor"]
        return self.p["factor"] * self.cs

    def value(self, E):
        kind, c, r = self.p["kind"], self.p["c"], self.p["r"]
        if kind == "number":
            return self.factor * c[0] + 0.0 * E
        if kind == "compton":
            return self.factor * KleinNishina(6)(E)
        if kind in ("builtin", "grid"):
            return self.factor * build(r)(E)
        value = polynomial(c, E)
        if kind == "evaluation":
            value = value + 2.0 * build(r)(E)
        return self.factor * value

    def grid(self, limits, n):
        kind, r = self.p["kind"], self.p["r"]
        if kind in ("general", "grid", "no evaluation"):
            return user_grid(limits, n)
        if kind in ("builtin", "evaluation"):
            return build(r).equidistant_probability_grid(limits, n)
        return np.linspace(*limits, n)


def combine(parts, order):
    """Sum of the parts. At least the first or the second one is a cross section."""
    terms = [p.term() for p in parts]
    if order == "sum":
        return sum(terms)
    if order == "nested" and len(terms) > 2:
        return terms[0] + (terms[1] + sum(terms[2:]))
    total = terms[0]
    for term in terms[1:]:
        total = total + term
    return total


request = dict(
    E=st.lists(lin(0.1, 8.0), min_size=1, max_size=5),
    lo=lin(0.1, 4.0),
    length=lin(0.1, 5.0),
    n=st.integers(2, 12),
    container=CONTAINERS,
    order=st.sampled_from(["left", "sum", "nested"]),
)


def check_energies(part, E, what):
    if part.record is not None and part.record.energies:
        seen = np.concatenate([np.ravel(e) for e in part.record.energies])
        require(np.array_equal(np.unique(seen), np.unique(E)), "{}: a user-defined method got other energies".format(what))
    if part.record is not None:
        part.record.energies.clear()


@obligation(
    "C32",
    "sums with user-defined parts",
    st.fixed_dictionaries(dict(parts=st.lists(part, min_size=1, max_size=5), **request)),
    quick=500,
)
def user_sums(case):
    parts = [Part(dict(p, kind="general") if i == 0 and p["kind"] == "number" else p) for i, p in enumerate(case["parts"])]
    if len(parts) > 2 and parts[1].p["kind"] == "number":
        case = dict(case, order="left")
    is_sum = len(parts) > 1 or parts[0].p["factor"] is not None
    if not is_sum:
        # Only sums and multiples put the points in order.
        parts = [Part(dict(parts[0].p, unordered=False))]
    total = combine(parts, case["order"])
    E = np.array(case["E"])
    expected = sum(p.value(E) for p in parts)
    size = sum(np.abs(p.value(E)) for p in parts)
    require_close(total(E), expected, 0.0, 1e-12 * size, what="sum")
    for p in parts:
        check_energies(p, E, "array")
    for e, x, s in zip(case["E"], expected, size):
        require_close(total(e), x, 0.0, 1e-12 * s, what="sum for a scalar")
        for p in parts:
            check_energies(p, e, "scalar")
    limits = (case["lo"], case["lo"] + case["length"])
    n = case["n"]
    if not hasattr(total, "equidistant_probability_grid"):
        raise Violation("sum has no grids")
    grid = total.equidistant_probability_grid(limits_container(limits, case["container"]), n)
    # sum() starts with the number zero, which is a constant cross section.
    optional = [] if case["order"] == "left" else np.linspace(*limits, n)
    same_points(grid, np.concatenate([p.grid(limits, n) for p in parts]), "grid", optional, is_sum)
    for p in parts:
        if p.record is not None:
            for request in p.record.grids:
                require(request == (*limits, n), "a user-defined grid was requested for {}".format(request))
    require_close(
        total.equidistant_energy_grid(limits_container(limits, case["container"]), n), np.linspace(*limits, n), 1e-13, what="energy grid"
    )
    # Integration
    values = sum(p.value(grid) for p in parts)
    scale = np.sum(np.diff(grid)) * max(sum(np.max(np.abs(p.value(grid))) for p in parts), 1e-300)
    low, difference = darboux(total, grid)
    expected = float(np.sum(np.minimum(values[1:], values[:-1]) * np.diff(grid)))
    require_close(low, expected, 0.0, 1e-11 * scale, what="lower sum")
    expected = float(np.sum(np.abs(np.diff(values)) * np.diff(grid)))
    require_close(difference, expected, 0.0, 1e-11 * scale, what="difference of the sums")
    return len(parts) > 1 and any(p.record is not None for p in parts)


@obligation(
    "C32",
    "integrals of user-defined parts",
    st.fixed_dictionaries(
        dict(
            parts=st.lists(part.map(lambda p: dict(p, kind=["general", "nonresonant"][p["kind"] == "nonresonant"])), min_size=1, max_size=4),
            **request,
        )
    ),
    quick=80,
)
def user_integrals(case):
    parts = [Part(dict(p, unordered=p["unordered"] and len(case["parts"]) > 1)) for p in case["parts"]]
    total = combine(parts, case["order"])
    a, b = case["lo"], case["lo"] + case["length"]
    grid = total.equidistant_probability_grid((a, b), case["n"])
    value = quad_partition(total, grid)
    terms = []
    for p in parts:
        c = p.p["c"]
        terms.append(p.factor * (c[0] * (b - a) + c[1] * (b**2 - a**2) / 2 + c[2] * (b**3 - a**3) / 3))
    require_close(value[0], sum(terms), 0.0, 1e-10 * sum(abs(t) for t in terms) + 1e-300, what="integral")
    return len(parts) > 1


def fails(function):
    try:
        function()
    except NotImplementedError:
        return True
    return False


@obligation(
    "C32",
    "incomplete classes",
    st.fixed_dictionaries(
        dict(parts=st.lists(part, max_size=3), missing=st.sampled_from(["no grid", "no evaluation", "neither"]), i=st.integers(0, 3), **request)
    ),
    quick=200,
)
def incomplete(case):
    """What a class does not provide is reported, and does not affect the rest"""
    c = [1.0, 2.0, 0.5]
    others = [Part(p) for p in case["parts"] if p["kind"] != "number"]
    missing = case["missing"]
    if missing == "neither":
        cs = CrossSection()
    else:
        cs = (WithoutGrid if missing == "no grid" else WithoutEvaluation)(c)
    terms = [p.term() for p in others]
    terms.insert(case["i"] % (len(terms) + 1), cs)
    total = sum(terms)
    E = np.array(case["E"])
    limits = (case["lo"], case["lo"] + case["length"])
    n = case["n"]
    for _ in range(2):
        for x in (cs, total, 2.0 * cs, cs + 1.0):
            require(fails(lambda: x(E)) == (missing != "no grid"), "evaluation of a class without an evaluation")
            require(
                fails(lambda: x.equidistant_probability_grid(limits, n)) == (missing != "no evaluation"),
                "grid of a class without a grid",
            )
            require_close(x.equidistant_energy_grid(limits, n), np.linspace(*limits, n), 1e-13, what="energy grid")
    if missing == "no grid":
        expected = polynomial(c, E) + sum(p.value(E) for p in others)
        size = polynomial(c, E) + sum(np.abs(p.value(E)) for p in others)
        require_close(total(E), expected, 0.0, 1e-12 * size, what="sum")
    for p in others:
        require_close(p.cs(E), p.value(E) / p.factor if p.factor else p.cs(E), 1e-12, 1e-12 * np.max(np.abs(p.cs(E))), what="other part")
    return True


@obligation(
    "C32",
    "nonresonant grids",
    st.fixed_dictionaries(dict(factor=lin(-2.0, 2.0), **request)),
    quick=100,
)
def nonresonant_grids(case):
    limits = (case["lo"], case["lo"] + case["length"])
    n = case["n"]

    class Bare(Nonresonant):
        pass

    for cs in (Nonresonant(), Bare(), Background([1.0, 1.0, 1.0]), KleinNishina()):
        for x in (cs, case["factor"] * cs, cs + 1.0):
            for grid in (x.equidistant_probability_grid, x.equidistant_energy_grid):
                require_close(grid(limits_container(limits, case["container"]), n), np.linspace(*limits, n), 1e-13, what="grid")

    class Uneven(Nonresonant):
        def equidistant_energy_grid(self, limits, n_points):
            return user_grid(limits, n_points)

    # The equal-probability grid is the equidistant grid, also if a user has defined another one.
    own = user_grid(limits, n)
    for x in (Uneven(), case["factor"] * Uneven()):
        same_points(x.equidistant_probability_grid(limits, n), own, "own equidistant grid")
    require(isinstance(KleinNishina(), Nonresonant) and issubclass(XRMAC, Nonresonant), "kind of cross section")
    require(issubclass(Nonresonant, CrossSection) and issubclass(Resonance, CrossSection), "kind of cross section")
    return True


@obligation(
    "C32",
    "parts of a resonance",
    st.fixed_dictionaries(
        dict(
            r=resonance(energy=(0.5, 5.0), relative_width=(1e-3, 0.1)),
            what=st.sampled_from(["statistical factor", "branching ratio", "strength", "interval"]),
            x=log(0.01, 100.0),
            c=lin(0.1, 0.9),
            E=st.lists(lin(0.1, 8.0), min_size=1, max_size=5),
            n=st.integers(2, 12),
        )
    ),
    quick=150,
)
def own_parts(case):
    """Classes that replace a single step of the calculation"""
    plain = build(case["r"])
    x, what = case["x"], case["what"]
    interval = (plain.resonance_energy, plain.resonance_energy * (1.0 + x))

    class Own(type(plain)):
        if what == "statistical factor":

            def get_statistical_factor(self):
                return x

        elif what == "branching ratio":

            def get_final_state_branching_ratio(self):
                return x

        elif what == "strength":

            def get_energy_integrated_cross_section(self):
                return x * super().get_energy_integrated_cross_section()

        else:

            def coverage_interval(self, coverage):
                return np.array(interval)

    states = [plain.initial_state, plain.intermediate_state]
    if case["r"]["shape"] not in ("box", "breit_wigner"):
        states += [case["r"]["amu"], case["r"]["T"]]
    own = Own(*states, plain.final_state)
    factor = {
        "statistical factor": x / plain.statistical_factor,
        "branching ratio": x / plain.final_state_branching_ratio,
        "strength": x,
        "interval": 1.0,
    }[what]
    E = np.array(case["E"])
    require_close(own.energy_integrated_cross_section, factor * plain.energy_integrated_cross_section, 1e-12, what="strength")
    require_close(own(E), factor * plain(E), 1e-12, 1e-300, what="cross section")
    require_close((3.0 * own + 1.0)(E), 3.0 * factor * plain(E) + 1.0, 1e-12, what="sum")
    if what == "interval":
        require_close(own.equidistant_energy_grid(case["c"], case["n"]), np.linspace(*interval, case["n"]), 1e-12, what="grid")
    return True


@obligation(
    "C32",
    "parts of other cross sections",
    st.fixed_dictionaries(
        dict(Z=st.integers(1, 92), c=log(0.01, 100.0), E=st.lists(log(0.01, 20.0), min_size=1, max_size=5), n=st.integers(2, 8))
    ),
    quick=100,
)
def own_total(case):
    c, E = case["c"], np.array(case["E"])

    class Own(KleinNishina):
        def cs_total(self, E):
            return c * KleinNishina.cs_total(self, E)

    plain, own = KleinNishina(case["Z"]), Own(case["Z"])
    require_close(own(E), c * plain(E), 1e-12, what="own total cross section")
    require_close((2.0 * own + plain)(E), (2.0 * c + 1.0) * plain(E), 1e-12, what="sum")
    require_close(own.cs_diff_dtheta(E, 1.0), plain.cs_diff_dtheta(E, 1.0), 1e-12, what="differential cross section")
    table = np.array([[1.0, c], [2.0, 2.0 * c], [4.0, 8.0 * c]])

    class Reader(XRMAC):
        def read_nist_xrmac(self, name):
            return np.array(json.loads(name))

    own = Reader(json.dumps(table.tolist()))
    require_close(own(E), XRMAC(table)(E), 1e-12, what="own format of tables")
    limits = (min(case["E"]), 1.0 + max(case["E"]))
    require_close(own.equidistant_energy_grid(limits, case["n"]), np.linspace(*limits, case["n"]), 1e-13, what="grid")
    return True


# C33 ----------------------------------------------------------------------------------------------


class Failing:
    """Function that fails at a given call"""

    def __init__(self, function, call, error):
        self.function = function
        self.call = call
        self.error = error
        self.count = 0
        self.raised = False

    def __call__(self, *arguments):
        self.count += 1
        if self.count == self.call:
            self.raised = True
            raise self.error
        return self.function(*arguments)


ERRORS = [
    ValueError,
    RuntimeError,
    KeyError,
    IndexError,
    TypeError,
    AttributeError,
    ZeroDivisionError,
    FloatingPointError,
    StopIteration,
    OSError,
    ArithmeticError,
    NotImplementedError,
    AssertionError,
    KeyboardInterrupt,
    UserWarning,
]
NAMES = [e.__name__ for e in ERRORS]


def attempt(failing, operation):
    """Returns whether the failure was reached. It must be passed on to the caller."""
    settings = np.geterr()
    error = None
    try:
        operation()
    except BaseException as e:
        error = e
    if not failing.raised:
        if error is not None:
            raise error
        return False
    require(error is not None, "a failure of a user-defined function was ignored")
    chain = error
    while chain is not None and chain is not failing.error:
        chain = chain.__cause__ or chain.__context__
    require(chain is failing.error, "another error was reported: {!r}".format(error))
    require(np.geterr() == settings, "settings of the floating-point errors were changed")
    return True


failure = dict(call=st.one_of(st.integers(1, 3), st.integers(1, 40)), error=st.integers(0, len(ERRORS) - 1))


def error_of(case):
    return ERRORS[case["error"]]("planned failure")


@obligation(
    "C33",
    "failing functions",
    st.fixed_dictionaries(
        dict(
            operation=st.sampled_from(["darboux", "quad", "quad 2D", "sum", "grid", "recoil"]),
            c=st.lists(lin(0.1, 3.0), min_size=3, max_size=3),
            r=resonance(energy=(0.5, 5.0), relative_width=(1e-3, 0.1), final=False),
            lo=lin(0.1, 4.0),
            length=lin(0.1, 5.0),
            n=st.integers(2, 6),
            position=st.integers(0, 2),
            **failure,
        )
    ),
    quick=400,
)
def failing_functions(case):
    c = case["c"]
    lo, hi = case["lo"], case["lo"] + case["length"]
    grid = np.linspace(lo, hi, case["n"])
    op = case["operation"]
    if op in ("darboux", "quad", "quad 2D"):

        def plain(x, y=1.0):
            return polynomial(c, x) * y

        failing = Failing(plain, case["call"] if op != "darboux" else 1, error_of(case))
        run = dict(
            darboux=lambda f: darboux(f, grid),
            quad=lambda f: quad_partition(f, grid),
        ).get(op, lambda f: quad_partition(f, grid, [[0.0, 2.0]]))
        reached = attempt(failing, lambda: run(failing))
        value = run(plain)
        integral = c[0] * (hi - lo) + c[1] * (hi**2 - lo**2) / 2 + c[2] * (hi**3 - lo**3) / 3
        if op == "darboux":
            f = polynomial(c, grid)
            require_close(value[0], float(np.sum(f[:-1] * np.diff(grid))), 1e-12, what="lower sum after a failure")
        else:
            require_close(value[0], integral * (2.0 if op == "quad 2D" else 1.0), 1e-9, what="integral after a failure")
        return reached
    if op == "recoil":
        failing = Failing(lambda E: 1.5 * E, 1, error_of(case))
        plain = build(case["r"])
        states = plain.initial_state, plain.intermediate_state
        reached = attempt(failing, lambda: Resonance(*states, recoil_correction=failing))
        again = Resonance(*states, recoil_correction=lambda E: 1.5 * E)
        Er = case["r"]["E2"] - case["r"]["E0"]
        require_close(again.resonance_energy, 1.5 * Er, 1e-14, what="resonance energy after a failure")
        fresh = Resonance(*states)
        require_close(fresh.resonance_energy, Er, 1e-14, what="resonance energy without a correction after a failure")
        return reached
    # A part of a sum fails.
    user = General(c)
    method = Failing(lambda *a: General.__call__(user, *a) if op == "sum" else user_grid(*a), min(case["call"], 4), error_of(case))

    class Unreliable(CrossSection):
        def __call__(self, E):
            return method(E) if op == "sum" else polynomial(c, E)

        def equidistant_probability_grid(self, limits, n_points):
            return method(limits, n_points) if op == "grid" else user_grid(limits, n_points)

    line = build(case["r"])
    terms = [line, 0.5 * KleinNishina(3)]
    terms.insert(case["position"], Unreliable())
    total = sum(terms)

    def operate():
        for k in range(4):
            if op == "sum":
                total(grid + 0.1 * k)
            else:
                total.equidistant_probability_grid((lo + 0.1 * k, hi + 0.1 * k), case["n"])

    reached = attempt(method, operate)
    method.call = 0
    fresh = build(case["r"])
    expected = fresh(grid) + 0.5 * KleinNishina(3)(grid) + polynomial(c, grid)
    require_close(total(grid), expected, 1e-12, what="sum after a failure")
    expected = np.concatenate([fresh.equidistant_probability_grid((lo, hi), case["n"]), user_grid((lo, hi), case["n"]), grid])
    same_points(total.equidistant_probability_grid((lo, hi), case["n"]), expected, "grid after a failure")
    return reached


@obligation(
    "C33",
    "failing distributions",
    st.fixed_dictionaries(
        dict(
            r=resonance(shapes=("breit_wigner", "gauss"), energy=(0.5, 5.0), relative_width=(1e-3, 0.05), final=False),
            method=st.sampled_from(["pdf", "cdf", "ppf"]),
            operations=st.lists(st.sampled_from(["call", "coverage", "limits", "share", "energy"]), min_size=1, max_size=4),
            **failure,
        )
    ),
    quick=250,
)
def failing_distributions(case):
    """The distribution of a resonance fails at some call. Other objects and later calls are not affected."""
    cs = build(case["r"])
    ref = Reference(case["r"])
    true = cs.probability_distribution
    parameters = cs.probability_distribution_parameters
    failing = Failing(getattr(true, case["method"]), 1 + case["call"] % 4, error_of(case))

    class Unreliable:
        pdf = staticmethod(true.pdf)
        cdf = staticmethod(true.cdf)
        ppf = staticmethod(true.ppf)

    setattr(Unreliable, case["method"], staticmethod(failing))
    cs.probability_distribution = Unreliable()
    limits = (ref.Er - 0.3 * ref.w, ref.Er + 2.0 * ref.w)

    def results(x):
        out = []
        for op in case["operations"]:
            if op == "call":
                out.append(x(ref.Er + 0.3 * ref.w))
            elif op == "coverage":
                out.append(x.coverage_interval(0.5))
            elif op == "limits":
                out.append(x.equidistant_probability_grid(limits, 5))
            elif op == "share":
                out.append(x.equidistant_probability_grid(0.5, 5))
            else:
                out.append(x.equidistant_energy_grid(0.5, 5))
        return out

    reached = attempt(failing, lambda: results(cs))
    failing.call = 0
    for x in (cs, build(case["r"])):
        for a, b in zip(results(x), results(build(case["r"]))):
            require_close(a, b, 1e-13, what="result after a failure")
    require(cs.probability_distribution_parameters == parameters, "parameters of the distribution were changed")
    return reached


TEXTS = ["abc", "--", "1.0.0", "1,5", "1.0E", "0x1", "E-03", "?", "1.0_", "(1)"]


def open_files(directory):
    """Files in a directory that this process has open"""
    found = []
    for number in os.listdir("/proc/self/fd"):
        try:
            target = os.readlink("/proc/self/fd/" + number)
        except OSError:
            continue
        if target.startswith(directory):
            found.append(target)
    return found


def must_fail(operation, kinds, what):
    try:
        value = operation()
    except kinds:
        return
    raise Violation("{} was accepted: {!r}".format(what, value))


def reading(kind, directory, case, damage=None):
    """Write a file. Returns its name, the function to read it, and the expected result."""
    name = os.path.join(directory, "data.txt")
    n = case["n"]
    k = case["row"] % n
    text = TEXTS[case["text"]]
    column = case["column"] % 3
    if kind == "xrmac":
        rows = [["{:.5E}".format(0.001 * 1.5**i), "{:.3E}".format(2.0 + i), "{:.3E}".format(1.0 + 0.5 * i)] for i in range(n)]
        expected = [[float(v) for v in row] for row in rows]
        if damage == "text":
            rows[k][column] = text
        elif damage == "short":
            rows[k] = rows[k][: column]
        lines = [("   " if case["labels"] else "") + "  ".join(row) for row in rows]
        return name, lines, expected
    symbols = ["H", "He", "Li", "C", "N", "O", "Fe", "Pb"]
    symbol = symbols[k % len(symbols)]
    if kind == "density":
        lines = []
        for i, X in enumerate(symbols):
            value = "{:.4f}".format(1.0 + i)
            if X == symbol and damage == "text":
                value = text
            elif X == symbol and damage == "short":
                value = ""
            lines.append("{:2s} {}".format(X, value))
        return name, lines, (symbol, 1.0 + symbols.index(symbol))
    lines = []
    values = []
    for i in range(n):
        A = str(2 + i)
        amu = "{:.4f}".format(2.01 + i)
        share = "0.{:d}".format(1 + i % 8)
        values.append((A + "Li", float(amu), float(share)))
        if i == k and damage is not None:
            damaged = text if damage == "text" else "x"
            A, amu, share = [(damaged, amu, share), (A, damaged, share), (A, amu, damaged)][column]
        lines += [
            "Atomic Number = 3",
            "Atomic Symbol = Li",
            "Mass Number = " + A,
            "Relative Atomic Mass = " + amu + ("(12)" if case["labels"] and amu[0] in "123456789" and amu != text else ""),
            "Isotopic Composition = " + share,
            "Standard Atomic Weight = 6.9",
            "Notes = m",
            "",
        ]
    return name, lines, values


@obligation(
    "C33",
    "missing and damaged files",
    st.fixed_dictionaries(
        dict(
            kind=st.sampled_from(["xrmac", "density", "element"]),
            damage=st.sampled_from(["missing", "text", "text", "short", "directory", "conversion", "conversion"]),
            n=st.integers(2, 8),
            row=st.integers(0, 7),
            column=st.integers(0, 2),
            text=st.integers(0, len(TEXTS) - 1),
            labels=st.booleans(),
            **failure,
        )
    ),
    quick=400,
)
def files(case):
    kind, damage = case["kind"], case["damage"]
    if kind == "element" and damage == "text" and TEXTS[case["text"]] in ("(1)", "?") and case["column"] % 3 != 0:
        # An empty value before an uncertainty is not damaged.
        damage = "short"
    if kind == "xrmac" and damage == "text" and case["row"] % case["n"] == 0 and case["column"] % 3 == 0:
        # The first character of the file determines the format.
        case = dict(case, column=1)
    with tempfile.TemporaryDirectory() as directory:
        directory = os.path.realpath(directory)
        name, lines, expected = reading(kind, directory, case, damage if damage in ("text", "short") else None)
        _, good, _ = reading(kind, directory, case)
        call = 1 if kind == "density" else case["call"]
        failing = Failing(lambda x: 2.0 * x, call, error_of(case)) if damage == "conversion" else None

        if kind == "xrmac":
            convert = dict(energy_conversion=failing) if case["column"] == 0 else dict(xrmac_conversion=failing)
            convert = convert if failing else {}
            reader = XRMAC(np.array([[1.0, 1.0], [2.0, 1.0]]), **convert)

            def read(fresh):
                return XRMAC(name, **convert).data if fresh else reader.read_nist_xrmac(name)

            def compare(data):
                require_close(np.array(data) / scale, expected, 1e-13, what="table after a failure")

            scale = np.ones(3)
            if failing:
                scale = np.array([2.0, 1.0, 1.0]) if case["column"] == 0 else np.array([1.0, 2.0, 2.0])
        elif kind == "density":
            arguments = [failing] if failing else []
            reader = Geant4DensityDataReader(name, *arguments)

            def read(fresh):
                used = Geant4DensityDataReader(name, *arguments) if fresh else reader
                return used.read_density_data(expected[0])

            def compare(density):
                require_close(density, expected[1] * (2.0 if failing else 1.0), 1e-13, what="density after a failure")
        else:
            reader = NISTElementDataReader(name)

            def read(fresh):
                used = NISTElementDataReader(name) if fresh else reader
                return used.read_nist_element_data(3)

            def compare(result):
                abundances, isotopes = result
                require(list(abundances) == [v[0] for v in expected], "isotopes after a failure")
                require_close([isotopes[v[0]].amu for v in expected], [v[1] for v in expected], 1e-13, what="masses after a failure")
                require_close(list(abundances.values()), [v[2] for v in expected], 1e-13, what="abundances after a failure")

        if damage == "directory":
            os.mkdir(name)
        elif damage != "missing":
            with open(name, "w") as file:
                file.write("\n".join(lines if damage != "conversion" else good) + "\n")
        reached = True
        if damage in ("missing", "directory"):
            for fresh in (True, False):
                must_fail(lambda: read(fresh), OSError, "missing file")
        elif damage in ("text", "short"):
            for fresh in (True, False):
                must_fail(lambda: read(fresh), Exception, "damaged file")
        elif failing:
            reached = attempt(failing, lambda: read(True))
        require(not open_files(directory), "a file stays open")
        if damage == "directory":
            os.rmdir(name)
        with open(name, "w") as file:
            file.write("\n".join(good) + "\n")
        for fresh in (True, False, True):
            if failing:
                failing.call = 0
            compare(read(fresh))
        require(not open_files(directory), "a file stays open")
    return reached
