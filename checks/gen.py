"""Generators of cases, construction of objects from cases, and reference formulas

The reference formulas do not use the library, and the physical constants are written out.
"""

import functools

import numpy as np
from hypothesis import strategies as st
from scipy.special import ndtr, ndtri, wofz

import vlib  # noqa: F401
from ries.constituents.state import GroundState, State
from ries.resonance.breit_wigner import BreitWigner
from ries.resonance.gauss import Gauss
from ries.resonance.pseudo_voigt import PseudoVoigt
from ries.resonance.resonance import Resonance
from ries.resonance.voigt import Voigt

EPS = np.finfo(float).eps

# CODATA 2018
HBARC = 197.3269804  # MeV fm
ALPHA = 7.2973525693e-3
ME = 0.51099895  # MeV
KB = 8.617333262e-11  # MeV/K
U = 931.49410242  # MeV
U_G = 1.66053906660e-24  # g
# Relative uncertainty due to the choice of the CODATA version
RTOL_CONST = 5e-7

# Hypothesis prefers small numbers when it draws from a wide range of integers.
# Two decimal places at a time are almost uniformly distributed, and still shrink to zero.
digits = st.integers(0, 99)
unit = st.builds(
    lambda a, b, c: min(1.0, a / 99 + b / 1e4 + c / 1e6), digits, digits, digits
)


# Numbers that a user would choose
SPECIAL = [0.0, 1.0, 0.5, 2.0, 10.0, 100.0, 1000.0, 0.1, 0.01, 0.001, 3.0, 5.0, 20.0, 50.0, 200.0, 1.5, 2.5, 0.2]
SPECIAL += [0.9, 0.95, 0.99, 0.999, 0.68, 0.6827, 0.25, 0.75, 0.8, 1.0 / 3.0, 2.0 / 3.0, 0.511, ME, 938.27208816]
SPECIAL += [273.15, 293.0, 293.15, 295.0, 298.15, 300.0, 77.0, 4.2, 12.0, 56.0, 208.0, 12.5, 1e-6, 1e-9, 1e4, 1e6]
SPECIAL += [np.pi * k / 12.0 for k in (1, 2, 3, 4, 6, 8, 9, 12, 18, 24)]
SPECIAL += [-v for v in SPECIAL if v]


def familiar(lo, hi, spread):
    """Numbers between two limits, about a quarter of which are rounded or special ones"""
    special = [v for v in SPECIAL if lo <= v <= hi] or [hi]

    def number(u, kind, index):
        value = spread(u)
        if kind < 12:
            return value
        if kind < 14:
            value = float("{:.{}e}".format(value, kind - 12))
        else:
            value = special[index % len(special)]
        return min(max(value, lo), hi)

    return st.builds(number, unit, st.integers(0, 15), st.integers(0, 99))


def lin(lo, hi):
    """Uniformly distributed numbers"""
    return familiar(lo, hi, lambda u: lo + (hi - lo) * u)


def log(lo, hi):
    """Logarithmically distributed numbers"""
    return familiar(lo, hi, lambda u: lo * (hi / lo) ** u)


def many(count, seed, lo, hi, logarithmic=False):
    """Many numbers from a seed, for cases in which the amount of data matters"""
    u = np.random.default_rng(seed).random(count)
    if logarithmic:
        return (lo * (hi / lo) ** u).tolist()
    return (lo + (hi - lo) * u).tolist()


SEEDS = st.integers(0, 9999)
# Twice the spin
SPINS = st.one_of(st.integers(0, 14), st.integers(0, 14), st.integers(0, 14), st.integers(0, 120))
SHAPES = ["box", "breit_wigner", "gauss", "pseudo_voigt", "voigt"]


ENERGY = (1e-2, 20.0)
TEMPERATURE = (0.1, 1e4)


@st.composite
def resonance(
    draw,
    shapes=tuple(SHAPES),
    energy=ENERGY,
    relative_width=(1e-9, 0.1),
    temperature=TEMPERATURE,
    max_channels=5,
    final=True,
):
    """Parameters of a resonance as a dictionary"""
    amu = st.one_of(lin(1.0, 250.0), lin(1.0, 250.0), st.integers(1, 300), lin(1.0, 10.0))
    # Sometimes, use unusual values unless the range is given.
    wide = energy == ENERGY and draw(st.integers(0, 7)) == 7
    if wide:
        difference = draw(log(1e-6, 1e3))
        E0 = difference * draw(st.sampled_from([0.0, 0.5, 3.0]))
        amu = log(1e-2, 1e4)
        if temperature == TEMPERATURE:
            temperature = (1e-3, 1e8)
    else:
        difference = draw(log(*energy))
        E0 = draw(st.one_of(st.sampled_from([0.0, 0.0, 0.01, 0.5, 2.0]), lin(0.0, 10.0)))
    if not wide and difference > 1.0 and draw(st.integers(0, 5)) == 0:
        # Integer energies
        difference = int(difference)
        E0 = draw(st.integers(0, 3))
    n = draw(st.integers(1, max_channels))
    names = ["i"] + ["c{:d}".format(i) for i in range(1, n)]
    order = draw(st.permutations(names))
    shares = [draw(st.integers(1, 1000)) for _ in names]
    width = difference * draw(log(*relative_width))
    return dict(
        shape=draw(st.sampled_from(list(shapes))),
        E0=E0,
        E2=E0 + difference,
        two_J0=draw(SPINS),
        two_J2=draw(SPINS),
        parity=draw(st.sampled_from([-1, 1])),
        widths=[[name, width * share / sum(shares)] for name, share in zip(order, shares)],
        amu=draw(amu),
        T=draw(
            st.one_of(
                log(*temperature),
                log(*temperature),
                st.integers(max(1, int(temperature[0])), int(min(temperature[1], 1000))),
            )
        ),
        final=draw(st.sampled_from([None] + names)) if final else None,
        labels=draw(st.sampled_from(["plain", "plain", "spectroscopic", "prefix", "numbers", "case", "own"])),
    )


@st.composite
def unusual_widths(draw, *args, **kwargs):
    """Resonance with partial widths that may be whole numbers or zero"""
    r = draw(resonance(*args, **kwargs))
    if draw(st.integers(0, 3)) == 0:
        for pair in r["widths"]:
            pair[1] = draw(st.integers(1, 9))
    if len(r["widths"]) > 1 and draw(st.integers(0, 5)) == 0:
        # No decay to the initial state
        r["widths"] = [[name, 0 * width if name == "i" else width] for name, width in r["widths"]]
    return r


def label(name, style):
    """Label of a state. Labels are arbitrary, so their style must not matter."""
    i = 0 if name == "i" else int(name[1:])
    if style == "spectroscopic":
        return "{:d}/2^{}_{:d}".format(1 + 2 * (i // 2), "+-"[i % 2], 1 + i // 4)
    if style == "prefix":
        return "1" * (i + 1)
    if style == "numbers":
        # Not sorted in the order of the numbers
        return "{:d}.{:d} keV ".format(12 - i, i)
    if style == "own":
        # Like the label of the excited state itself
        return ["i", "x", "X"][i % 3] + "'" * (i // 3)
    if style == "case":
        return ["a", "A", "\u03b1"][i % 3] + " " * (i // 3)
    return name


def states(case):
    """Initial and intermediate state"""
    style = case.get("labels", "plain")
    if case["E0"] == 0.0:
        initial = GroundState(label("i", style), case["two_J0"], 1)
    else:
        initial = State(label("i", style), case["two_J0"], 1, case["E0"], {"g": 1e-6})
    intermediate = State(
        "x",
        case["two_J2"],
        case["parity"],
        case["E2"],
        {label(k, style): v for k, v in case["widths"]},
    )
    return initial, intermediate


def final_state(name, initial, style="plain"):
    if name is None:
        return None
    if name == "i":
        return initial
    return State(label(name, style), 3, 1, 0.001, {"g": 1e-6})


def build(case, shape=None, final="case"):
    """Construct the resonance for a case"""
    initial, intermediate = states(case)
    last = final_state(
        case["final"] if final == "case" else final, initial, case.get("labels", "plain")
    )
    shape = shape or case["shape"]
    if shape == "box":
        return Resonance(initial, intermediate, last)
    if shape == "breit_wigner":
        return BreitWigner(initial, intermediate, last)
    model = dict(gauss=Gauss, pseudo_voigt=PseudoVoigt, voigt=Voigt)[shape]
    return model(initial, intermediate, case["amu"], case["T"], last)


def cauchy_between(a, b, scale):
    """Probability of a Cauchy distribution between two offsets"""
    a = np.asarray(a, dtype=float) / scale
    b = np.asarray(b, dtype=float) / scale
    return np.arctan2(b - a, 1.0 + a * b) / np.pi


def normal_between(a, b, sigma):
    """Probability of a normal distribution between two offsets"""
    a = np.asarray(a, dtype=float) / sigma
    b = np.asarray(b, dtype=float) / sigma
    mirror = a + b > 0.0
    a, b = np.where(mirror, -b, a), np.where(mirror, -a, b)
    return ndtr(b) - ndtr(a)


def thompson(fwhm_G, fwhm_L):
    """Common FWHM and mixing parameter of the approximation of Thompson et al."""
    G, L = fwhm_G, fwhm_L
    fwhm = (
        G**5
        + 2.69269 * G**4 * L
        + 2.42843 * G**3 * L**2
        + 4.47163 * G**2 * L**3
        + 0.07842 * G * L**4
        + L**5
    ) ** 0.2
    r = L / fwhm
    return fwhm, 1.36603 * r - 0.47719 * r**2 + 0.11116 * r**3


class Reference:
    """Reference for a resonance, in terms of the offset from the resonance energy"""

    def __init__(self, case, shape=None, final="case"):
        final = case["final"] if final == "case" else final
        widths = {k: v for k, v in case["widths"]}
        self.shape = shape or case["shape"]
        self.Er = case["E2"] - case["E0"]
        self.Gamma = sum(widths.values())
        self.Delta = self.Er * np.sqrt(2.0 * KB * case["T"] / (case["amu"] * U))
        self.sigma = self.Delta / np.sqrt(2.0)
        self.I = (
            (np.pi * HBARC / self.Er) ** 2
            * (case["two_J2"] + 1.0)
            / (case["two_J0"] + 1.0)
            * widths["i"]
            * (1.0 if final is None else widths[final] / self.Gamma)
        )
        self.fwhm, self.eta = thompson(
            2.0 * np.sqrt(np.log(2.0)) * self.Delta, self.Gamma
        )
        self.pv_sigma = self.fwhm / np.sqrt(8.0 * np.log(2.0))
        # Characteristic width
        self.w = dict(
            box=1.0,
            breit_wigner=self.Gamma,
            gauss=self.Delta,
            pseudo_voigt=self.fwhm,
            voigt=self.fwhm,
        )[self.shape]
        # Relative size of rounding errors of energies on the scale of the width
        self.rounding = EPS * (self.Er + self.w) / self.w

    def pdf(self, d):
        """Density at an offset (true Voigt profile for `voigt`)"""
        d = np.asarray(d, dtype=float)
        if self.shape == "box":
            return np.where(np.abs(d) <= 0.5, 1.0, 0.0)
        if self.shape == "breit_wigner":
            return cauchy_pdf(d, 0.5 * self.Gamma)
        if self.shape == "gauss":
            return normal_pdf(d, self.sigma)
        if self.shape == "pseudo_voigt":
            return (1.0 - self.eta) * normal_pdf(
                d, self.pv_sigma
            ) + self.eta * cauchy_pdf(d, 0.5 * self.fwhm)
        return voigt_pdf(d, self.sigma, 0.5 * self.Gamma)

    def between(self, a, b):
        """Probability between two offsets (pseudo-Voigt for `voigt`, which defines its grids)"""
        if self.shape == "box":
            return np.clip(np.minimum(b, 0.5) - np.maximum(a, -0.5), 0.0, None)
        if self.shape == "breit_wigner":
            return cauchy_between(a, b, 0.5 * self.Gamma)
        if self.shape == "gauss":
            return normal_between(a, b, self.sigma)
        return (1.0 - self.eta) * normal_between(
            a, b, self.pv_sigma
        ) + self.eta * cauchy_between(a, b, 0.5 * self.fwhm)

    def cdf(self, d):
        """Probability below an offset, accurate in the tail (pseudo-Voigt for `voigt`)"""
        d = np.asarray(d, dtype=float)
        if self.shape == "box":
            return np.clip(d + 0.5, 0.0, 1.0)
        if self.shape == "breit_wigner":
            return np.arctan2(0.5 * self.Gamma, -d) / np.pi
        if self.shape == "gauss":
            return ndtr(d / self.sigma)
        return (1.0 - self.eta) * ndtr(d / self.pv_sigma) + self.eta * np.arctan2(
            0.5 * self.fwhm, -d
        ) / np.pi

    def sf(self, d):
        """Probability above an offset. All shapes are symmetric."""
        return self.cdf(-np.asarray(d, dtype=float))


def cauchy_pdf(d, scale):
    return scale / (np.pi * (d * d + scale * scale))


def normal_pdf(d, sigma):
    return np.exp(-0.5 * (d / sigma) ** 2) / (sigma * np.sqrt(2.0 * np.pi))


def voigt_pdf(d, sigma, gamma):
    return wofz((d + 1j * gamma) / (sigma * np.sqrt(2.0))).real / (
        sigma * np.sqrt(2.0 * np.pi)
    )


def gauss_legendre(n, a, b, cache={}):
    """Nodes and weights on an interval"""
    if n not in cache:
        cache[n] = np.polynomial.legendre.leggauss(n)
    x, w = cache[n]
    return 0.5 * (b - a) * x + 0.5 * (a + b), 0.5 * (b - a) * w


def limits_container(limits, kind):
    if kind == "tuple":
        return tuple(limits)
    if kind == "list":
        return list(limits)
    return np.array(limits)


def count(n):
    """Number of points as one of several types"""
    return [int, np.int64, np.int32, np.int16 if n < 2**15 else np.int64][n % 4](n)


class Function:
    """Callable object and method"""

    def __init__(self, f):
        self.f = f

    def __call__(self, *arguments):
        return self.f(*arguments)


STYLES = st.sampled_from(["function", "partial", "object", "method", "numpy"])


def as_callable(f, style, dimension=1):
    """The same function as one of several types"""
    if style == "partial":
        return functools.partial(lambda g, *x: g(*x), f)
    if style == "object":
        return Function(f)
    if style == "method":
        return Function(f).__call__
    if style == "numpy":
        return np.frompyfunc(f, dimension, 1)
    return f


CONTAINERS = st.sampled_from(["tuple", "list", "array"])
