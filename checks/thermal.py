"""C14 to C17: thermal motion and recoil"""

import json

import numpy as np
from hypothesis import strategies as st

from gen import KB, RTOL_CONST, STYLES, U, Reference, as_callable, build, final_state, gauss_legendre, lin, log, resonance, states
from vlib import VERIF, Violation, obligation, quiet, require, require_close, rule
from ries.constituents.element import X, natural_elements
from ries.resonance.debye_model import (
    effective_temperature_debye_approximation,
    room_temperature_T_D,
)
from ries.resonance.maxwell_boltzmann import MaxwellBoltzmann
from ries.resonance.recoil import FreeNucleusRecoil, NoRecoil
from ries.resonance.resonance import Resonance

GOLDEN_T_D = json.loads((VERIF / "golden" / "debye_temperatures.json").read_text())

rule(
    "C14",
    "Random temperatures and Debye temperatures with ratios between 1e-6 and 1e6, scalars and "
    "broadcast arrays. A case is non-trivial if the result differs from both limits by more than "
    "one per mille, or if it is an array.",
)
rule(
    "C15",
    "All 118 element symbols, and random temperatures for all tabulated elements. A case is "
    "non-trivial if a Debye temperature is tabulated.",
)
rule(
    "C16",
    "Random masses, temperatures and energies over many orders of magnitude. All cases are "
    "non-trivial, since the width is positive for all of them.",
)
rule(
    "C17",
    "Random masses and energies, and pairs of states. A case is non-trivial if the correction "
    "exceeds the rounding errors of the energy by a factor of 1000.",
)


def debye_reference(T, T_D):
    """Thermal energy of the oscillators plus zero-point motion"""
    x = T_D / T
    total = 0.0
    upper = min(x, 60.0)
    edges = np.linspace(0.0, upper, 9)
    for a, b in zip(edges[:-1], edges[1:]):
        t, weight = gauss_legendre(30, a, b)
        total += np.sum(weight * t**3 / np.expm1(t))
    return 3.0 * T / x**3 * total + 0.375 * T_D


@obligation(
    "C14",
    "integral and bounds",
    st.fixed_dictionaries(
        dict(T_D=st.one_of(log(1.0, 3e3), log(1.0, 3e3), log(1e-9, 1e9)), ratio=st.one_of(log(1e-3, 1e3), log(1e-6, 1e6)), k=lin(1.0, 3.0), integer=st.booleans())
    ),
    quick=1000,
)
def debye(case):
    T_D = case["T_D"]
    T = T_D * case["ratio"]
    if case["integer"]:
        T_D = max(1, int(T_D))
        T = max(1, int(T))
    value = effective_temperature_debye_approximation(T, T_D)
    require(np.ndim(value) == 0, "result for scalars is not a scalar")
    value = float(value)
    require_close(value, debye_reference(T, T_D), 1e-7, what="effective temperature")
    require(value >= T * (1 - 1e-9), "smaller than the temperature")
    require(value >= 0.375 * T_D * (1 - 1e-9), "smaller than the zero-point limit")
    # T (1 + x^2/20) is an upper limit.
    require(value <= T * (1.0 + (T_D / T) ** 2 / 20.0) * (1 + 1e-9), "above the upper limit")
    for a, b in ((T * case["k"], T_D), (T, T_D * case["k"])):
        require(
            float(effective_temperature_debye_approximation(a, b)) >= value * (1 - 1e-7),
            "not increasing",
        )
    return value > 1.001 * T and value > 1.001 * 0.375 * T_D


@obligation(
    "C14",
    "arrays",
    st.fixed_dictionaries(
        dict(
            T=st.lists(log(1.0, 3e3), min_size=1, max_size=6),
            T_D=st.lists(log(10.0, 2e3), min_size=1, max_size=4),
            layout=st.sampled_from(["T", "T_D", "outer", "column", "cube", "both", "list"]),
        )
    ),
    quick=200,
)
def debye_arrays(case):
    T, T_D = np.array(case["T"]), np.array(case["T_D"])
    if case["layout"] == "T":
        a, b = T, T_D[0]
    elif case["layout"] == "T_D":
        a, b = T[0], T_D
    elif case["layout"] == "outer":
        a, b = T[:, None], T_D[None, :]
    elif case["layout"] == "column":
        a, b = T, T_D[:, None]
    elif case["layout"] == "cube":
        a, b = T[:, None, None] * np.array([1.0, 2.0]), T_D[:, None]
    elif case["layout"] == "list":
        a, b = case["T"], float(T_D[0])
    else:
        n = min(len(T), len(T_D))
        a, b = T[:n], T_D[:n]
    value = effective_temperature_debye_approximation(a, b)
    A, B = np.broadcast_arrays(a, b)
    require(np.shape(value) == A.shape, "shape {} instead of {}".format(np.shape(value), A.shape))
    expected = [debye_reference(x, y) for x, y in zip(A.ravel(), B.ravel())]
    require_close(np.ravel(value), expected, 1e-7, what="effective temperature")
    return True


@obligation(
    "C14",
    "zero temperature",
    st.fixed_dictionaries(
        dict(
            T=st.lists(log(1.0, 3e3), min_size=0, max_size=3),
            zero=st.sampled_from([0, 0.0, -0.0]),
            position=st.integers(0, 3),
            T_D=log(1e-3, 3e3),
            layout=st.sampled_from(["scalar", "array", "list", "column", "debye"]),
        )
    ),
    quick=200,
)
def zero_temperature(case):
    T_D = case["T_D"]
    temperatures = list(case["T"])
    temperatures.insert(case["position"], case["zero"])
    if case["layout"] == "scalar":
        T = case["zero"]
    elif case["layout"] == "list":
        T = temperatures
    elif case["layout"] == "column":
        T = np.array(temperatures)[:, None]
        T_D = np.array([T_D, 2.0 * T_D])
    elif case["layout"] == "debye":
        T = case["zero"]
        T_D = np.array([T_D, 2.0 * T_D])
    else:
        T = np.array(temperatures)
    try:
        value = effective_temperature_debye_approximation(T, T_D)
    except ZeroDivisionError:
        return case["layout"] != "scalar"
    require(False, "result {!r} for a temperature of zero".format(value))


# C15 ----------------------------------------------------------------------------------------------


@obligation("C15", "all symbols", cases=lambda: sorted(set(X.values()) | set(GOLDEN_T_D)))
def debye_table(symbol):
    require((symbol in room_temperature_T_D) == (symbol in GOLDEN_T_D), "entry for " + symbol)
    if symbol not in GOLDEN_T_D:
        return False
    value = room_temperature_T_D[symbol]
    if GOLDEN_T_D[symbol] is None:
        require(value is None, "value for {} is {!r}".format(symbol, value))
    else:
        require_close(value, GOLDEN_T_D[symbol], 1e-12, what="Debye temperature of " + symbol)
    return True


@obligation("C15", "no other entries", cases=lambda: ["keys"])
def debye_keys(_):
    require(len(room_temperature_T_D) == len(GOLDEN_T_D), "number of entries changed")
    for symbol in room_temperature_T_D:
        require(symbol in natural_elements, "{!r} is not the symbol of an element".format(symbol))
        value = room_temperature_T_D[symbol]
        require(value is None or 10.0 < value < 3000.0, "value for " + symbol)


@obligation(
    "C15",
    "use of the entries",
    st.fixed_dictionaries(
        dict(symbol=st.sampled_from(sorted(GOLDEN_T_D)), T=log(1.0, 3e3))
    ),
    quick=400,
)
def debye_use(case):
    value = room_temperature_T_D[case["symbol"]]
    if value is None:
        return False
    T_eff = float(effective_temperature_debye_approximation(case["T"], value))
    require_close(T_eff, debye_reference(case["T"], GOLDEN_T_D[case["symbol"]]), 1e-7)
    require(T_eff > case["T"] * (1 - 1e-9), "below the thermodynamic temperature")
    return True


# C16 ----------------------------------------------------------------------------------------------

gas = dict(
    amu=st.one_of(log(1e-3, 400.0), log(1e-6, 1e9)),
    T=st.one_of(log(1e-4, 1e8), log(1e-12, 1e12)),
    E=st.lists(log(1e-9, 1e3), min_size=1, max_size=6),
)


@obligation("C16", "Doppler width and inverse", st.fixed_dictionaries(gas), quick=1000)
def doppler(case):
    mb = MaxwellBoltzmann(case["amu"], case["T"])
    E = np.array(case["E"])
    expected = E * np.sqrt(2.0 * KB * case["T"] / (case["amu"] * U))
    width = mb.get_doppler_width(E)
    require_close(width, expected, RTOL_CONST, what="Doppler width")
    for e, w in zip(case["E"], width):
        require_close(mb.get_doppler_width(e), w, 1e-12, what="Doppler width of a scalar")
        require_close(
            MaxwellBoltzmann.get_effective_temperature(w, case["amu"], e),
            case["T"],
            1e-11,
            what="effective temperature",
        )
    require_close(
        mb.get_effective_temperature(width, case["amu"], E),
        case["T"],
        1e-11,
        what="effective temperature",
    )
    require((mb.amu, mb.effective_temperature) == (case["amu"], case["T"]), "attributes changed")


@obligation(
    "C16",
    "inverse and Doppler width",
    st.fixed_dictionaries(dict(amu=gas["amu"], E=log(1e-9, 1e3), w=st.lists(log(1e-9, 1.0), min_size=1, max_size=5))),
    quick=500,
)
def doppler_inverse(case):
    E = case["E"]
    width = E * np.array(case["w"])
    T = MaxwellBoltzmann.get_effective_temperature(width, case["amu"], E)
    require_close(
        T, (width / E) ** 2 * case["amu"] * U / (2.0 * KB), 2 * RTOL_CONST, what="temperature"
    )
    # One width at several energies
    energies = E * np.array([[1.0], [2.0], [0.25]])
    require_close(
        MaxwellBoltzmann.get_effective_temperature(float(width[0]), case["amu"], energies),
        T[0] * np.array([[1.0], [0.25], [16.0]]),
        1e-12,
        what="temperatures for several energies",
    )
    require_close(
        MaxwellBoltzmann.get_effective_temperature(width, case["amu"], energies),
        T * np.array([[1.0], [0.25], [16.0]]),
        1e-12,
        what="temperatures for several widths and energies",
    )
    for t, w in zip(T, width):
        require_close(
            MaxwellBoltzmann(case["amu"], float(t)).get_doppler_width(E), w, 1e-11, what="width"
        )
    require_close(
        MaxwellBoltzmann(case["amu"], T).get_doppler_width(E), width, 1e-11, what="widths"
    )


# C17 ----------------------------------------------------------------------------------------------


@obligation(
    "C17",
    "conservation laws",
    st.fixed_dictionaries(
        dict(amu=st.one_of(log(0.5, 400.0), log(1e-4, 1e6)), E=st.lists(st.one_of(log(1e-4, 1e3), log(1e-9, 1e6)), min_size=1, max_size=6))
    ),
    quick=1000,
)
def recoil(case):
    correction = FreeNucleusRecoil(case["amu"])
    m = case["amu"] * U
    E = np.array(case["E"])
    Er = correction(E)
    # (m + Er)^2 - Er^2 = (m + E)^2
    x, y = E / m, Er / m
    require_close(2.0 * y, 2.0 * x + x * x, 1e-12, RTOL_CONST * x * x, what="four-momentum balance")
    R = Er - E
    require((R > -1e-15 * E).all(), "correction is negative")
    require_close(R, E * E / (2.0 * m), RTOL_CONST + 1e-9, 8e-16 * E, what="recoil correction")
    # Emission, i.e. a negative difference
    require_close(correction(-E) + E, E * E / (2.0 * m), RTOL_CONST + 1e-9, 8e-16 * E, what="correction of an emission")
    for e, er in zip(case["E"], Er):
        require_close(correction(e), er, 1e-14, what="scalar energy")
    require_close(NoRecoil()(E), E, 0.0, what="no recoil")
    return bool(np.any(R > 1e3 * 2e-16 * E))


@obligation(
    "C17",
    "resonance energy",
    st.builds(lambda r, m, style: dict(r=r, m=m, style=style), resonance(), lin(1.0, 250.0), STYLES),
    quick=500,
)
def recoil_resonance(case):
    r = case["r"]
    ref = Reference(r)
    require_close(build(r).resonance_energy, ref.Er, 1e-13, what="resonance energy")
    initial, intermediate = states(r)
    last = final_state(r["final"], initial, r["labels"])
    cs = Resonance(initial, intermediate, last, recoil_correction=FreeNucleusRecoil(case["m"]))
    plain = Resonance(initial, intermediate, last)
    Er = ref.Er * (1.0 + ref.Er / (2.0 * case["m"] * U))
    require_close(cs.resonance_energy, Er, 1e-12 + RTOL_CONST * ref.Er / (case["m"] * U))
    require_close(plain.resonance_energy, ref.Er, 1e-13, what="resonance energy without recoil")
    require_close(
        Resonance(initial, intermediate, None, NoRecoil()).resonance_energy, ref.Er, 1e-13
    )
    # A correction that is defined by the user
    correction = as_callable(lambda E: 1.5 * E + 0.25, case.get("style", "function"))
    own = Resonance(initial, intermediate, last, recoil_correction=correction)
    require_close(own.resonance_energy, 1.5 * ref.Er + 0.25, 1e-12, what="energy with another correction")
    require_close(
        own(1.5 * ref.Er + 0.25),
        plain.energy_integrated_cross_section * (ref.Er / (1.5 * ref.Er + 0.25)) ** 2,
        1e-9,
        what="cross section with another correction",
    )
    # Position of the resonance, and center of the grids
    # (the lower limit may have been set to zero)
    require_close(cs.coverage_interval(0.1)[1], Er + 0.05, 1e-9, what="center of the resonance")
    edge = 0.5 - 1e-6
    inside = cs(np.array([Er - edge, Er, Er + edge]))
    require_close(inside, cs.energy_integrated_cross_section, 1e-9, what="cross section inside")
    outside = cs(np.array([Er - 0.5 - 1e-6, Er + 0.5 + 1e-6]))
    require_close(outside, 0.0, 0.0, what="cross section outside")
    require_close(
        cs.energy_integrated_cross_section,
        plain.energy_integrated_cross_section * (ref.Er / Er) ** 2,
        1e-10 + 2.0 * RTOL_CONST * ref.Er / (case["m"] * U),
        what="strength",
    )
    require_close(
        cs(0.0, input_is_absolute_energy=False), cs.energy_integrated_cross_section, 1e-9
    )
    return Er - ref.Er > 1e3 * 2e-16 * ref.Er
