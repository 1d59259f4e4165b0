"""C25 to C28: data of nuclei, thermal broadening, units of energy and thick targets"""

import numpy as np
from hypothesis import strategies as st

from gen import (
    CONTAINERS,
    EPS,
    KB,
    RTOL_CONST,
    U,
    Reference,
    build,
    gauss_legendre,
    limits_container,
    lin,
    log,
    resonance,
)
from resonances import fallback
from vlib import obligation, quiet, require, require_close, rule
from ries.constituents.element import Element, natural_elements
from ries.constituents.isotope import Isotope
from ries.constituents.state import GroundState, State
from ries.integration.darboux import darboux
from ries.integration.quad_partition import quad_partition
from ries.nonresonant.klein_nishina import KleinNishina
from ries.nonresonant.xrmac import XRMAC, xrmac_cm2_per_g, xrmac_fm2_per_atom
from ries.resonance.breit_wigner import BreitWigner
from ries.resonance.debye_model import (
    effective_temperature_debye_approximation,
    room_temperature_T_D,
)
from ries.resonance.gauss import Gauss
from ries.resonance.maxwell_boltzmann import MaxwellBoltzmann
from ries.resonance.pseudo_voigt import PseudoVoigt
from ries.resonance.recoil import FreeNucleusRecoil
from ries.resonance.voigt import Voigt

rule(
    "C25",
    "Random sequences of constructing and extending states, isotopes and elements. A case is "
    "non-trivial if it extends the data of an isotope after another one was constructed.",
)
rule(
    "C26",
    "Random resonances with natural and thermal widths of any ratio. A case is non-trivial if the "
    "thermal broadening changes the cross section at the resonance energy by more than one percent.",
)
rule(
    "C27",
    "Random resonances, Compton cross sections and tables, and factors from 1e-12 to 1e12. A case "
    "is non-trivial if the factor differs from one by more than ten percent.",
)
rule(
    "C28",
    "Random stacks of one to four layers of natural elements with resonances. A case is non-trivial "
    "if between 5 and 95 percent of the photons are absorbed.",
)

# C25 ----------------------------------------------------------------------------------------------

labels = st.sampled_from(["0^+_1", "0^+_2", "0^+_11", "2^+_1", "1^-_1", "1^-", "a", "", "3/2^-_1", " a", "a ", "2^+_1\n", "\u03b1"])
partial_widths = st.dictionaries(
    labels, st.one_of(log(1e-12, 1.0), log(1e-300, 1e6), st.just(0.0), st.integers(0, 3)), max_size=6
)


@st.composite
def data_steps(draw):
    steps = []
    for _ in range(draw(st.integers(2, 12))):
        kind = draw(st.sampled_from(["ground", "state", "isotope", "isotope", "extend", "extend", "element"]))
        step = dict(kind=kind, i=draw(st.integers(0, 99)), j=draw(st.integers(0, 99)))
        if kind in ("ground", "state", "extend"):
            step.update(
                J_pi=draw(labels),
                two_J=draw(st.one_of(st.integers(0, 20), st.none())),
                parity=draw(st.sampled_from([-1, 1, 0, None])),
                E=draw(st.one_of(lin(0.0, 20.0), st.integers(0, 9))),
                widths=draw(partial_widths),
            )
        if kind == "isotope":
            step.update(
                AX=draw(st.sampled_from(["6Li", "7Li", "11B", "112Sn", "H", ""])),
                amu=draw(st.one_of(lin(1.0, 300.0), st.integers(1, 300))),
                ground=draw(st.booleans()),
                states=draw(st.sampled_from(["default", "default", "none", "list", "dict"])),
                natural=draw(st.booleans()),
            )
        if kind == "element":
            step.update(
                Z=draw(st.integers(1, 118)),
                X=draw(st.sampled_from(["Li", "B", "Sn", "X"])),
                abundances=[draw(lin(0.0, 1.0)) for _ in range(4)],
                # Number of additional isotopes that are not found in nature
                extra=draw(st.sampled_from([0, 0, 0, 1, 10, 60])),
                density=draw(st.one_of(st.none(), log(1e-5, 30.0), st.just(0.0))),
            )
        steps.append(step)
    return steps


def same_state(state, expected):
    J_pi, two_J, parity, E, widths = expected
    require(state.J_pi == J_pi, "label {!r} instead of {!r}".format(state.J_pi, J_pi))
    require(state.two_J == two_J, "spin {!r} instead of {!r}".format(state.two_J, two_J))
    require(state.parity == parity, "parity {!r} instead of {!r}".format(state.parity, parity))
    require(state.excitation_energy == E, "energy {!r} instead of {!r}".format(state.excitation_energy, E))
    if widths is not None:
        require(dict(state.partial_widths) == widths, "partial widths {!r} instead of {!r}".format(state.partial_widths, widths))
        require_close(state.width, sum(widths.values()), 1e-14, what="total width")


@obligation("C25", "sequences of constructions", data_steps(), quick=400)
def constructions(steps):
    states = []  # (object, expected)
    isotopes = []  # (object, AX, amu, ground state, [(object, expected)] or {label: ...})
    elements = []
    extended = 0
    for step in steps:
        kind = step["kind"]
        if kind in ("ground", "state", "extend"):
            if kind == "ground":
                expected = (step["J_pi"], step["two_J"], step["parity"], 0.0, None)
                state = GroundState(*expected[:3])
            else:
                expected = (step["J_pi"], step["two_J"], step["parity"], step["E"], dict(step["widths"]))
                state = State(*expected[:4], step["widths"])
                require(step["widths"] == expected[4], "the given widths were changed")
            states.append((state, expected))
            if kind == "extend" and isotopes:
                entry = isotopes[step["i"] % len(isotopes)]
                if isinstance(entry[4], dict):
                    entry[0].excited_states[step["J_pi"]] = state
                    entry[4][step["J_pi"]] = (state, expected)
                else:
                    entry[0].excited_states.append(state)
                    entry[4].append((state, expected))
                extended += len(isotopes) > 1
        elif kind == "isotope":
            ground = states[step["i"] % len(states)][0] if step["ground"] and states else None
            arguments = dict(ground_state=ground) if ground is not None else {}
            expected = []
            if step["states"] == "none":
                arguments["excited_states"] = None
            elif states and step["states"] == "list":
                expected = [states[step["j"] % len(states)]]
                arguments["excited_states"] = [s for s, _ in expected]
            elif states and step["states"] == "dict":
                pair = states[step["j"] % len(states)]
                expected = {pair[1][0]: pair}
                arguments["excited_states"] = {pair[1][0]: pair[0]}
            isotopes.append((Isotope(step["AX"], step["amu"], **arguments), step["AX"], step["amu"], ground, expected))
        elif isotopes:
            chosen = [isotopes[(step["i"] + k * step["j"]) % len(isotopes)] for k in range(4)]
            names = ["{}_{}".format(k, entry[1]) for k, entry in enumerate(chosen)]
            given = {n: entry[0] for n, entry in zip(names, chosen)}
            abundances = dict(zip(names, step["abundances"]))
            arguments = dict(density=step["density"]) if step["density"] is not None else {}
            mass = sum(a * entry[2] for a, entry in zip(step["abundances"], chosen))
            for k in range(step["extra"]):
                given["extra{}".format(k)] = Isotope("extra{}".format(k), 1.0 + k)
                abundances["extra{}".format(k)] = 0.0
            own = dict(given)
            element = Element(step["Z"], step["X"], own, dict(abundances), **arguments)
            require(list(own) == list(given), "the given isotopes were changed")
            elements.append((element, step["Z"], step["X"], given, abundances, step["density"], mass))
    # Everything is compared at the end, so that later steps must not change earlier objects.
    for state, expected in states:
        same_state(state, expected)
    for isotope, AX, amu, ground, expected in isotopes:
        require((isotope.AX, isotope.amu) == (AX, amu), "name and mass of " + repr(AX))
        require(isotope.ground_state is ground, "ground state of " + repr(AX))
        require(
            len(isotope.excited_states) == len(expected),
            "{} excited states instead of {}".format(len(isotope.excited_states), len(expected)),
        )
        if isinstance(expected, dict):
            for label, (_, values) in expected.items():
                same_state(isotope.excited_states[label], values)
        else:
            for state, (_, values) in zip(isotope.excited_states, expected):
                same_state(state, values)
    for element, Z, X, given, abundances, density, mass in elements:
        require((element.Z, element.X) == (Z, X), "identity of " + X)
        require(element.density == density, "density {!r} instead of {!r}".format(element.density, density))
        require(
            list(element.isotopes) == list(given)
            and all(element.isotopes[n] is given[n] for n in given),
            "isotopes of " + X,
        )
        require(dict(element.abundances) == abundances, "abundances of " + X)
        require_close(element.amu, mass, 1e-12, what="mass of " + X)
    return extended > 0


@obligation(
    "C25",
    "supplied isotopes are independent",
    st.fixed_dictionaries(
        dict(
            X=st.sampled_from(sorted(natural_elements)),
            i=st.integers(0, 99),
            Y=st.sampled_from(sorted(natural_elements)),
            E=lin(0.1, 10.0),
        )
    ),
    quick=150,
)
def supplied_isotopes(case):
    isotopes = natural_elements[case["X"]].isotopes
    AX = list(isotopes)[case["i"] % len(isotopes)]
    others = [
        isotope
        for X in {case["X"], case["Y"], "H", "U"}
        for name, isotope in natural_elements[X].isotopes.items()
        if isotope is not isotopes[AX]
    ]
    require(len(others) > 0, "isotopes are not distinct objects")
    state = State("x", 2, 1, case["E"], {"0^+_1": 1e-6})
    isotopes[AX].excited_states.append(state)
    try:
        require(all(len(other.excited_states) == 0 for other in others), "isotopes share excited states")
        require(all(other.ground_state is None for other in others), "isotopes have a ground state")
        require(len(Isotope("1H", 1.0).excited_states) == 0, "new isotope has an excited state")
    finally:
        isotopes[AX].excited_states.remove(state)
    return True


# C26 ----------------------------------------------------------------------------------------------

THERMAL = dict(gauss=Gauss, pseudo_voigt=PseudoVoigt, voigt=Voigt)


def thermal(r, ratio):
    """Choose the temperature such that the Doppler width is `ratio` times the natural width"""
    ref = Reference(r)
    return dict(r, T=r["T"] * (ratio * ref.Gamma / ref.Delta) ** 2)


broadened = resonance(
    shapes=("gauss", "pseudo_voigt", "voigt"), energy=(0.1, 20.0), relative_width=(1e-9, 1e-3)
)


@obligation(
    "C26",
    "heating broadens",
    st.fixed_dictionaries(
        dict(
            r=broadened,
            ratio=st.one_of(log(0.1, 10.0), log(1e-3, 1e3)),
            factor=log(1.01, 100.0),
            # The pseudo-Voigt approximation is not monotonous above 0.97.
            coverage=lin(0.0, 0.96),
            heat=st.booleans(),
        )
    ),
    quick=800,
)
def heating(case):
    cold = thermal(case["r"], case["ratio"])
    if case["heat"]:
        hot = dict(cold, T=cold["T"] * case["factor"])
    else:
        hot = dict(cold, amu=cold["amu"] / case["factor"])
    ref = Reference(cold)
    a, b = build(cold), build(hot)
    slack = 1e-9 + 1e2 * ref.rounding
    peak_cold, peak_hot = float(a(ref.Er)), float(b(ref.Er))
    require(peak_hot <= peak_cold * (1.0 + slack), "higher maximum {!r} at higher temperature".format(peak_hot))
    expected = Reference(hot).I * float(Reference(hot).pdf(0.0))
    require_close(peak_hot, expected, 1e-5 + 1e2 * ref.rounding, what="maximum")
    require_close(
        a.energy_integrated_cross_section, b.energy_integrated_cross_section, 1e-14, what="strength"
    )
    with quiet() as record:
        inner, outer = a.coverage_interval(case["coverage"]), b.coverage_interval(case["coverage"])
    if not fallback(record):
        slack = 1e-5 * ref.w + 10 * EPS * ref.Er
        require(
            outer[0] <= inner[0] + slack and outer[1] >= inner[1] - slack,
            "interval {!r} at higher temperature does not contain {!r}".format(outer, inner),
        )
    # Not above the lines with only one of the two effects
    if cold["shape"] == "voigt":
        for shape in ("breit_wigner", "gauss"):
            limit = float(build(cold, shape=shape)(ref.Er))
            require(peak_cold <= limit * (1.0 + 1e-9 + 1e2 * ref.rounding), "maximum above that of " + shape)
    return peak_hot < 0.99 * peak_cold


@obligation(
    "C26",
    "two steps of heating",
    st.fixed_dictionaries(
        dict(
            r=broadened,
            ratio=log(0.2, 20.0),
            share=lin(0.1, 0.9),
            offset=lin(-6.0, 6.0),
            shape=st.sampled_from(["gauss", "voigt"]),
        )
    ),
    quick=600,
)
def two_steps(case):
    r = dict(thermal(case["r"], case["ratio"]), shape=case["shape"])
    ref = Reference(r)
    first = build(dict(r, T=r["T"] * case["share"]))
    both = build(r)
    sigma = ref.sigma * np.sqrt(1.0 - case["share"])
    E = ref.Er + case["offset"] * ref.w
    # The line of the first step is centered at the resonance energy.
    edges = np.unique(
        np.concatenate(
            [
                np.linspace(-9.0 * sigma, 9.0 * sigma, 13),
                np.clip(E - ref.Er + ref.Gamma * np.array([-30, -10, -3, -1, 0, 1, 3, 10, 30]), -9 * sigma, 9 * sigma),
            ]
        )
    )
    total = 0.0
    for a, b in zip(edges[:-1], edges[1:]):
        x, weight = gauss_legendre(24, a, b)
        shifts = np.exp(-0.5 * (x / sigma) ** 2) / (sigma * np.sqrt(2.0 * np.pi))
        total += float(np.sum(weight * shifts * first(E - x)))
    scale = ref.I * float(ref.pdf(0.0))
    value = float(both(E))
    require_close(value, total, 1e-6, scale * (1e-7 + 1e2 * ref.rounding), what="average over shifts")
    return value > 1e-3 * scale


@obligation(
    "C26",
    "limits",
    st.fixed_dictionaries(
        dict(
            r=broadened,
            offset=st.one_of(lin(-3.0, 3.0), lin(-50.0, 50.0)),
            limit=st.sampled_from(["cold", "narrow"]),
            shape=st.sampled_from(["pseudo_voigt", "voigt"]),
            ratio=log(1e-7, 1e-5),
        )
    ),
    quick=600,
)
def thermal_limits(case):
    cold = case["limit"] == "cold"
    r = dict(thermal(case["r"], case["ratio"] if cold else 1.0 / case["ratio"]), shape=case["shape"])
    ref = Reference(r)
    other = build(r, shape="breit_wigner" if cold else "gauss")
    E = ref.Er + case["offset"] * ref.w
    if not cold and abs(case["offset"]) > 2.0:
        return False
    expected = float(other(E))
    require_close(
        float(build(r)(E)),
        expected,
        1e-4,
        (1e-4 + 1e2 * ref.rounding) * float(other(ref.Er)),
        what="limit",
    )
    require(float(other(ref.Er)) > 0.0, "limit is zero")
    return True


@obligation(
    "C26",
    "elements",
    st.fixed_dictionaries(
        dict(
            X=st.sampled_from(sorted(k for k, v in room_temperature_T_D.items() if v is not None)),
            T=log(1.0, 2e3),
            factor=log(1.01, 10.0),
            i=st.integers(0, 99),
            E=log(0.1, 10.0),
            relative_width=log(1e-9, 1e-4),
            shape=st.sampled_from(sorted(THERMAL)),
        )
    ),
    quick=300,
)
def heating_elements(case):
    """From the supplied data to the cross section, as in the examples of the library"""
    element = natural_elements[case["X"]]
    isotope = list(element.isotopes.values())[case["i"] % len(element.isotopes)]
    ground = GroundState("0^+_1", 0, 1)
    state = State("1^-_1", 2, -1, case["E"], {"0^+_1": case["E"] * case["relative_width"]})
    peaks = []
    for T in (case["T"], case["T"] * case["factor"]):
        effective = effective_temperature_debye_approximation(T, room_temperature_T_D[case["X"]])
        cs = THERMAL[case["shape"]](ground, state, isotope.amu, effective)
        r = dict(
            shape=case["shape"], E0=0.0, E2=case["E"], two_J0=0, two_J2=2, final=None, amu=isotope.amu,
            T=float(effective), widths=[["i", state.width]],
        )
        ref = Reference(r)
        E = case["E"] + ref.w * np.array([0.0, 0.5, -1.0])
        expected = ref.I * ref.pdf(E - ref.Er)
        require_close(cs(E), expected, 1e-5 + 1e2 * ref.rounding, what="cross section")
        width = float(MaxwellBoltzmann(isotope.amu, effective).get_doppler_width(case["E"]))
        require_close(
            width,
            case["E"] * np.sqrt(2.0 * KB * float(effective) / (isotope.amu * U)),
            RTOL_CONST,
            what="Doppler width",
        )
        grid = cs.equidistant_probability_grid(0.9, 11)
        require_close(grid[5], ref.Er, 0.0, 1e-4 * ref.w + 4 * EPS * ref.Er, what="center of the grid")
        peaks.append(float(cs(case["E"])))
    require(peaks[1] <= peaks[0] * (1.0 + 1e-9), "maximum increases with temperature")
    return peaks[1] < 0.99 * peaks[0]


# C27 ----------------------------------------------------------------------------------------------

factors = st.one_of(log(1e-3, 1e3), log(1e-12, 1e12), st.sampled_from([2.0, 0.5, 1000.0, 0.001]))


@obligation(
    "C27",
    "resonances",
    st.fixed_dictionaries(
        dict(
            r=resonance(shapes=("breit_wigner", "gauss", "pseudo_voigt", "voigt"), energy=(0.01, 20.0), relative_width=(1e-9, 0.1)),
            k=factors,
            offsets=st.lists(st.one_of(lin(-3.0, 3.0), lin(-100.0, 100.0)), min_size=1, max_size=4),
            coverage=st.one_of(lin(0.0, 0.95), lin(0.9, 0.999)),
            n=st.integers(2, 20),
            x=st.tuples(lin(-3.0, 3.0), lin(0.1, 3.0)).map(list),
            container=CONTAINERS,
        )
    ),
    quick=800,
)
def scaled_resonances(case):
    k = case["k"]
    r = case["r"]
    s = dict(r, E0=r["E0"] * k, E2=r["E2"] * k, widths=[[name, w * k] for name, w in r["widths"]])
    ref, ref_s = Reference(r), Reference(s)
    a, b = build(r), build(s)
    # Rounding errors of the difference of the energies
    shift = 4 * EPS * (r["E2"] + r["E0"])
    relative = shift / ref.w + ref.rounding
    require_close(b.resonance_energy, k * a.resonance_energy, 0.0, k * shift, what="resonance energy")
    require_close(
        b.energy_integrated_cross_section,
        a.energy_integrated_cross_section / k,
        1e-12 + 10 * shift / ref.Er,
        what="strength",
    )
    x = ref.w * np.array(case["offsets"])
    scale = ref.I * float(ref.pdf(0.0))
    require_close(
        b(k * x, input_is_absolute_energy=False) * k * k,
        a(x, input_is_absolute_energy=False),
        1e-9,
        scale * (1e-12 + 1e3 * relative),
        what="cross section at a relative energy",
    )
    require_close(
        b(k * (ref.Er + x)) * k * k, a(ref.Er + x), 1e-9, scale * (1e-12 + 1e3 * relative), what="cross section"
    )
    slack = (1e-4 * ref.w + 30 * shift) * k
    with quiet() as record:
        interval = a.coverage_interval(case["coverage"])
        grid = a.equidistant_probability_grid(case["coverage"], case["n"])
        even = a.equidistant_energy_grid(case["coverage"], case["n"])
    failed = fallback(record)
    with quiet() as record:
        interval_s = b.coverage_interval(case["coverage"])
        grid_s = b.equidistant_probability_grid(case["coverage"], case["n"])
        even_s = b.equidistant_energy_grid(case["coverage"], case["n"])
    if not failed and not fallback(record):
        tail = (1.0 - case["coverage"]) / 2.0
        spread = slack / max(tail, 1e-3)
        require_close(interval_s, k * interval, 0.0, spread, what="coverage interval")
        require_close(grid_s, k * grid, 0.0, spread, what="equal-probability grid")
        require_close(even_s, k * even, 0.0, spread, what="equidistant grid")
    lo = max(0.0, ref.Er + case["x"][0] * ref.w)
    limits = [lo, lo + case["x"][1] * ref.w]
    with quiet() as record:
        grid = a.equidistant_probability_grid(limits_container(limits, case["container"]), case["n"])
        grid_s = b.equidistant_probability_grid(
            limits_container([k * limits[0], k * limits[1]], case["container"]), case["n"]
        )
    if not fallback(record) and ref.between(limits[0] - ref.Er, limits[1] - ref.Er) > 1e-3 + 1e4 * relative:
        require_close(grid_s, k * grid, 0.0, 10.0 * slack + 1e3 * k * shift, what="grid between limits")
    return abs(k - 1.0) > 0.1


@obligation(
    "C27",
    "grids of sums",
    st.fixed_dictionaries(
        dict(
            k=st.one_of(factors, log(1e-12, 1e12)),
            r=resonance(shapes=("breit_wigner", "gauss"), energy=(0.1, 10.0), relative_width=(1e-4, 0.1)),
            parts=st.lists(st.sampled_from(["number", "compton", "table", "line"]), min_size=1, max_size=4),
            x=st.tuples(lin(0.05, 2.0), lin(0.1, 3.0)).map(list),
            n=st.integers(2, 12),
        )
    ),
    quick=200,
)
def scaled_sums(case):
    def total(k):
        r = case["r"]
        s = dict(r, E0=r["E0"] * k, E2=r["E2"] * k, widths=[[name, w * k] for name, w in r["widths"]])
        out = KleinNishina(3, 0.5 * k)
        for part in case["parts"]:
            if part == "number":
                out = out + 2.0
            elif part == "compton":
                out = out + 0.5 * KleinNishina(2, 2.0 * k)
            elif part == "table":
                out = out + XRMAC(np.array([[0.1 * k, 1.0], [1.0 * k, 2.0], [5.0 * k, 3.0]]))
            else:
                out = out + build(s)
        return out

    k, Er, n = case["k"], Reference(case["r"]).Er, case["n"]
    a, b = Er * case["x"][0], Er * (case["x"][0] + case["x"][1])
    # Points of different parts may coincide up to rounding errors.
    grids = [
        total(1.0).equidistant_probability_grid((a, b), n),
        total(k).equidistant_probability_grid((k * a, k * b), n) / k,
    ]
    slack = 1e-10 * b + 1e-10 * Er + 1e-14 * case["r"]["E2"]
    for x, y in (grids, grids[::-1]):
        distance = np.min(np.abs(x[:, None] - y[None, :]), axis=1)
        require(
            float(np.max(distance)) <= slack, "the grid in other units misses the point {!r}".format(float(x[np.argmax(distance)]))
        )
    require_close(
        total(k).equidistant_energy_grid((k * a, k * b), n) / k,
        total(1.0).equidistant_energy_grid((a, b), n),
        1e-12,
        what="equidistant grid",
    )
    return abs(np.log(k)) > 0.1


@obligation(
    "C27",
    "other energies",
    st.fixed_dictionaries(
        dict(
            k=factors,
            E=log(1e-4, 1e3),
            mc2=st.one_of(log(1e-3, 1e4), st.just(0.51099895)),
            Z=st.integers(1, 100),
            theta=lin(0.0, np.pi),
            phi=lin(0.0, 2 * np.pi),
            T=log(1.0, 1e4),
            amu=lin(1.0, 300.0),
            table=st.lists(st.tuples(log(1.05, 3.0), log(1e-3, 1e3)).map(list), min_size=2, max_size=8),
            position=st.one_of(lin(0.0, 1.0), lin(-0.5, 1.5)),
        )
    ),
    quick=800,
)
def scaled_functions(case):
    k, E, theta, phi, mc2 = case["k"], case["E"], case["theta"], case["phi"], case["mc2"]
    a, b = KleinNishina(case["Z"], mc2), KleinNishina(case["Z"], k * mc2)
    x = E / mc2
    # Cancellation in the closed expression of the total cross section
    cancellation = 1e-12 + 3e-15 / min(x, 1.0) ** 3 if x > 9e-3 else 1e-9
    require_close(k * k * b(k * E), a(E), cancellation, what="Compton cross section")
    require_close(b.compton_edge(k * E), k * a.compton_edge(E), 1e-12, what="Compton edge")
    require_close(b.Ep_over_E(k * E, theta), a.Ep_over_E(E, theta), 1e-12, what="energy ratio")
    for name, arguments in (
        ("cs_diff_dOmega", (theta, phi)),
        ("cs_diff_dOmega_unpolarized", (theta,)),
        ("cs_diff_dtheta", (theta,)),
    ):
        require_close(
            k * k * getattr(b, name)(k * E, *arguments),
            getattr(a, name)(E, *arguments),
            1e-10,
            1e-12 * a.scale_factor,
            what=name,
        )
    edge = float(a.compton_edge(E))
    Ep = edge + (E - edge) * 0.01 * round(100 * case["theta"] / np.pi)
    Ep = min(max(Ep, edge), E)
    if x > 1e-3:
        rounding = np.sqrt(EPS * (1.0 + 1.0 / x))
        require_close(b.theta(k * E, k * Ep), a.theta(E, Ep), 1e-9, 10 * rounding, what="angle")
        inside = edge * (1 + 1e-3) < Ep < E * (1 - 1e-3)
        if inside and x > 1e-2:
            require_close(
                k**3 * b.cs_diff_dEp(k * E, k * Ep), a.cs_diff_dEp(E, Ep), 1e-8, what="cs_diff_dEp"
            )
            require_close(
                k**3 * b.cs_diff_dEp_dphi(k * E, k * Ep, phi),
                a.cs_diff_dEp_dphi(E, Ep, phi),
                1e-8,
                1e-9 * float(a.cs_diff_dEp(E, Ep)),
                what="cs_diff_dEp_dphi",
            )
    mb = MaxwellBoltzmann(case["amu"], case["T"])
    width = mb.get_doppler_width(E)
    require_close(mb.get_doppler_width(k * E), k * width, 1e-13, what="Doppler width")
    require_close(
        MaxwellBoltzmann.get_effective_temperature(k * width, case["amu"], k * E),
        case["T"],
        1e-12,
        what="temperature",
    )
    require_close(
        FreeNucleusRecoil(case["amu"] * k)(k * E),
        k * FreeNucleusRecoil(case["amu"])(E),
        1e-13,
        what="recoil",
    )
    energies = E * np.cumprod([step for step, _ in case["table"]])
    data = np.array([energies, [v for _, v in case["table"]]]).T
    scaled = data * np.array([k, 1.0])
    point = energies[0] * (energies[-1] / energies[0]) ** case["position"]
    # Steep tables amplify rounding errors of the energies.
    require_close(XRMAC(scaled)(k * point), XRMAC(data)(point), 1e-9, what="attenuation coefficient")
    return abs(k - 1.0) > 0.1


# C28 ----------------------------------------------------------------------------------------------

layers = st.lists(
    st.fixed_dictionaries(
        dict(
            X=st.sampled_from(["H", "B", "O", "Al", "Fe", "Sn", "Pb", "U"]),
            resonant=log(0.05, 5.0),
            nonresonant=log(0.01, 2.0),
            shift=st.one_of(st.just(0.0), lin(-4.0, 4.0)),
            width=log(0.3, 3.0),
            shape=st.sampled_from(["breit_wigner", "gauss", "pseudo_voigt", "voigt"]),
        )
    ),
    min_size=1,
    max_size=4,
)


@st.composite
def stack(draw, max_layers=4):
    return dict(
        r=draw(resonance(shapes=("voigt",), energy=(0.1, 10.0), relative_width=(1e-7, 1e-4), final=False)),
        ratio=draw(log(0.2, 5.0)),
        layers=draw(layers)[:max_layers],
        left=draw(lin(0.5, 8.0)),
        right=draw(lin(0.5, 8.0)),
        n=draw(st.integers(4, 10)),
        factor=draw(st.sampled_from([1.0, 0.951, 0.5, 1])),
    )


class Layer:
    """Layer of a target: cross sections, areal density and reference"""

    def __init__(self, r, layer, factor):
        w = Reference(r).w
        self.r = dict(
            r,
            shape=layer["shape"],
            E2=r["E2"] + layer["shift"] * w,
            widths=[[name, width * layer["width"]] for name, width in r["widths"]],
            T=r["T"] * layer["width"] ** 2,
        )
        self.ref = Reference(self.r)
        self.factor = factor
        self.cs = build(self.r)
        self.background = xrmac_fm2_per_atom[layer["X"]]
        peak = factor * self.ref.I * float(self.ref.pdf(0.0))
        # The areal density determines the resonant absorption, the number of background atoms per
        # resonant nucleus the nonresonant one.
        self.rho = layer["resonant"] / peak
        self.atoms = layer["nonresonant"] / (self.rho * float(self.background(self.ref.Er)))
        self.total = self.atoms * self.background + factor * self.cs

    def reference(self, E):
        """Resonant and total cross section"""
        resonant = self.factor * self.ref.I * self.ref.pdf(E - self.ref.Er)
        return resonant, resonant + self.atoms * self.background(E)


def energy_nodes(target, limits):
    """Nodes and weights for the integral over the energy"""
    edges = [np.linspace(*limits, 7)]
    for layer in target:
        w = layer.ref.w
        edges.append(layer.ref.Er + w * np.array([-30, -10, -5, -3, -2, -1, -0.5, 0, 0.5, 1, 2, 3, 5, 10, 30]))
    edges = np.unique(np.clip(np.concatenate(edges), *limits))
    # Edges that differ by rounding errors only
    edges = edges[np.append(True, np.diff(edges) > 1e-6 * (limits[1] - limits[0]))]
    edges[-1] = limits[1]
    x, weights = zip(*[gauss_legendre(16, a, b) for a, b in zip(edges[:-1], edges[1:])])
    return np.concatenate(x), np.concatenate(weights)


def target_of(case):
    r = thermal(case["r"], case["ratio"])
    ref = Reference(r)
    target = [Layer(r, layer, case["factor"]) for layer in case["layers"]]
    limits = (max(1e-3, ref.Er - case["left"] * ref.w), ref.Er + case["right"] * ref.w)
    return target, limits


@obligation("C28", "transmission of layers", stack(), quick=400)
def transmission(case):
    target, limits = target_of(case)
    E, weights = energy_nodes(target, limits)
    length = limits[1] - limits[0]
    rounding = 1e3 * max(layer.ref.rounding for layer in target)
    depth = sum(layer.rho * layer.reference(E)[1] for layer in target)
    expected = np.exp(-depth)
    stacked = target[0].total * target[0].rho
    for layer in target[1:]:
        stacked = stacked + layer.rho * layer.total
    value = np.exp(-stacked(E))
    require_close(value, expected, 0.0, 2e-5 + rounding, what="transmission")
    # Combined grid of all layers
    grid = stacked.equidistant_probability_grid(limits, case["n"])
    require(grid[0] == limits[0] and grid[-1] == limits[1], "limits of the grid")
    share = float(np.sum(weights * expected)) / length
    result = quad_partition(lambda e: np.exp(-float(np.squeeze(stacked(np.array([e]))))) / length, grid)
    require_close(result[0], share, 0.0, 2e-5 + rounding, what="transmitted share")
    low, difference = darboux(lambda e: np.exp(-stacked(e)) / length, np.unique(np.append(grid, np.linspace(*limits, 200))))
    steps = 2.0 * len(target) * max(length / 199.0 * np.max(np.abs(np.gradient(expected, E))), 1e-3) / 199.0
    require(low <= share + 0.02 + steps, "lower sum of the transmission")
    require(low + difference >= share - 0.02 - steps, "upper sum of the transmission")
    return 0.05 < share < 0.95


@obligation("C28", "absorption in layers", stack(max_layers=2), quick=12)
def absorption(case):
    target, limits = target_of(case)
    E, weights = energy_nodes(target, limits)
    length = limits[1] - limits[0]
    rounding = 1e3 * max(layer.ref.rounding for layer in target)
    flux = np.ones(len(E))
    photons = 0.0
    before = []
    for layer in target:
        resonant, total = layer.reference(E)
        removed = -np.expm1(-layer.rho * total)
        grid = layer.total.equidistant_probability_grid(limits, 3 + case["n"] % 2)

        def incoming(e):
            return np.exp(-sum(l.rho * l.total(e) for l in before))

        def rate(e, z):
            """Resonant reactions per energy and depth (in units of the thickness)"""
            e = np.array([e])
            reaction = layer.factor * layer.cs(e)
            return float(np.squeeze(incoming(e) * layer.rho * reaction * np.exp(-z * layer.rho * layer.total(e)))) / length

        def rate_nonresonant(e, z):
            e = np.array([e])
            reaction = layer.atoms * layer.background(e)
            return float(np.squeeze(incoming(e) * layer.rho * reaction * np.exp(-z * layer.rho * layer.total(e)))) / length

        value = quad_partition(rate, grid, [[0.0, 1.0]])
        expected = float(np.sum(weights * flux * removed * resonant / total)) / length
        require_close(value[0], expected, 0.0, 3e-5 + rounding, what="resonant reactions")
        other = quad_partition(rate_nonresonant, grid[:: max(1, len(grid) - 1)], np.array([[0.0, 1.0]]))
        # On the coarse grid only roughly accurate for narrow structures
        expected_other = float(np.sum(weights * flux * removed * (total - resonant) / total)) / length
        require_close(other[0], expected_other, 0.0, 1e-3 + rounding, what="nonresonant reactions")
        photons += value[0] + other[0]
        flux = flux * np.exp(-layer.rho * total)
        before.append(layer)
    transmitted = float(np.sum(weights * flux)) / length
    require_close(photons + transmitted, 1.0, 0.0, 2e-3 + rounding, what="number of photons")
    return 0.05 < transmitted < 0.95


@obligation(
    "C28",
    "absorption in depth",
    st.fixed_dictionaries(
        dict(
            r=resonance(shapes=("breit_wigner",), relative_width=(1e-9, 1e-3)),
            left=log(0.5, 60.0),
            right=log(0.5, 60.0),
            tau=log(0.01, 30.0),
            background=log(1e-3, 3.0),
            split=lin(0.0, 1.0),
        )
    ),
    quick=40,
)
def absorption_in_depth(case):
    """Resonant reactions in a layer, integrated on a coarse partition with the maximum as an edge"""
    cs = build(case["r"])
    ref = Reference(case["r"])
    half = 0.5 * ref.Gamma
    if ref.Er <= case["left"] * half:
        return False
    peak = ref.I / (np.pi * half)
    rho = case["tau"] / peak
    total = cs + case["background"] * peak
    lo, hi = ref.Er - case["left"] * half, ref.Er + case["right"] * half

    def rate(e, z):
        e = np.array([e])
        return float(np.squeeze(rho * cs(e) * np.exp(-z * rho * total(e)))) / half

    thickness = case["split"] if case["split"] > 0.5 else 1.0
    value = quad_partition(rate, [lo, ref.Er, hi], [[0.0, thickness]])
    # With the substitution x = tan(t), the integrand is smooth.
    x, w = np.polynomial.legendre.leggauss(200)
    a, b = -np.arctan(case["left"]), np.arctan(case["right"])
    t = 0.5 * (a + b) + 0.5 * (b - a) * x
    shape = np.cos(t) ** 2
    optical = case["tau"] * (shape + case["background"])
    integrand = -np.expm1(-thickness * optical) / (shape + case["background"])
    expected = 0.5 * (b - a) * float(np.sum(w * integrand))
    rtol = 2e-6 + 100.0 * ref.rounding
    require_close(value[0], expected, rtol, 1e-7, what="resonant reactions in depth")
    return True


@obligation(
    "C28",
    "attenuation lengths of the elements",
    st.fixed_dictionaries(
        dict(
            X=st.sampled_from(sorted(xrmac_cm2_per_g)),
            E=log(1e-3, 20.0),
            thickness=log(1e-3, 10.0),
        )
    ),
    quick=300,
)
def attenuation_lengths(case):
    """Coefficients per mass and density, or cross sections per atom and number density"""
    element = natural_elements[case["X"]]
    E = case["E"]
    if element.density is None or element.amu == 0.0:
        return False
    per_mass = float(xrmac_cm2_per_g[case["X"]](E)) * element.density
    number_density = element.density / (element.amu * 1.66053906660e-24)  # 1/cm^3
    per_atom = float(xrmac_fm2_per_atom[case["X"]](E)) * 1e-26 * number_density
    require_close(per_atom, per_mass, RTOL_CONST, what="attenuation per length of " + case["X"])
    depth = case["thickness"] / per_mass * number_density  # 1/cm^2
    target = depth * 1e-26 * xrmac_fm2_per_atom[case["X"]]
    require_close(float(target(E)), case["thickness"], 2 * RTOL_CONST, what="optical depth")
    return True
