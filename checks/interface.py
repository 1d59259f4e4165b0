"""C34 to C36: copies of objects, arguments by name and documented attributes"""

import copy
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from gen import ALPHA, HBARC, ME, RTOL_CONST, Reference, build, cauchy_pdf, lin, log, normal_pdf, resonance, states, thompson
from vlib import obligation, quiet, require, require_close, rule
from ries.constituents.element import Element, natural_elements
from ries.constituents.isotope import Isotope
from ries.constituents.natural_element_data import Geant4DensityDataReader, NISTElementDataReader
from ries.constituents.state import GroundState, State
from ries.cross_section import ConstantCrossSection, CrossSectionWeightedSum
from ries.integration.darboux import darboux
from ries.integration.quad_partition import quad_partition
from ries.nonresonant.klein_nishina import KleinNishina
from ries.nonresonant.xrmac import XRMAC, xrmac_cm2_per_g, xrmac_fm2_per_atom
from ries.resonance.breit_wigner import BreitWigner
from ries.resonance.debye_model import effective_temperature_debye_approximation
from ries.resonance.gauss import Gauss
from ries.resonance.maxwell_boltzmann import MaxwellBoltzmann
from ries.resonance.pseudo_voigt import PseudoVoigt, PseudoVoigtDistribution
from ries.resonance.recoil import FreeNucleusRecoil, NoRecoil
from ries.resonance.resonance import Resonance
from ries.resonance.voigt import SemiPseudoVoigtDistribution, Voigt

rule(
    "C34",
    "Random objects of all classes and sums of them, copied before and after they were used. A case is non-trivial "
    "if the copy was a deep one of an object that contains other objects or containers.",
)
rule(
    "C35",
    "Random arguments for 35 functions, methods and classes, of which a random number is given by position and the "
    "others by name in random order. A case is non-trivial if at least two arguments are given by name.",
)
rule(
    "C36",
    "Random objects of all classes with documented attributes. A case is non-trivial if the object is a sum of several "
    "parts, a resonance with several decay channels or a pseudo-Voigt distribution with both parts.",
)

narrow = resonance(energy=(0.1, 5.0), relative_width=(1e-6, 0.1))
table = st.lists(st.tuples(lin(1.01, 3.0), log(1e-3, 1e3)).map(list), min_size=2, max_size=8)


def make_table(steps):
    return np.array([np.cumprod([s[0] for s in steps]), [s[1] for s in steps]]).T


# C34 ----------------------------------------------------------------------------------------------

KINDS = ["resonance", "sum", "compton", "table", "converted table", "supplied table", "table per atom", "constant", "distribution", "gas", "recoil"]
KINDS += ["state", "isotope", "element", "supplied element"]

part = st.fixed_dictionaries(
    dict(r=narrow, table=table, x=log(0.1, 10.0), Z=st.integers(1, 92), mc2=log(0.1, 1000.0), factors=st.lists(lin(-3.0, 3.0), min_size=3, max_size=3))
)


def make(kind, case):
    r, x = case["r"], case["x"]
    if kind == "resonance":
        return build(r)
    if kind == "sum":
        a, b, c = case["factors"]
        return a * build(r) + b * XRMAC(make_table(case["table"])) + c * (KleinNishina(case["Z"]) + build(r)) + x
    if kind == "compton":
        return KleinNishina(case["Z"], case["mc2"])
    if kind == "table":
        return XRMAC(make_table(case["table"]))
    if kind == "supplied table":
        return xrmac_cm2_per_g[list(xrmac_cm2_per_g)[case["Z"] - 1]]
    if kind == "table per atom":
        return xrmac_fm2_per_atom[list(xrmac_fm2_per_atom)[case["Z"] - 1]]
    if kind == "converted table":
        with tempfile.TemporaryDirectory() as directory:
            name = os.path.join(directory, "table.txt")
            with open(name, "w") as file:
                for E, value in make_table(case["table"]):
                    file.write("{:.5E}  {:.3E}  {:.3E}\n".format(E, value, value))
            return XRMAC(name, lambda E: 2.0 * E, lambda value: x * value)
    if kind == "constant":
        return ConstantCrossSection(x)
    if kind == "distribution":
        name = SemiPseudoVoigtDistribution if case["Z"] % 2 else PseudoVoigtDistribution
        return name(r["E2"] - r["E0"], sum(w for _, w in r["widths"]), r["amu"], r["T"])
    if kind == "gas":
        return MaxwellBoltzmann(r["amu"], r["T"])
    if kind == "recoil":
        return FreeNucleusRecoil(r["amu"])
    initial, intermediate = states(r)
    if kind == "state":
        return intermediate
    isotope = Isotope("{}X".format(case["Z"]), r["amu"], initial, [intermediate])
    if kind == "isotope":
        return isotope
    if kind == "supplied element":
        return list(natural_elements.values())[case["Z"] - 1]
    isotopes = {"1X": isotope, "2X": Isotope("2X", x)}
    return Element(case["Z"], "X", isotopes, {"1X": 0.25, "2X": 0.75}, x)


def describe(kind, cs, case):
    """Results of an object as a list of numbers and strings"""
    E = np.array([0.3, 1.0, 2.5]) * case["x"]
    limits = (0.5 * case["x"], 4.0 * case["x"])
    out = []
    if kind == "state":
        out = [cs.J_pi, cs.two_J, cs.parity, cs.excitation_energy, cs.width, *cs.partial_widths, *cs.partial_widths.values()]
    elif kind == "isotope":
        out = [cs.AX, cs.amu, cs.ground_state.J_pi, cs.ground_state.excitation_energy]
        for state in cs.excited_states:
            out += describe("state", state, case)
    elif kind in ("element", "supplied element"):
        out = [cs.Z, cs.X, cs.amu, cs.density is None, cs.density or 0.0, *cs.isotopes, *cs.abundances, *cs.abundances.values()]
        out += [i.amu for i in cs.isotopes.values()]
        if kind == "element":
            out += describe("isotope", cs.isotopes["1X"], case)
        out.append(cs.amu_from_isotopic_composition(cs.abundances, cs.isotopes))
    elif kind == "gas":
        out = [cs.amu, cs.effective_temperature, *cs.get_doppler_width(E)]
    elif kind == "recoil":
        out = [cs.amu, *cs(E)]
    elif kind == "distribution":
        with quiet():
            out = [*cs.pdf(E), *cs.cdf(E), *cs.ppf(np.array([0.2, 0.5, 0.9]))]
    else:
        with quiet():
            out = [*(cs(E) + np.zeros(3)), cs(1.0)]
            out += [*cs.equidistant_energy_grid(limits, 4), *cs.equidistant_probability_grid(limits, 4)]
            if kind == "resonance":
                out += [cs.resonance_energy, cs.energy_integrated_cross_section, *cs.coverage_interval(0.7)]
                out += [*cs.equidistant_probability_grid(0.7, 4), *cs(E - 1.0, input_is_absolute_energy=False)]
            if kind == "compton":
                out += [*cs.cs_diff_dtheta(E, 1.0), *cs.cs_diff_dEp(E, 0.9 * E), *cs.theta(E, cs.compton_edge(E))]
    return [v if isinstance(v, str) else float(v) for v in out]


def equal(a, b, what):
    require(len(a) == len(b), "{}: {} instead of {} results".format(what, len(a), len(b)))
    for x, y in zip(a, b):
        if isinstance(x, str) or isinstance(y, str):
            require(x == y, "{}: {!r} instead of {!r}".format(what, x, y))
        elif not (np.isnan(x) and np.isnan(y)):
            require_close(x, y, 1e-12, 1e-300, what=what)


def alter(kind, cs):
    """Change the contents of an object in place"""
    if kind == "resonance":
        for name in list(cs.intermediate_state.partial_widths):
            cs.intermediate_state.partial_widths[name] *= 7.0
        cs.intermediate_state.two_J += 2
        cs.energy_integrated_cross_section *= 3.0
    elif kind == "sum":
        for i in range(len(cs.scale_factors)):
            cs.scale_factors[i] = 5.0
        cs.reactions.append(ConstantCrossSection(1000.0))
        cs.scale_factors.append(1.0)
    elif "table" in kind:
        cs.data[:, 1] = 1.0
    elif kind == "compton":
        cs.Z, cs.mc2, cs.scale_factor = 500, 1e6, 1e9
    elif kind == "constant":
        cs.constant = -5.0
    elif kind == "distribution":
        cs.resonance_energy, cs.eta = 1e9, 0.5
    elif kind in ("gas", "recoil"):
        cs.amu = 1e-3
    elif kind == "state":
        cs.partial_widths["another"] = 1.0
        cs.excitation_energy = 99.0
    elif kind == "isotope":
        cs.amu = 999.0
        cs.ground_state.two_J += 1
        cs.ground_state.J_pi = "other"
        cs.excited_states[0].partial_widths["another"] = 1.0
        cs.excited_states.append(None)
    else:
        for name in list(cs.abundances):
            cs.abundances[name] = 0.5
        for isotope in cs.isotopes.values():
            isotope.amu += 3.0
        cs.isotopes.clear()
        cs.density = 77.0


@obligation(
    "C34",
    "copies",
    st.fixed_dictionaries(
        dict(case=part, kind=st.sampled_from(KINDS + ["resonance", "sum"]), deep=st.sampled_from([True, True, False]), used=st.booleans(), twice=st.booleans())
    ),
    quick=500,
)
def copies(case):
    kind, c = case["kind"], case["case"]
    original = make(kind, c)
    expected = describe(kind, make(kind, c), c)
    if case["used"]:
        equal(describe(kind, original, c), expected, "original")
    function = copy.deepcopy if case["deep"] else copy.copy
    duplicate = function(original)
    if case["twice"]:
        duplicate = function(duplicate)
    require(type(duplicate) is type(original), "type of the copy is {}".format(type(duplicate)))
    equal(describe(kind, duplicate, c), expected, "copy of " + kind)
    if kind in ("resonance", "sum", "compton", "constant") or "table" in kind:
        # Copies take part in operations like any other object.
        E = np.array([0.3, 1.0, 2.5]) * c["x"]
        total = 2.0 * duplicate + original
        require_close(total(E), 3.0 * original(E) + np.zeros(3), 1e-12, 1e-300, what="sum of original and copy")
    if case["deep"]:
        alter(kind, duplicate)
        equal(describe(kind, original, c), expected, "original, after a change of the copy of " + kind)
        equal(describe(kind, make(kind, c), c), expected, "new object, after a change of the copy of " + kind)
        other = copy.deepcopy(original)
        del original
        equal(describe(kind, other, c), expected, "second copy of " + kind)
    return case["deep"] and kind not in ("constant", "gas", "recoil", "compton")


# C35 ----------------------------------------------------------------------------------------------


def numbers(value):
    with quiet():
        if isinstance(value, (tuple, list)):
            return [float(v) for item in value for v in np.ravel(item)]
        return [float(v) for v in np.ravel(value)]


def results_of(cs):
    E = np.array([0.4, 1.3, 3.0])
    with quiet():
        return numbers([cs(E) + np.zeros(3), cs.equidistant_energy_grid((0.5, 2.0), 3), cs.equidistant_probability_grid((0.5, 2.0), 3)])


def results_of_resonance(cs):
    with quiet():
        return results_of(cs) + numbers([cs.resonance_energy, cs.energy_integrated_cross_section, cs.final_state_branching_ratio, cs.coverage_interval(0.5)])


class scratch:
    """Files for the readers"""

    def __init__(self, x):
        self.x = x

    def __enter__(self):
        self.directory = tempfile.TemporaryDirectory()
        names = [os.path.join(self.directory.name, n) for n in ("densities", "elements")]
        with open(names[0], "w") as file:
            file.write("H   7.5\nFe  {:.3E}\n".format(self.x))
        with open(names[1], "w") as file:
            for Z in (1, 2):
                file.write(
                    "Atomic Number = {}\nAtomic Symbol = X\nMass Number = 1\nRelative Atomic Mass = {:.3E}\n"
                    "Isotopic Composition = 1\nStandard Atomic Weight = 1\nNotes = m\n".format(Z, Z * self.x)
                )
        return names

    def __exit__(self, *arguments):
        self.directory.cleanup()


def signatures(c, files):
    """Functions with names and values of their arguments, number of optional ones, and a description of the results"""
    r = dict(c["r"], final=None)
    initial, intermediate = states(r)
    final = intermediate_channel(intermediate)
    E, theta, phi, n, x = c["E"], c["theta"], c["phi"], c["n"], c["x"]
    line, kn, gas = build(r), KleinNishina(c["Z"]), MaxwellBoltzmann(r["amu"], r["T"])
    total = line + kn
    both = [("initial_state", initial), ("intermediate_state", intermediate)]
    moving = both + [("amu", r["amu"]), ("effective_temperature", r["T"])]
    channel = ("final_state", final, None)
    data = make_table(c["table"])
    double = lambda value: 2.0 * value  # noqa: E731
    same = lambda value: value  # noqa: E731
    shape = [("resonance_energy", E), ("width", 0.01 * E), ("amu", r["amu"]), ("effective_temperature", r["T"])]
    isotopes = {"1X": Isotope("1X", x), "2X": Isotope("2X", 2.0 * x)}
    abundances = {"1X": 0.25, "2X": 0.75}

    def state(s):
        return [s.J_pi, float(s.two_J), float(s.parity), float(s.excitation_energy)] + numbers(list(getattr(s, "partial_widths", {}).values()))

    def isotope(i):
        ground = "none" if i.ground_state is None else i.ground_state.J_pi
        return [i.AX, float(i.amu), ground] + [s.J_pi for s in i.excited_states]

    def element(e):
        return [e.X, "none" if e.density is None else float(e.density), float(e.Z), float(e.amu), *e.isotopes, *numbers(list(e.abundances.values()))]

    def distribution(d):
        return numbers([d.pdf(E), d.cdf(1.001 * E), d.ppf(0.3)])

    def grid_arguments(name, count="n_points"):
        return [(name, (0.5 * E, 2.0 * E)), (count, n)]

    return [
        ("GroundState", GroundState, [("J_pi", "a"), ("two_J", 4), ("parity", -1)], state),
        ("State", State, [("J_pi", "a"), ("two_J", 4), ("parity", -1), ("excitation_energy", E), ("partial_widths", {"x": x, "y": E})], state),
        ("Isotope", Isotope, [("AX", "7X"), ("amu", x), ("ground_state", initial, None), ("excited_states", [intermediate], None)], isotope),
        ("Element", Element, [("Z", c["Z"]), ("X", "Q"), ("isotopes", isotopes), ("abundances", abundances), ("density", x, None)], element),
        ("composition", Element.amu_from_isotopic_composition, [("abundances", abundances), ("isotopes", isotopes)], numbers),
        ("Resonance", Resonance, both + [channel, ("recoil_correction", FreeNucleusRecoil(r["amu"]), NoRecoil())], results_of_resonance),
        ("BreitWigner", BreitWigner, both + [channel], results_of_resonance),
        ("Gauss", Gauss, moving + [channel], results_of_resonance),
        ("PseudoVoigt", PseudoVoigt, moving + [channel], results_of_resonance),
        ("Voigt", Voigt, moving + [channel], results_of_resonance),
        ("PseudoVoigtDistribution", PseudoVoigtDistribution, shape, distribution),
        ("SemiPseudoVoigtDistribution", SemiPseudoVoigtDistribution, shape, distribution),
        ("MaxwellBoltzmann", MaxwellBoltzmann, shape[2:], lambda m: numbers(m.get_doppler_width(E))),
        ("effective temperature", gas.get_effective_temperature, [("doppler_width", 0.01 * x), ("amu", r["amu"]), ("E", E)], numbers),
        ("Debye model", effective_temperature_debye_approximation, [("T", 100.0 * x), ("T_D", 300.0 * E)], numbers),
        ("FreeNucleusRecoil", FreeNucleusRecoil, [("amu", r["amu"])], lambda f: numbers(f(E))),
        ("KleinNishina", KleinNishina, [("Z", c["Z"], 1), ("mc2", x, ME)], lambda k: results_of(k) + numbers(k.cs_diff_dtheta(E, theta))),
        ("scattered energy", kn.Ep_over_E, [("E", E), ("theta", theta)], numbers),
        ("scattering angle", kn.theta, [("E", E), ("Ep", E * kn.Ep_over_E(E, theta))], numbers),
        ("cs_diff_dOmega", kn.cs_diff_dOmega, [("E", E), ("theta", theta), ("phi", phi)], numbers),
        ("cs_diff_dOmega_unpolarized", kn.cs_diff_dOmega_unpolarized, [("E", E), ("theta", theta)], numbers),
        ("cs_diff_dtheta", kn.cs_diff_dtheta, [("E", E), ("theta", theta)], numbers),
        ("cs_diff_dEp", kn.cs_diff_dEp, [("E", E), ("Ep", E * kn.Ep_over_E(E, theta))], numbers),
        ("cs_diff_dEp_dphi", kn.cs_diff_dEp_dphi, [("E", E), ("Ep", E * kn.Ep_over_E(E, theta)), ("phi", phi)], numbers),
        ("XRMAC", XRMAC, [("data", data), ("energy_conversion", double, same), ("xrmac_conversion", np.sqrt, same)], results_of),
        ("sum", CrossSectionWeightedSum, [("reactions", [line, kn], []), ("scale_factors", [x, E], None)], weighted),
        ("grid of a line", line.equidistant_probability_grid, grid_arguments("coverage_or_limits"), numbers),
        ("equidistant grid of a line", line.equidistant_energy_grid, grid_arguments("coverage_or_limits"), numbers),
        ("evaluation of a line", line, [("E", E), ("input_is_absolute_energy", False, True)], numbers),
        ("grid of a sum", total.equidistant_probability_grid, grid_arguments("limits", "n_points_per_cross_section"), numbers),
        ("equidistant grid of a sum", total.equidistant_energy_grid, grid_arguments("limits"), numbers),
        ("darboux", darboux, [("f_or_fx", kn), ("x", np.linspace(0.5 * E, E, n))], numbers),
        ("quad_partition", quad_partition, [("f", lambda *v: x * v[0]), ("x0", [0.0, 1.0, E + 1.0]), ("x1_to_xn_minus_1", [(0.0, x)], None)], lambda v: numbers(v[0])),
        ("densities", Geant4DensityDataReader, [("density_data_file_name", files[0]), ("density_conversion", double, same)], lambda v: numbers(v.read_density_data("Fe"))),
        ("elements", NISTElementDataReader, [("element_data_file_name", files[1])], lambda v: numbers([i.amu for i in v.read_nist_element_data(2)[1].values()])),
    ]


def weighted(total):
    return numbers([len(total.reactions), len(total.scale_factors)]) + numbers(total(np.array([1.0, 2.0])))


def intermediate_channel(state):
    """State for one of the decay channels"""
    return GroundState(list(state.partial_widths)[-1], 2, 1)


NUMBER = 35


@obligation(
    "C35",
    "names and defaults",
    st.fixed_dictionaries(
        dict(
            r=narrow,
            table=table,
            which=st.integers(0, NUMBER - 1),
            E=lin(0.2, 5.0),
            x=lin(0.5, 10.0),
            theta=lin(0.1, 3.0),
            phi=lin(0.0, 6.0),
            n=st.integers(2, 9),
            Z=st.integers(2, 92),
            position=st.integers(0, 5),
            order=st.permutations(list(range(5))).map(list),
            omit=st.lists(st.booleans(), min_size=5, max_size=5),
        )
    ),
    quick=600,
)
def arguments(case):
    with scratch(case["x"]) as files:
        functions = signatures(case, files)
        require(len(functions) == NUMBER, "number of functions")
        name, function, parameters, description = functions[case["which"]]
        omitted = [len(p) == 3 and case["omit"][i] for i, p in enumerate(parameters)]
        values = [p[2] if out else p[1] for p, out in zip(parameters, omitted)]
        # The scale factors belong to the parts.
        if name == "sum" and omitted[0]:
            values[1], omitted[1] = None, True
        with quiet():
            expected = description(function(*values))
            position = case["position"] if case["position"] < len(parameters) else 0
            while any(omitted[:position]):
                position -= 1
            named = [i for i in case["order"] if position <= i < len(parameters) and not omitted[i]]
            actual = description(function(*values[:position], **{parameters[i][0]: values[i] for i in named}))
    what = "{} with {} by position and {} by name".format(name, position, [parameters[i][0] for i in named])
    require(len(actual) == len(expected), what + ": number of results")
    for a, b in zip(actual, expected):
        if isinstance(b, str) or isinstance(a, str):
            require(a == b, "{}: {!r} instead of {!r}".format(what, a, b))
        elif not (np.isnan(a) and np.isnan(b)):
            require_close(a, b, 10.0 * RTOL_CONST if "KleinNishina" in name else 1e-12, 1e-300, what=what)
    return len(named) > 1


@obligation("C35", "separate defaults", st.fixed_dictionaries(dict(x=lin(0.5, 10.0), n=st.integers(1, 4), r=narrow)), quick=60)
def separate_defaults(case):
    """Containers that an object has by default belong to this object"""
    initial, intermediate = states(case["r"])
    objects = [(Isotope("a", case["x"]), CrossSectionWeightedSum()) for _ in range(case["n"] + 1)]
    for isotope, total in objects[:-1]:
        isotope.excited_states.append(intermediate)
        isotope.ground_state = initial
        total.reactions.append(ConstantCrossSection(case["x"]))
        total.scale_factors.append(1.0)
    objects.append((Isotope("b", case["x"]), CrossSectionWeightedSum()))
    for isotope, total in objects[-2:]:
        require(len(isotope.excited_states) == 0 and isotope.ground_state is None, "states of another isotope")
        require(len(total.reactions) == 0 and len(total.scale_factors) == 0, "parts of another sum")
        require(total(1.0) == 0.0, "sum without parts")
    for isotope, total in objects[:-2]:
        require(isotope.excited_states == [intermediate], "excited states")
        require_close(total(1.0), case["x"], 1e-13, what="sum with one part")
    return True


# C36 ----------------------------------------------------------------------------------------------


@obligation(
    "C36",
    "resonances",
    st.fixed_dictionaries(dict(r=resonance(relative_width=(1e-9, 0.5)), recoil=st.one_of(st.none(), lin(5.0, 250.0)), x=st.lists(lin(-3.0, 3.0), min_size=1, max_size=4), c=lin(0.05, 0.95))),
    quick=400,
)
def attributes_of_resonances(case):
    r = case["r"]
    ref = Reference(r)
    cs = build(r)
    initial, intermediate = cs.initial_state, cs.intermediate_state
    require(intermediate.excitation_energy == r["E2"] and initial.excitation_energy == r["E0"], "states of the resonance")
    require((cs.final_state is None) == (r["final"] is None), "final state {!r}".format(cs.final_state))
    require_close(cs.energy_integrated_cross_section_constant, (np.pi * HBARC) ** 2, 3 * RTOL_CONST, what="constant")
    require_close(cs.statistical_factor, (r["two_J2"] + 1.0) / (r["two_J0"] + 1.0), 1e-13, what="statistical factor")
    branching = 1.0 if cs.final_state is None else intermediate.partial_widths[cs.final_state.J_pi] / intermediate.width
    require_close(cs.final_state_branching_ratio, branching, 1e-12, what="branching ratio")
    strength = cs.energy_integrated_cross_section_constant / cs.resonance_energy**2 * cs.statistical_factor
    strength = strength * intermediate.partial_widths[initial.J_pi] * cs.final_state_branching_ratio
    require_close(cs.energy_integrated_cross_section, strength, 1e-12, what="strength")
    d, p = cs.probability_distribution, cs.probability_distribution_parameters
    E = ref.Er + (0.3 if ref.shape == "box" else ref.w) * np.array(case["x"])
    require_close(cs(E), cs.energy_integrated_cross_section * d.pdf(E, *p), 1e-12, 1e-300, what="density of the distribution")
    require_close(np.diff(d.cdf(np.sort(E), *p)), ref.between(*[np.sort(E)[k] - ref.Er for k in (slice(None, -1), slice(1, None))]), 1e-5, 1e-6 + 64.0 * ref.rounding, what="cumulative distribution")
    with quiet():
        limits = cs.coverage_interval(case["c"])
        expected = d.ppf(np.array([0.5 - 0.5 * case["c"], 0.5 + 0.5 * case["c"]]), *p)
    require_close(limits, np.maximum(expected, 0.0), 1e-12, 1e-9 * ref.w, what="quantiles of the distribution")
    # Recoil
    correction = NoRecoil() if case["recoil"] is None else FreeNucleusRecoil(case["recoil"])
    line = Resonance(initial, intermediate, cs.final_state, correction)
    require(line.initial_state is initial and line.intermediate_state is intermediate, "states of the resonance")
    require(line.recoil_correction is correction, "recoil correction {!r}".format(line.recoil_correction))
    require_close(line.resonance_energy, line.recoil_correction(r["E2"] - r["E0"]), 1e-13, what="resonance energy")
    return len(r["widths"]) > 1


@obligation(
    "C36",
    "distributions and gases",
    st.fixed_dictionaries(
        dict(Er=log(0.01, 20.0), amu=lin(1.0, 250.0), T=log(1.0, 1e4), ratio=log(1e-4, 1e4), voigt=st.booleans(), x=st.lists(lin(-3.0, 3.0), min_size=1, max_size=4))
    ),
    quick=300,
)
def attributes_of_distributions(case):
    gas = MaxwellBoltzmann(case["amu"], case["T"])
    require(gas.amu == case["amu"] and gas.effective_temperature == case["T"], "mass and temperature")
    Delta = float(gas.get_doppler_width(case["Er"]))
    Gamma = case["ratio"] * Delta
    d = (SemiPseudoVoigtDistribution if case["voigt"] else PseudoVoigtDistribution)(case["Er"], Gamma, case["amu"], case["T"])
    require(d.resonance_energy == case["Er"], "resonance energy")
    fwhm, eta = thompson(2.0 * np.sqrt(np.log(2.0)) * Delta, Gamma)
    # Parameters of the approximation, some of which may be calculated only when they are needed
    if hasattr(d, "maxwell_boltzmann"):
        require_close(d.maxwell_boltzmann.get_doppler_width(case["Er"]), Delta, 1e-13, what="Doppler width")
        require_close((d.maxwell_boltzmann.amu, d.maxwell_boltzmann.effective_temperature), (case["amu"], case["T"]), 1e-14, what="gas")
    for name, expected in dict(sigma=Delta / np.sqrt(2.0), gamma=0.5 * Gamma, Gamma=fwhm, eta=eta).items():
        if hasattr(d, name):
            require_close(getattr(d, name), expected, 1e-9, 1e-12 if name == "eta" else 0.0, what="parameter " + name)
    if not case["voigt"] and hasattr(d, "Gamma") and hasattr(d, "eta"):
        offsets = d.Gamma * np.array(case["x"])
        expected = (1.0 - d.eta) * normal_pdf(offsets, d.Gamma / np.sqrt(8.0 * np.log(2.0))) + d.eta * cauchy_pdf(offsets, 0.5 * d.Gamma)
        rounding = 1e3 * 2.3e-16 * d.resonance_energy / d.Gamma
        require_close(d.pdf(d.resonance_energy + offsets), expected, 1e-10 + rounding, 1e-300, what="density")
    recoil = FreeNucleusRecoil(case["amu"])
    require(recoil.amu == case["amu"], "mass of the nucleus")
    return 1e-3 < eta < 0.999


@obligation("C36", "other cross sections", part, quick=300)
def attributes_of_others(case):
    E = np.array([0.3, 1.0, 2.5]) * case["x"]
    kn = KleinNishina(case["Z"], case["mc2"])
    require(kn.Z == case["Z"] and kn.mc2 == case["mc2"], "number and mass of the scattering centers")
    require_close(kn.scale_factor, case["Z"] * (ALPHA * HBARC / case["mc2"]) ** 2, 5 * RTOL_CONST, what="scale factor")
    # Thomson scattering
    require_close(kn(0.0), 8.0 * np.pi / 3.0 * kn.scale_factor, 1e-7, what="cross section at zero energy")
    require_close(kn.cs_diff_dOmega_unpolarized(E, 0.0), kn.scale_factor, 1e-12, what="cross section in the forward direction")
    data = make_table(case["table"])
    first, second = lambda e: 2.0 * e, lambda v: case["x"] * v
    cs = XRMAC(data, first, second)
    require(cs.energy_conversion is first and cs.xrmac_conversion is second, "conversions")
    require(np.array_equal(cs.data, data), "data of the table")
    if hasattr(cs, "interpolation_log_log"):
        require_close(10.0 ** cs.interpolation_log_log(np.log10(E)), cs(E), 1e-10, what="interpolation of logarithms")
    require_close(cs(cs.data[:, 0]), cs.data[:, 1], 1e-9, what="entries of the table")
    require(ConstantCrossSection(case["x"]).constant == case["x"], "constant")
    a, b, c = case["factors"]
    line = build(case["r"])
    total = a * line + b * cs + c * (kn + line) + case["x"]
    for cross_section in (total, CrossSectionWeightedSum([line, kn, cs], [a, b, c]), 2.0 * total + total, case["x"] * total, kn + line, 3 * cs):
        require(len(cross_section.reactions) == len(cross_section.scale_factors), "numbers of parts and factors")
        parts = [f * (p(E) + np.zeros(3)) for f, p in zip(cross_section.scale_factors, cross_section.reactions)]
        require_close(cross_section(E), np.sum(parts, axis=0), 1e-12, 1e-12 * np.max(np.sum(np.abs(parts), axis=0)), what="sum of the parts")
    for file in ("densities.txt", "elements.txt"):
        require(Geant4DensityDataReader(file, first).density_data_file_name == file, "name of the file")
        require(Geant4DensityDataReader(file, first).density_conversion is first, "conversion")
        require(NISTElementDataReader(file).element_data_file_name == file, "name of the file")
    return True
