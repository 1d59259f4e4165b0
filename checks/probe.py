"""Results of the library in another environment: probe.py REPOSITORY SEED MODULES FILES DIRECTORY GONE

The modules are imported in the given order, then the working directory changes. The results for the given seed are printed as JSON.
This file is also imported by the check for the results in its own environment.
"""

import importlib
import json
import os
import random
import sys

MODULES = [
    "ries.cross_section",
    "ries.constituents.state",
    "ries.constituents.isotope",
    "ries.constituents.element",
    "ries.constituents.natural_element_data",
    "ries.integration.darboux",
    "ries.integration.quad_partition",
    "ries.nonresonant.nonresonant",
    "ries.nonresonant.klein_nishina",
    "ries.nonresonant.xrmac",
    "ries.resonance.resonance",
    "ries.resonance.breit_wigner",
    "ries.resonance.debye_model",
    "ries.resonance.gauss",
    "ries.resonance.maxwell_boltzmann",
    "ries.resonance.pseudo_voigt",
    "ries.resonance.recoil",
    "ries.resonance.voigt",
]


def results(seed):
    """Dictionary of names and lists of numbers or strings"""
    import numpy as np

    m = {name.split(".")[-1]: importlib.import_module(name) for name in MODULES}
    rng = random.Random(seed)
    out = {}

    def put(name, value):
        out["{:03d} {}".format(len(out), name)] = [float(v) for v in np.ravel(value)]

    elements = m["element"].natural_elements
    out["symbols"] = list(elements)
    out["numbers"] = ["{}:{}".format(Z, X) for Z, X in m["element"].X.items()]
    for X in rng.sample(list(elements), 8):
        e = elements[X]
        out["isotopes " + X] = list(e.isotopes) + list(e.abundances)
        put("mass " + X, e.amu)
        put("masses " + X, [i.amu for i in e.isotopes.values()])
        put("abundances " + X, list(e.abundances.values()))
        put("density " + X, -1.0 if e.density is None else e.density)
    debye = m["debye_model"]
    for X in rng.sample(sorted(k for k, v in debye.room_temperature_T_D.items() if v), 4):
        T = rng.uniform(1.0, 1000.0)
        put("Debye " + X, debye.effective_temperature_debye_approximation(T, debye.room_temperature_T_D[X]))
    for X in rng.sample(list(m["xrmac"].xrmac_cm2_per_g), 6):
        E = np.array([10.0 ** rng.uniform(-3.5, 1.5) for _ in range(5)])
        put("attenuation " + X, m["xrmac"].xrmac_cm2_per_g[X](E))
        put("attenuation per atom " + X, m["xrmac"].xrmac_fm2_per_atom[X](E))
        put("table " + X, m["xrmac"].xrmac_cm2_per_g[X].data)
    State, GroundState = m["state"].State, m["state"].GroundState
    lines = []
    for shape in ("Resonance", "BreitWigner", "Gauss", "PseudoVoigt", "Voigt"):
        module = dict(BreitWigner="breit_wigner", PseudoVoigt="pseudo_voigt").get(shape, shape.lower())
        E = rng.uniform(0.5, 10.0)
        widths = {"c{}".format(i): E * 10.0 ** rng.uniform(-6, -4) for i in range(5)}
        ground = GroundState("c{}".format(rng.randrange(5)), rng.randrange(8), 1)
        state = State("x", rng.randrange(8), -1, E, widths)
        arguments = [ground, state]
        if shape in ("Gauss", "PseudoVoigt", "Voigt"):
            arguments += [rng.uniform(1.0, 250.0), rng.uniform(1.0, 1000.0)]
        cs = getattr(m[module], shape)(*arguments, final_state=rng.choice([None, ground]))
        w = state.width
        lines.append(cs)
        put(shape, cs(E + w * np.array([-20.0, -1.0, 0.0, 0.5, 3.0])))
        put(shape + " strength", cs.energy_integrated_cross_section)
        put(shape + " interval", cs.coverage_interval(0.8))
        put(shape + " grid", cs.equidistant_probability_grid(0.8, 9))
        put(shape + " grid between limits", cs.equidistant_probability_grid((E - w, E + 3.0 * w), 6))
    kn = m["klein_nishina"].KleinNishina(rng.randrange(1, 90))
    E, theta = rng.uniform(0.01, 10.0), rng.uniform(0.1, 3.0)
    put("Compton", [kn(E), kn.compton_edge(E), kn.cs_diff_dOmega(E, theta, 0.3), kn.cs_diff_dtheta(E, theta)])
    put("Compton angle", kn.theta(E, kn.Ep_over_E(E, theta) * E))
    put("Doppler width", m["maxwell_boltzmann"].MaxwellBoltzmann(12.0, 300.0).get_doppler_width(E))
    put("recoil", m["recoil"].FreeNucleusRecoil(12.0)(E))
    total = sum(lines[1:], 0.1 * kn) + 2.0
    put("sum", total(np.array([1.0, 2.0, 5.0])))
    grid = total.equidistant_probability_grid((0.4, 11.0), 5)
    put("grid of the sum", grid)
    put("Darboux sums", m["darboux"].darboux(total, grid))
    put("integral", m["quad_partition"].quad_partition(lambda E, z: kn(E) * z, [0.1, 1.0, 2.0], [[0.0, 2.0]])[0])
    return out


if __name__ == "__main__":
    sys.dont_write_bytecode = True
    sys.path.insert(0, sys.argv[1])
    if sys.argv[6]:
        # The working directory does not exist anymore.
        start = os.getcwd()
        os.mkdir("empty")
        os.chdir("empty")
        os.rmdir(os.path.join(start, "empty"))
    for name in sys.argv[3].split(","):
        if name:
            importlib.import_module(name)
    if sys.argv[6]:
        output = results(int(sys.argv[2]))
        os.chdir(start)
    os.chdir(sys.argv[5])
    if sys.argv[5] != ".":
        for name in sys.argv[4].split(","):
            os.rename(os.path.join("..", name), name)
    if not sys.argv[6]:
        output = results(int(sys.argv[2]))
    # Files of the user
    coefficients, densities, nuclei = sys.argv[4].split(",")
    table = importlib.import_module("ries.nonresonant.xrmac").XRMAC(coefficients)
    output["file"] = [float(x) for x in table.data[:, 1]]
    readers = importlib.import_module("ries.constituents.natural_element_data")
    output["file"].append(readers.Geant4DensityDataReader(densities).read_density_data("Fe"))
    _, isotopes = readers.NISTElementDataReader(nuclei).read_nist_element_data(1)
    output["file"] += [isotope.amu for isotope in isotopes.values()]
    print(json.dumps(output))
