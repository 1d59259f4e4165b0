"""C30, C31: independence of the environment, and simultaneous use"""

import json
import os
import subprocess
import sys
import tempfile
import threading
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

import probe
from gen import build, lin, log, resonance
from vlib import REPO, obligation, quiet, require, require_close, rule
from ries.cross_section import CrossSection
from ries.integration.darboux import darboux
from ries.integration.quad_partition import quad_partition
from ries.nonresonant.klein_nishina import KleinNishina
from ries.nonresonant.xrmac import xrmac_cm2_per_g
from ries.resonance.maxwell_boltzmann import MaxwellBoltzmann
from ries.resonance.recoil import FreeNucleusRecoil
from ries.resonance.debye_model import effective_temperature_debye_approximation

rule(
    "C30",
    "New processes with random working directories, decoy files in them, hash seeds, locales, "
    "interpreter options and orders of imports. All cases are non-trivial, because each differs from "
    "the environment of the check in at least one of them.",
)
rule(
    "C31",
    "Random tasks on common objects, executed by two to four threads in different orders, and functions "
    "that use the library while the library evaluates them. A case is non-trivial if at least two "
    "tasks use the same object.",
)

# C30 ----------------------------------------------------------------------------------------------

# Files that must not be mistaken for the data of the library
DECOYS = {
    "elements.txt": "Atomic Number = 1\nAtomic Symbol = Q\nMass Number = 1\nRelative Atomic Mass = 1\n"
    "Isotopic Composition = 1\nStandard Atomic Weight = 1\nNotes = m\n",
    "element_densities.txt": "H   99.0\nFe  99.0\nPb  99.0\n",
    "01.txt": "1.00000E-03  9.999E+00  9.999E+00\n2.00000E+01  9.999E+00  9.999E+00\n",
    "26.txt": "1.00000E-03  9.999E+00  9.999E+00\n2.00000E+01  9.999E+00  9.999E+00\n",
}
PLACES = [
    "{}",
    "nist_elements/{}",
    "geant4_densities/{}",
    "nist_xrmac/{}",
    "ries/constituents/nist_elements/{}",
    "ries/constituents/geant4_densities/{}",
    "ries/nonresonant/nist_xrmac/{}",
    "nonresonant/nist_xrmac/{}",
    "constituents/nist_elements/{}",
]

environment = st.fixed_dictionaries(
    dict(
        seed=st.integers(0, 10**6),
        order=st.permutations(probe.MODULES).map(lambda names: list(names)[:4]),
        hashseed=st.integers(0, 1000),
        locale=st.sampled_from(["C", "C.utf8", "POSIX", "", "de_DE.UTF-8"]),
        coerce=st.booleans(),
        options=st.lists(st.sampled_from(["-O", "-OO", "-B", "-s", "-X importtime", "-b"]), max_size=2, unique=True),
        directory=st.sampled_from(["", "", "a b/ä", "ries", "constituents"]),
        file=st.lists(log(0.1, 10.0), min_size=2, max_size=5),
        names=st.sampled_from(
            [["user.txt", "a b", "c.dat"], ["26.txt", "element_densities.txt", "elements.txt"], ["01.txt", "elements.txt", "26.txt"]]
        ),
        decoys=st.booleans(),
        zone=st.sampled_from(["UTC", "America/New_York", ""]),
        link=st.booleans(),
        move=st.booleans(),
        gone=st.integers(0, 2).map(lambda v: v == 2),
        bare=st.booleans(),
    )
)


@obligation("C30", "other processes", environment, quick=8, thorough=60)
def other_process(case):
    with tempfile.TemporaryDirectory() as scratch:
        if case["decoys"]:
            for place in PLACES:
                for name, text in DECOYS.items():
                    path = Path(scratch) / place.format(name)
                    path.parent.mkdir(parents=True, exist_ok=True)
                    path.write_text(text)
        directory = os.path.join(scratch, case["directory"])
        os.makedirs(directory, exist_ok=True)
        # Files of the user, which may have the names of supplied ones
        names = case["names"]
        for name in names:
            if os.path.exists(os.path.join(directory, name)):
                os.remove(os.path.join(directory, name))
        number = sum(len(files) for _, _, files in os.walk(scratch)) + len(names)
        with open(os.path.join(directory, names[0]), "w") as file:
            for i, x in enumerate(case["file"]):
                file.write("{:.5E}  {:.3E}  {:.3E}\n".format(0.001 * 2.0**i, x, x))
        with open(os.path.join(directory, names[1]), "w") as file:
            file.write("H   7.5\nFe  {:.3E}\n".format(case["file"][0]))
        with open(os.path.join(directory, names[2]), "w") as file:
            file.write(
                "Atomic Number = 1\nAtomic Symbol = H\nMass Number = 1\nRelative Atomic Mass = {:.3E}\n"
                "Isotopic Composition = 1\nStandard Atomic Weight = 1\nNotes = m\n".format(case["file"][1])
            )
        variables = {k: v for k, v in os.environ.items() if not k.startswith(("LC_", "LANG", "PYTHON", "TZ"))}
        variables.update(PYTHONHASHSEED=str(case["hashseed"]), TZ=case["zone"], PYTHONDONTWRITEBYTECODE="1", HOME=scratch)
        if case["bare"]:
            # No variables but those that make the case reproducible
            variables = {k: v for k, v in variables.items() if k.startswith("PYTHON")}
        if case["locale"]:
            variables["LC_ALL"] = case["locale"]
        if not case["coerce"]:
            variables.update(PYTHONCOERCECLOCALE="0", PYTHONUTF8="0")
        options = [word for option in case["options"] for word in option.split()]
        # The library may be found by a symbolic link, and the working directory may change after the import.
        library = str(REPO)
        if case["link"]:
            library = os.path.join(scratch, "l\u00efb rary")
            os.symlink(REPO, library)
        if case["move"]:
            os.mkdir(os.path.join(directory, "moved"))
        command = [sys.executable, "-W", "ignore", *options, str(Path(__file__).parent / "probe.py"), library]
        result = subprocess.run(
            command + [str(case["seed"]), ",".join(case["order"]), ",".join(names), "moved" if case["move"] else ".", "gone" if case["gone"] else ""],
            cwd=directory,
            env=variables,
            capture_output=True,
            text=True,
            timeout=300,
        )
        created = sum(len(files) for _, _, files in os.walk(scratch)) - number
    require(result.returncode == 0, "process failed: " + result.stderr[-500:])
    expected = probe.results(case["seed"])
    actual = json.loads(result.stdout)
    require_close(
        actual.pop("file"),
        [float("{:.3E}".format(x)) for x in case["file"] + case["file"][:2]],
        1e-9,
        what="file in the working directory",
    )
    require(set(actual) == set(expected), "other set of results")
    for name, values in expected.items():
        if values and isinstance(values[0], str):
            require(actual[name] == values, "{}: {} instead of {}".format(name, actual[name], values))
        else:
            require(len(actual[name]) == len(values), "number of values of " + name)
            # The cross section per atom of an element without a mass may be undefined.
            undefined = np.isnan(values)
            require(np.array_equal(np.isnan(actual[name]), undefined), name + " is defined only here or only there")
            require_close(np.where(undefined, 0.0, actual[name]), np.where(undefined, 0.0, values), 1e-11, 1e-300, what=name)
    require(created == 0, "files were created in the working directory")
    return True


# C31 ----------------------------------------------------------------------------------------------

OPERATIONS = ["call", "call", "relative", "coverage", "pcoverage", "pgrid", "egrid", "darboux", "compton", "debye", "quad"]

task = st.fixed_dictionaries(
    dict(
        op=st.sampled_from(OPERATIONS),
        i=st.integers(0, 9),
        x=lin(0.1, 3.0),
        n=st.integers(3, 12),
        size=st.sampled_from([1, 3, 50, 2000]),
    )
)


def perform(objects, t):
    cs = objects[t["i"] % len(objects)]
    E = np.linspace(t["x"], 2.0 * t["x"] + 0.5, t["size"])
    limits = (t["x"], 2.0 * t["x"] + 0.5)
    op = t["op"]
    if op == "call":
        return cs(E)
    if op == "pgrid":
        return cs.equidistant_probability_grid(limits, t["n"])
    if op == "egrid":
        return cs.equidistant_energy_grid(limits, t["n"])
    if op == "darboux":
        return darboux(lambda e: np.exp(-cs(e) * 1e-3) + 0.0 * e, np.linspace(*limits, t["n"]))
    if op == "compton":
        kn = KleinNishina(t["n"])
        return kn.cs_diff_dEp(limits[1], kn.compton_edge(limits[1]) * (1.0 + 0.01 * t["x"]))
    if op == "debye":
        return effective_temperature_debye_approximation(100.0 * E[:20], 300.0)
    if op == "quad":
        return quad_partition(lambda e: t["x"] * e * e, np.linspace(0.0, 1.0, t["n"]))
    if not hasattr(cs, "coverage_interval"):
        return cs(E)
    if op == "relative":
        return cs(E - t["x"], input_is_absolute_energy=False)
    if op == "coverage":
        return cs.coverage_interval(0.3 * t["x"])
    return cs.equidistant_probability_grid(0.3 * t["x"], t["n"])


def build_objects(case):
    lines = [build(r) for r in case["lines"]]
    total = lines[0]
    for line in lines[1:]:
        total = total + 0.5 * line
    return [*lines, total, 2.0 * total + 1.0, KleinNishina(8), xrmac_cm2_per_g["Fe"], 3.0 * xrmac_cm2_per_g["Pb"] + lines[0]]


@obligation(
    "C31",
    "threads",
    st.fixed_dictionaries(
        dict(
            lines=st.lists(
                resonance(energy=(0.1, 5.0), relative_width=(1e-4, 0.1)), min_size=1, max_size=4
            ),
            tasks=st.lists(task, min_size=2, max_size=8),
            threads=st.integers(2, 4),
            repetitions=st.integers(1, 3),
        )
    ),
    quick=60,
)
def threads(case):
    tasks = case["tasks"]
    with quiet():
        fresh = build_objects(case)
        expected = [perform(fresh, t) for t in tasks]
    objects = build_objects(case)
    problems = []
    barrier = threading.Barrier(case["threads"])

    def work(number):
        try:
            barrier.wait(60)
            for repetition in range(case["repetitions"]):
                for k in range(len(tasks)):
                    # Each thread starts with another task, half of them go backwards.
                    i = (number + (k if number % 2 else -k)) % len(tasks)
                    value = perform(objects, tasks[i])
                    require_close(value, expected[i], 1e-12, what=tasks[i]["op"])
        except BaseException as e:  # reported by the main thread
            problems.append(e)

    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        with quiet():
            workers = [threading.Thread(target=work, args=(k,)) for k in range(case["threads"])]
            for worker in workers:
                worker.start()
            for worker in workers:
                worker.join()
    finally:
        sys.setswitchinterval(interval)
    if problems:
        raise problems[0]
    used = [t["i"] % len(objects) for t in tasks if t["op"] not in ("compton", "debye", "quad")]
    return len(set(used)) < len(used)


def methods(case):
    """Functions of one number that use a common object"""
    r = case["r"]
    with quiet():
        line, kn, table = build(r), KleinNishina(8), xrmac_cm2_per_g["Fe"]
        Er = line.resonance_energy
        total = 2.0 * line + kn + 3.0
        gas = MaxwellBoltzmann(r["amu"], r["T"])
        recoil = FreeNucleusRecoil(r["amu"])
    n = case["size"]
    angles = np.linspace(0.1, 3.0, n)
    grid = np.linspace(0.5, 1.5, n)
    share = np.linspace(0.1, 0.9, min(n, 100))
    return dict(
        line=lambda x: line(Er * x * grid),
        relative=lambda x: line(0.1 * x * grid, input_is_absolute_energy=False),
        interval=lambda x: line.coverage_interval(0.3 * x),
        probability=lambda x: line.equidistant_probability_grid((0.5 * Er, Er * (1.0 + x)), min(n, 100)),
        energy=lambda x: line.equidistant_energy_grid((0.5, 1.0 + x), n),
        quantile=lambda x: line.probability_distribution.ppf(0.9 * share / x, *line.probability_distribution_parameters),
        share=lambda x: line.probability_distribution.cdf(Er * x * grid, *line.probability_distribution_parameters),
        total=lambda x: total(Er * x * grid),
        total_grid=lambda x: total.equidistant_probability_grid((0.5 * Er, Er * (1.0 + x)), min(n, 100)),
        multiple=lambda x: (x * total + x)(Er * x * grid),
        compton=lambda x: kn(x * grid),
        polarized=lambda x: kn.cs_diff_dOmega(x, angles, x * angles),
        unpolarized=lambda x: kn.cs_diff_dOmega_unpolarized(x, angles),
        angle=lambda x: kn.cs_diff_dtheta(x, angles),
        spectrum=lambda x: kn.cs_diff_dEp(x, kn.compton_edge(x) + (x - kn.compton_edge(x)) * angles / 3.2),
        azimuth=lambda x: kn.cs_diff_dEp_dphi(x, kn.compton_edge(x) + (x - kn.compton_edge(x)) * angles / 3.2, angles),
        theta=lambda x: kn.theta(x, kn.compton_edge(x) + (x - kn.compton_edge(x)) * angles / 3.2),
        edge=lambda x: kn.compton_edge(x * grid),
        table=lambda x: table(x * grid),
        doppler=lambda x: gas.get_doppler_width(x * grid),
        temperature=lambda x: gas.get_effective_temperature(x * grid, x, grid),
        recoil=lambda x: recoil(x * grid),
    )


METHODS = [
    "line", "relative", "interval", "probability", "energy", "quantile", "share", "total", "total_grid", "multiple",
    "compton", "polarized", "unpolarized", "angle", "spectrum", "azimuth", "theta", "edge", "table", "doppler",
    "temperature", "recoil",
]


@obligation(
    "C31",
    "threads with one object",
    st.fixed_dictionaries(
        dict(
            r=resonance(energy=(0.5, 5.0), relative_width=(1e-3, 0.1), temperature=(1.0, 1e5)),
            method=st.one_of(st.sampled_from(METHODS), st.sampled_from(METHODS[:7])),
            other=st.sampled_from(METHODS),
            size=st.sampled_from([1, 10, 1000, 5000]),
            x=st.lists(lin(1.0, 3.0), min_size=3, max_size=3, unique=True),
        )
    ),
    quick=240,
)
def one_object(case):
    """Each thread uses the same object for another argument, many times"""
    with quiet():
        use = methods(case)
        jobs = [(case["method"], x) for x in case["x"]] + [(case["other"], case["x"][0])]
        expected = [methods(case)[name](x) for name, x in jobs]
    problems = []
    barrier = threading.Barrier(len(jobs))

    def work(i):
        name, x = jobs[i]
        try:
            barrier.wait(60)
            for _ in range(40 if case["size"] < 1000 else 20):
                require_close(use[name](x), expected[i], 1e-12, what=name)
        except BaseException as e:  # reported by the main thread
            problems.append(e)

    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        with quiet():
            workers = [threading.Thread(target=work, args=(i,)) for i in range(len(jobs))]
            for worker in workers:
                worker.start()
            for worker in workers:
                worker.join()
    finally:
        sys.setswitchinterval(interval)
    if problems:
        raise problems[0]
    return len({x for _, x in jobs}) > 1


class Nested(CrossSection):
    """Cross section of a user whose evaluation uses other objects of the library"""

    def __init__(self, inner, shift):
        self.inner = inner
        self.shift = shift
        self.depth = 0

    def __call__(self, E):
        if self.depth > 1:
            return 1.0 + 0.0 * E
        self.depth += 1
        try:
            return self.inner()(E + self.shift) * 0.5
        finally:
            self.depth -= 1

    def equidistant_probability_grid(self, limits, n_points):
        if self.depth > 0:
            return np.linspace(*limits, n_points)
        self.depth += 1
        try:
            inner = self.inner().equidistant_probability_grid((limits[0] + 0.1, limits[1] + 0.1), n_points + 1)
        finally:
            self.depth -= 1
        return np.concatenate([[limits[0]], np.clip(inner[1:-1], *limits), [limits[1]]])


@obligation(
    "C31",
    "nested evaluation",
    st.fixed_dictionaries(
        dict(
            lines=st.lists(
                resonance(energy=(0.5, 5.0), relative_width=(1e-3, 0.1)), min_size=1, max_size=3
            ),
            factors=st.lists(log(0.1, 10.0), min_size=4, max_size=4),
            shift=lin(0.01, 1.0),
            E=st.lists(lin(0.2, 6.0), min_size=1, max_size=5),
            position=st.integers(0, 3),
        )
    ),
    quick=150,
)
def nested(case):
    """A part of a sum evaluates the whole sum at other energies."""
    lines = [build(r) for r in case["lines"]]
    position = case["position"] % (len(lines) + 1)
    holder = []
    inner = Nested(lambda: holder[0], case["shift"])
    parts = lines[:position] + [inner] + lines[position:]
    factors = case["factors"][: len(parts)]
    total = factors[0] * parts[0]
    for factor, part in zip(factors[1:], parts[1:]):
        total = total + factor * part
    holder.append(total)
    E = np.array(case["E"])
    with quiet():
        # Values of the lines at all energies from fresh objects
        fresh = [build(r) for r in case["lines"]]
        others = factors[:position] + factors[position + 1 :]

        def plain(e):
            return sum(f * line(e) for f, line in zip(others, fresh))

        f = factors[position]
        s = case["shift"]
        expected = plain(E) + f * 0.5 * (plain(E + s) + f * 0.5 * (plain(E + 2 * s) + f))
        require_close(total(E), expected, 1e-11, what="sum that contains itself")
        for e, x in zip(E, expected):
            require_close(total(float(e)), x, 1e-11, what="sum that contains itself")
        grid = total.equidistant_probability_grid((0.2, 6.0), 7)
        parts_of_grid = [line.equidistant_probability_grid((0.2, 6.0), 7) for line in fresh]
        deep = [line.equidistant_probability_grid((0.2 + 0.1, 6.0 + 0.1), 8) for line in fresh] + [np.linspace(0.2 + 0.1, 6.0 + 0.1, 8)]
        union = np.unique(np.concatenate(deep))
        parts_of_grid.append(np.concatenate([[0.2], np.clip(union[1:-1], 0.2, 6.0), [6.0]]))
        require_close(grid, np.unique(np.concatenate(parts_of_grid)), 1e-12, what="grid of a sum that contains itself")
    return True


@obligation(
    "C31",
    "nested integration",
    st.fixed_dictionaries(
        dict(
            edges=st.lists(lin(0.0, 2.0), min_size=2, max_size=4, unique=True),
            inner=st.lists(lin(0.1, 1.0), min_size=1, max_size=3),
            c=lin(-2.0, 2.0),
            p=st.integers(0, 3),
            n=st.integers(2, 30),
            method=st.sampled_from(["quad", "darboux", "both"]),
        )
    ),
    quick=100,
)
def nested_integration(case):
    """The function itself integrates over another variable."""
    x0 = sorted(case["edges"])
    steps = np.concatenate([[0.0], np.cumsum(case["inner"])])
    c, p = case["c"], case["p"]
    b = float(steps[-1])

    def inner_quad(x):
        return quad_partition(lambda y: c + x * y**p, steps)[0]

    def inner_sum(x):
        y = np.linspace(0.0, b, case["n"])
        low, difference = darboux(lambda v: c + x * v**p, y)
        return low + 0.5 * difference

    # Integral of c + x y^p over y, and its value by the trapezoidal rule
    moment = b ** (p + 1) / (p + 1)
    y = np.linspace(0.0, b, case["n"])
    trapezoid = float(np.sum(0.5 * (y[1:] ** p + y[:-1] ** p) * np.diff(y)))
    lo, hi = x0[0], x0[-1]
    if case["method"] == "quad":
        value, error = quad_partition(inner_quad, x0)
        expected = c * b * (hi - lo) + 0.5 * (hi * hi - lo * lo) * moment
        require_close(value, expected, 1e-8, 1e-8, what="nested integral")
    elif case["method"] == "darboux":
        low, difference = darboux(lambda x: np.array([inner_quad(v) for v in x]), np.array(x0))
        values = [c * b + v * moment for v in x0]
        expected = sum(min(f, g) * (v - u) for f, g, u, v in zip(values[:-1], values[1:], x0[:-1], x0[1:]))
        require_close(low, expected, 1e-8, 1e-8, what="nested lower sum")
        expected = sum(abs(f - g) * (v - u) for f, g, u, v in zip(values[:-1], values[1:], x0[:-1], x0[1:]))
        require_close(difference, expected, 1e-8, 1e-8, what="nested difference")
    else:
        value, error = quad_partition(inner_sum, x0)
        expected = c * b * (hi - lo) + 0.5 * (hi * hi - lo * lo) * trapezoid
        require_close(value, expected, 1e-8, 1e-8, what="integral of a sum")
    return True
