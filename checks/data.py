"""C10 to C13: tabulated data"""

import json
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from gen import RTOL_CONST, SEEDS, STYLES, U_G, as_callable, digits, lin, log, many, unit
from vlib import VERIF, obligation, require, require_close, rule
from ries.constituents.element import Element, X, natural_elements
from ries.constituents.isotope import Isotope
from ries.constituents.natural_element_data import (
    Geant4DensityDataReader,
    NISTElementDataReader,
)
from ries.nonresonant.xrmac import XRMAC, xrmac_cm2_per_g, xrmac_fm2_per_atom

GOLDEN_ELEMENTS = json.loads((VERIF / "golden" / "elements.json").read_text())
GOLDEN_DENSITIES = json.loads((VERIF / "golden" / "densities.json").read_text())
GOLDEN_XRMAC = json.loads((VERIF / "golden" / "xrmac.json").read_text())
SYMBOLS = [GOLDEN_ELEMENTS[str(Z)]["X"] for Z in range(1, 119)]

rule(
    "C10",
    "Random tables with and without absorption edges, all supplied tables, and random energies "
    "inside, outside and at the entries of the table. A case is non-trivial if the table has at "
    "least two different coefficients and an energy that is not an entry of the table.",
)
rule(
    "C11",
    "Random files in the format of the supplied ones, random conversions, and all supplied tables. "
    "A case is non-trivial if it has at least two lines.",
)
rule(
    "C12",
    "Random files in the NIST format, random compositions of elements, and all supplied elements. A "
    "case is non-trivial if the element has at least one isotope.",
)
rule(
    "C13",
    "Random density files with similar element symbols, and all supplied elements. A case is "
    "non-trivial if the requested symbol is in the file and is not the only one.",
)


class scratch_file:
    """File with the given contents that exists inside of the context only

    A process uses only a few different names.
    Before, another file with this name is read, which must not have any influence.
    """

    ENDINGS = [".txt", ".dat", "", " table.csv", ".TXT", "_\u00e4.tab", ".v1.0"]

    def __init__(self, text, other, read, crlf=False):
        self.text = text
        self.other = other
        self.read = read
        self.newline = "\r\n" if crlf else "\n"

    def __enter__(self):
        ending = self.ENDINGS[len(self.text) % len(self.ENDINGS)]
        self.name = os.path.join(tempfile.gettempdir(), "verif_{:d}{}".format(os.getpid(), ending))
        with open(self.name, "w") as file:
            file.write(self.other)
        self.read(self.name)
        with open(self.name, "w", newline=self.newline) as file:
            file.write(self.text)
        return self.name

    def __exit__(self, *args):
        os.unlink(self.name)


# C10 ----------------------------------------------------------------------------------------------


def loglog(table, E):
    """Reference for the interpolation. Returns the set of allowed values."""
    if E < table[0][0]:
        return [table[0][1]]
    if E > table[-1][0]:
        return [table[-1][1]]
    exact = [row[1] for row in table if row[0] == E]
    if exact:
        return exact
    for low, high in zip(table[:-1], table[1:]):
        if low[0] < E < high[0]:
            t = np.log(E / low[0]) / np.log(high[0] / low[0])
            return [low[1] * (high[1] / low[1]) ** t]
    raise RuntimeError("unsorted table")


@st.composite
def tables(draw):
    n = draw(st.integers(2, 12))
    E = draw(st.one_of(log(1e-5, 1.0), log(1e-20, 1e20)))
    rows = []
    columns = draw(st.sampled_from([2, 2, 3]))
    for i in range(n):
        edge = 0 < i < n - 1 and rows[-1][0] == E
        rows.append([E] + [draw(st.one_of(log(1e-6, 1e6), log(1e-6, 1e6), log(1e-40, 1e40))) for _ in range(columns - 1)])
        # An edge has two entries. Not at the ends of the table.
        if i == 0 or i == n - 2 or edge or draw(st.integers(0, 3)) > 0:
            E = E * draw(st.one_of(lin(1.001, 3.0), log(2.0, 1e4)))
    return rows


@st.composite
def large_tables(draw):
    n = draw(st.one_of(st.integers(12, 400), st.integers(400, 1500)))
    seed = draw(SEEDS)
    E = draw(log(1e-6, 1e-2)) * np.cumprod(many(n, seed, 1.0001, 1.1 if n < 400 else 1.02))
    columns = draw(st.sampled_from([2, 3, 4]))
    rows = [[float(e)] for e in E]
    for k in range(columns - 1):
        for row, v in zip(rows, many(n, seed + 10000 * (k + 1), 1e-6, 1e6, True)):
            row.append(v)
    # Absorption edges
    for i in draw(st.lists(st.integers(1, n - 3), max_size=6)):
        if rows[i - 1][0] < rows[i][0] and rows[i + 1][0] < rows[i + 2][0]:
            rows[i + 1][0] = rows[i][0]
    return rows


def steepness(table, E):
    """Largest logarithmic slope at or next to an energy"""
    slopes = [
        abs(np.log(high[1] / low[1]) / np.log(high[0] / low[0]))
        for low, high in zip(table[:-1], table[1:])
        if low[0] < high[0] and low[0] * (1 - 1e-9) <= E <= high[0] * (1 + 1e-9)
    ]
    return max(slopes + [0.0])


def check_table(cs, table, energies):
    # The logarithm of zero is legitimate here, but causes a warning.
    with np.errstate(divide="ignore"):
        compare_table(cs, table, energies)


def compare_table(cs, table, energies):
    for E in energies:
        value = float(cs(E))
        allowed = loglog(table, E)
        tol = 1e-10 + 2e-14 * steepness(table, E)
        # At an edge, the rounding of the logarithm may select values next to it.
        require(
            any(abs(value - a) <= tol * a for a in allowed),
            "coefficient {!r} at {!r} instead of {}".format(value, E, allowed),
        )
    values = np.array([float(cs(E)) for E in energies])
    require_close(cs(np.array(energies)), values, 1e-12, what="coefficients of an array")


def queries(table, spec):
    energies = []
    E = [row[0] for row in table]
    for kind, i, u in spec:
        i = i % len(table)
        if kind == "entry":
            energies.append(E[i])
        elif kind == "beside":
            # From one part in 10^12 to one part in 100
            sign = 1.0 if u < 0.5 else -1.0
            energies.append(E[i] * (1.0 + sign * 10.0 ** (-2.0 - 20.0 * (u % 0.5))))
        elif kind == "extreme":
            energies.append([0.0, 5e-324, 1e-300, 1e300, 1.7e308][i % 5])
        elif kind == "below":
            energies.append(E[0] * (1e-3 + 0.998 * u))
        elif kind == "above":
            energies.append(E[-1] * (1.001 + 1e3 * u))
        else:
            i = min(i, len(table) - 2)
            if len(table) == 1:
                energies.append(E[0] * (0.5 + u))
            elif E[i] == E[i + 1]:
                energies.append(E[i])
            else:
                energies.append(E[i] + (E[i + 1] - E[i]) * (0.01 + 0.98 * u))
    return energies


spec = st.lists(
    st.tuples(
        st.sampled_from(["entry", "inside", "inside", "inside", "beside", "beside", "below", "above", "extreme"]),
        st.one_of(digits, st.integers(0, 399)),
        unit,
    ).map(list),
    min_size=1,
    max_size=10,
)


@obligation(
    "C10",
    "random tables",
    st.builds(
        lambda t, s: dict(table=t, spec=s), st.one_of(tables(), tables(), large_tables()), spec
    ),
    quick=1200,
)
def random_tables(case):
    table = case["table"]
    energies = queries(table, case["spec"])
    check_table(XRMAC(np.array(table)), table, energies)
    return any(kind == "inside" for kind, _, _ in case["spec"])


@obligation(
    "C10",
    "small tables of whole numbers",
    st.fixed_dictionaries(
        dict(
            steps=st.lists(st.integers(1, 1000), min_size=1, max_size=8),
            values=st.lists(st.integers(1, 10**6), min_size=8, max_size=8),
            dtype=st.sampled_from(["int64", "int32", "uint32", "float32", "float64"]),
            layout=st.sampled_from(["plain", "columns", "readonly", "view"]),
            spec=spec,
        )
    ),
    quick=300,
)
def integer_tables(case):
    E = np.cumsum(case["steps"])
    table = np.array([E, case["values"][: len(E)]]).T.astype(case["dtype"])
    if case["layout"] == "columns":
        table = np.asfortranarray(table)
    elif case["layout"] == "view":
        table = np.repeat(np.repeat(table, 2, axis=0), 2, axis=1)[::2, ::2]
    elif case["layout"] == "readonly":
        table.flags.writeable = False
    before = table.tolist()
    plain = [[float(x) for x in row] for row in before]
    cs = XRMAC(table)
    energies = queries(plain, case["spec"])
    if case["dtype"] == "float32":
        # The logarithm may be calculated in single precision.
        plain_cs = XRMAC(np.array(plain))
        energies = [e for e in energies if all(abs(e - row[0]) > 1e-4 * row[0] for row in plain)]
        require_close([float(cs(e)) for e in energies], [float(plain_cs(e)) for e in energies], 1e-2, what="table in single precision")
    else:
        check_table(cs, plain, energies)
    require(table.tolist() == before, "table changed")
    return len(plain) > 1 and any(kind == "inside" for kind, _, _ in case["spec"])


@obligation(
    "C10",
    "supplied tables",
    st.builds(lambda Z, s: dict(Z=Z, spec=s), st.integers(1, 92), spec),
    quick=1000,
)
def supplied_tables(case):
    table = GOLDEN_XRMAC[str(case["Z"])]
    energies = queries(table, case["spec"])
    check_table(xrmac_cm2_per_g[X[case["Z"]]], table, energies)
    return any(kind == "inside" for kind, _, _ in case["spec"])


@obligation("C10", "every entry and interval", cases=lambda: list(range(1, 93)))
def every_entry(Z):
    table = GOLDEN_XRMAC[str(Z)]
    n = len(table)
    sweep = [["entry", i, 0.0] for i in range(n)] + [["inside", i, 0.5] for i in range(n - 1)]
    sweep += [["beside", i, u] for i in range(n) for u in (0.2, 0.35, 0.7, 0.85)]
    sweep += [["below", 0, 0.5], ["above", 0, 0.5]]
    check_table(xrmac_cm2_per_g[X[Z]], table, queries(table, sweep))


# C11 ----------------------------------------------------------------------------------------------


@st.composite
def files(draw):
    """Tables in the format of Hubbell and Seltzer"""
    labels = draw(st.booleans())
    n = draw(st.one_of(st.integers(1, 15), st.integers(1, 15), st.integers(15, 80)))
    rows = []
    E = draw(log(1e-4, 1e-2))
    for i in range(n):
        label = "   "
        if labels and draw(st.integers(0, 2)) == 0:
            label = draw(st.sampled_from(["K  ", "L1 ", "L2 ", "L3 ", "M5 ", "N2 ", " K ", " L1"]))
        rows.append(
            [label]
            + ["{:.5E}".format(E)]
            + ["{:.3E}".format(draw(log(1e-4, 1e5))) for _ in range(2)]
        )
        if label == "   ":
            E = E * draw(lin(1.01, 3.0 if n < 16 else 1.3))
    return dict(
        labels=labels,
        rows=rows,
        trailing=draw(st.booleans()),
        newline=draw(st.booleans()),
        factors=draw(
            st.one_of(st.none(), st.tuples(log(1e-6, 1e6), log(1e-6, 1e6)).map(list), st.tuples(log(1e-30, 1e30), log(1e-30, 1e30)).map(list))
        ),
        # A negative power reverses the order, as for the conversion to wavelengths.
        power=draw(st.sampled_from([1.0, 1.0, 2.0, -1.0])),
        styles=[draw(STYLES), draw(STYLES)],
        # Further lines are generated from a number.
        extra=draw(st.one_of(st.just(0), st.just(0), st.just(0), st.integers(1, 400))),
        seed=draw(SEEDS),
        crlf=draw(st.booleans()),
    )


@obligation("C11", "generated files", files(), quick=700)
def generated_files(case):
    lines = []
    rows = list(case["rows"])
    E = float(rows[-1][1])
    for i, x in enumerate(many(case["extra"], case["seed"], 1e-3, 1e3, True)):
        # Absorption edges consist of two lines with the same energy.
        E *= 1.0 if (i + case["seed"]) % 7 == 0 else 1.02
        rows.append(["   ", "{:.5E}".format(E), "{:.3E}".format(x), "{:.3E}".format(0.5 * x)])
    for label, E, a, b in rows:
        line = "{}  {}  {}".format(E, a, b)
        if case["labels"]:
            line = label + line
        lines.append(line + (" " if case["trailing"] else ""))
    text = "\n".join(lines) + ("\n" if case["newline"] else "")
    expected = np.array([[float(v) for v in row[1:]] for row in rows])
    arguments = {}
    if case["factors"] is not None:
        k_E, k_x = case["factors"]
        power = case["power"]
        arguments = dict(
            energy_conversion=as_callable(lambda E: k_E * E**power, case["styles"][0]),
            xrmac_conversion=as_callable(lambda x: k_x * x**power, case["styles"][1]),
        )
        expected = np.array([k_E, k_x, k_x]) * expected**power
    other = "1.00000E-03  1.000E+00  2.000E+00\n1.00000E-02  1.000E+00  2.000E+00\n"
    with scratch_file(text, other, XRMAC, case["crlf"]) as name:
        if len(lines) > 1:
            cs = XRMAC(name, **arguments)
            data = cs.data
            require_close(
                cs.read_nist_xrmac(name), expected, 1e-13, what="table after another reading"
            )
        else:
            cs = XRMAC(np.array([[1.0, 1.0], [2.0, 1.0]]), **arguments)
            data = cs.read_nist_xrmac(name)
    require(np.shape(data) == expected.shape, "shape of the table: {}".format(np.shape(data)))
    require_close(data, expected, 1e-13, what="table")
    if len(lines) > 1 and expected[0, 0] <= expected[-1, 0]:
        E = expected[0, 0], expected[-1, 0]
        require_close(cs(E[0]), expected[0, 1] if E[0] != expected[1, 0] else cs(E[0]), 1e-10)
        # Not if the first or last energy is repeated with another coefficient
        if E[0] != expected[1, 0]:
            require_close(cs(E[0] * 0.9), expected[0, 1], 1e-10, what="coefficient below the table")
        if E[1] != expected[-2, 0]:
            require_close(cs(E[1] * 1.1), expected[-1, 1], 1e-10, what="coefficient above the table")
    return len(lines) > 1


@obligation("C11", "supplied coefficients", cases=lambda: list(range(1, 93)))
def supplied_coefficients(Z):
    symbol = SYMBOLS[Z - 1]
    data = xrmac_cm2_per_g[symbol].data
    expected = np.array(GOLDEN_XRMAC[str(Z)])
    require(np.shape(data)[0] == len(expected), "number of lines for " + symbol)
    require_close(data, expected, 1e-13, what="table for " + symbol)


@obligation("C11", "supplied cross sections per atom", cases=lambda: list(range(1, 93)))
def supplied_per_atom(Z):
    symbol = SYMBOLS[Z - 1]
    isotopes = GOLDEN_ELEMENTS[str(Z)]["isotopes"].values()
    amu = sum(mass * abundance for mass, abundance in isotopes)
    table = np.array(GOLDEN_XRMAC[str(Z)])
    key = "per-atom-" + symbol
    data = xrmac_fm2_per_atom[symbol].data
    require(np.shape(data)[0] == len(table), "number of lines for " + symbol)
    require_close(data[:, 0], table[:, 0], 1e-13, what="energies for " + symbol)
    factor = 1e26 * amu * U_G
    if amu > 0:
        require_close(data[:, 1:], table[:, 1:] * factor, RTOL_CONST, what="per atom of " + symbol)
        middle = 0.5 * (table[0, 0] + table[1, 0])
        require_close(
            xrmac_fm2_per_atom[symbol](middle),
            factor * xrmac_cm2_per_g[symbol](middle),
            RTOL_CONST + 1e-9,
            what="interpolated cross section of " + symbol,
        )
    # The mass is zero for elements without natural abundances.
    require((data[:, 1:] > 0).all(), "cross sections per atom of {} are zero".format(symbol), key)


@obligation("C11", "set of supplied elements", cases=lambda: ["keys"])
def supplied_keys(_):
    require(set(xrmac_cm2_per_g) == set(SYMBOLS[:92]), "elements with coefficients")
    require(set(xrmac_fm2_per_atom) == set(SYMBOLS[:92]), "elements with cross sections per atom")


# C12 ----------------------------------------------------------------------------------------------

uncertainty = st.sampled_from(["", "", "({})", "({}#)"])


@st.composite
def value_text(draw, hi):
    number = draw(lin(0.0, hi)) if draw(st.integers(0, 5)) else float(int(draw(lin(0.0, hi))))
    places = draw(st.integers(0, 12))
    text = "{:.{}f}".format(number, places)
    if "." not in text and draw(st.booleans()):
        text += "."
    return text + draw(uncertainty).format(draw(st.integers(1, 999)))


@st.composite
def nist_files(draw):
    Z = 0
    elements = []
    count = draw(st.integers(6, 20)) if draw(st.integers(0, 9)) == 9 else draw(st.integers(1, 5))
    for _ in range(count):
        Z += draw(st.integers(1, 23 if count < 6 else 5))
        A = draw(st.integers(Z, 2 * Z))
        isotopes = []
        for _ in range(draw(st.one_of(*[st.integers(1, 4)] * 4, st.integers(5, 12)))):
            isotopes.append(
                [
                    A,
                    draw(value_text(300.0)),
                    draw(st.one_of(st.just(""), value_text(1.0), value_text(1.0))),
                ]
            )
            A += draw(st.integers(1, 9))
        elements.append([Z, SYMBOLS[Z - 1], isotopes])
    # Elements that are yet to be discovered
    shift = draw(st.sampled_from([0, 0, 0, 30, 118, 1000]))
    elements = [[Z + shift, symbol, [[A + 2 * shift, *rest] for A, *rest in isotopes]] for Z, symbol, isotopes in elements]
    return dict(
        elements=elements,
        # Further isotopes of one of the elements are generated from a number.
        extra=draw(st.one_of(st.just(0), st.just(0), st.just(0), st.integers(1, 45))),
        seed=draw(SEEDS),
        crlf=draw(st.booleans()),
        header=draw(st.booleans()),
        query=draw(st.integers(0, 2 * len(elements) - 1)),
        weight=draw(st.sampled_from(["[1.00784,1.00811]", "4.002602(2)", " ", ""])),
        notes=draw(st.sampled_from(["m", "g,r", " ", ""])),
        newline=draw(st.booleans()),
    )


def number(text):
    return float(text.split("(")[0])


@obligation("C12", "generated files", nist_files(), quick=1000)
def generated_nist(case):
    paragraphs = []
    elements = [[Z, symbol, list(isotopes)] for Z, symbol, isotopes in case["elements"]]
    largest = elements[case["seed"] % len(elements)][2]
    for mass in many(case["extra"], case["seed"], 1.0, 300.0):
        largest.append(
            [largest[-1][0] + 1, "{:.6f}({:d})".format(mass, case["extra"]), "{:.4f}".format(mass / 300.0)]
        )
    for Z, symbol, isotopes in elements:
        for A, amu, abundance in isotopes:
            paragraphs.append(
                "Atomic Number = {}\nAtomic Symbol = {}\nMass Number = {}\n"
                "Relative Atomic Mass = {}\nIsotopic Composition = {}\n"
                "Standard Atomic Weight = {}\nNotes = {}".format(
                    Z, symbol, A, amu, abundance, case["weight"], case["notes"]
                )
            )
    text = "# Element properties\n#\n\n" if case["header"] else ""
    text += "\n\n".join(paragraphs) + ("\n" if case["newline"] else "")
    queries = {Z: isotopes for Z, _, isotopes in elements}
    symbols = {Z: symbol for Z, symbol, _ in elements}
    # Also proton numbers that are not in the file
    Zs = sorted(set(queries) | {Z + 1 for Z in queries} | {max(1, min(queries) - 1)})
    other = (
        "Atomic Number = 5\nAtomic Symbol = B\nMass Number = 10\nRelative Atomic Mass = 10.5\n"
        "Isotopic Composition = 0.5\nStandard Atomic Weight = 10\nNotes = m\n"
    )

    def read(name):
        reader = NISTElementDataReader(name)
        require(reader.read_nist_element_symbols() == {5: "B"}, "symbols of the other file")
        require(reader.read_nist_element_data(5)[0] == {"10B": 0.5}, "data of the other file")

    with scratch_file(text, other, read, case["crlf"]) as name:
        reader = NISTElementDataReader(name)
        found = reader.read_nist_element_symbols()
        require(found == symbols, "symbols {} instead of {}".format(found, symbols))
        for Z in Zs:
            abundances, isotopes = reader.read_nist_element_data(Z)
            expected = queries.get(Z, [])
            keys = ["{}{}".format(A, symbols[Z]) for A, _, _ in expected]
            require(list(abundances) == keys, "abundances for {} instead of {}".format(list(abundances), keys))
            require(list(isotopes) == keys, "isotopes {} instead of {}".format(list(isotopes), keys))
            for key, (A, amu, abundance) in zip(keys, expected):
                require(isotopes[key].AX == key, "name of isotope " + key)
                require_close(isotopes[key].amu, number(amu), 1e-14, what="mass of " + key)
                require_close(
                    abundances[key],
                    number(abundance) if abundance else 0.0,
                    1e-14,
                    what="abundance of " + key,
                )
                require(isotopes[key].ground_state is None, "ground state of " + key)
                require(isotopes[key].excited_states == [], "excited states of " + key)
            if expected:
                element = Element(Z, symbols[Z], isotopes, abundances)
                require_close(
                    element.amu,
                    sum(number(m) * (number(a) if a else 0.0) for _, m, a in expected),
                    1e-12,
                    what="mass of the element",
                )
    return True


@obligation(
    "C12",
    "mass of an element",
    st.fixed_dictionaries(
        dict(
            isotopes=st.lists(
                st.tuples(lin(1.0, 300.0), st.one_of(lin(0.0, 1.0), st.just(0.0), log(1e-12, 1.0))).map(list),
                min_size=1,
                max_size=45,
            ),
            reverse=st.booleans(),
            extra=st.booleans(),
            density=st.one_of(st.none(), log(1e-5, 30.0)),
        )
    ),
    quick=600,
)
def element_mass(case):
    names = ["{}X".format(i + 1) for i in range(len(case["isotopes"]))]
    isotopes = {n: Isotope(n, amu) for n, (amu, _) in zip(names, case["isotopes"])}
    abundances = {n: a for n, (_, a) in zip(names, case["isotopes"])}
    if case["reverse"]:
        # The order of the dictionaries must not matter.
        abundances = dict(reversed(list(abundances.items())))
    if case["extra"]:
        # Documented: at least as long as the list of isotopes
        abundances["99Y"] = 0.5
    before = dict(abundances)
    expected = sum(m * a for m, a in case["isotopes"])
    element = Element(7, "X", isotopes, abundances, case["density"])
    require_close(element.amu, expected, 1e-13, what="mass of the element")
    require_close(
        Element.amu_from_isotopic_composition(abundances, isotopes), expected, 1e-12
    )
    require((element.Z, element.X, element.density) == (7, "X", case["density"]), "attributes")
    require(set(element.isotopes) == set(names), "isotopes of the element")
    require(element.abundances == before and abundances == before, "abundances of the element")
    return len(names) > 1


@obligation("C12", "supplied elements", cases=lambda: list(range(1, 119)))
def supplied_elements(Z):
    golden = GOLDEN_ELEMENTS[str(Z)]
    symbol = golden["X"]
    require(X[Z] == symbol, "symbol of element {}".format(Z))
    element = natural_elements[symbol]
    require((element.Z, element.X) == (Z, symbol), "identity of " + symbol)
    require(set(element.isotopes) == set(golden["isotopes"]), "isotopes of " + symbol)
    require(set(element.abundances) == set(golden["isotopes"]), "abundances of " + symbol)
    for AX, (amu, abundance) in golden["isotopes"].items():
        require(element.isotopes[AX].AX == AX, "name of " + AX)
        require_close(element.isotopes[AX].amu, amu, 1e-14, what="mass of " + AX)
        require_close(element.abundances[AX], abundance, 1e-14, what="abundance of " + AX)
    amu = sum(m * a for m, a in golden["isotopes"].values())
    require_close(element.amu, amu, 1e-12, what="mass of " + symbol)
    total = sum(element.abundances.values())
    require(total == 0.0 or abs(total - 1.0) < 1e-3, "sum of abundances of " + symbol)


@obligation("C12", "set of supplied elements", cases=lambda: ["keys"])
def element_keys(_):
    require(set(natural_elements) == set(SYMBOLS), "set of elements")
    require(X == {Z: SYMBOLS[Z - 1] for Z in range(1, 119)}, "set of symbols")


# C13 ----------------------------------------------------------------------------------------------


FILL = [a + b for b in "abcdefghijklmnopqrstuvwxyz" for a in "ABCDEFGHIJKLMNOPQRSTUVWXYZ"]


@st.composite
def density_files(draw):
    # One letter, and symbols which contain it
    letter = draw(st.sampled_from("BCFHIKNOPSUVWY"))
    similar = [s for s in SYMBOLS if letter in s or letter.lower() in s]
    # Symbols are sensitive to case
    cases = [t for s in similar for t in (s, s.upper(), s.lower())]
    pool = draw(st.sampled_from([similar, SYMBOLS, list(dict.fromkeys(cases))]))
    symbols = draw(
        st.lists(
            st.sampled_from(pool), min_size=1, max_size=draw(st.sampled_from([8, 8, 60])), unique=True
        )
    )
    lines = []
    for symbol in symbols:
        value = draw(st.one_of(log(1e-5, 30.0), log(1e-5, 30.0), log(1e-12, 1e9)))
        text = draw(st.sampled_from(["{:.5e}", "{:.3f}", "{:.0f}.", "{:.0f}", "{:.2E}"])).format(value)
        lines.append([symbol, text, draw(st.integers(1, 6)), draw(st.sampled_from(["", " ", "      "]))])
    return dict(
        lines=lines,
        queries=draw(st.lists(st.sampled_from(pool), min_size=1, max_size=4)) + [symbols[-1], letter],
        header=draw(st.booleans()),
        newline=draw(st.booleans()),
        crlf=draw(st.booleans()),
        factor=draw(st.sampled_from([None, 1e3, 0.5, 0.0, -2.0])),
        style=draw(STYLES),
        # Other lines before and after
        fill=[draw(st.one_of(st.just(0), st.just(0), st.integers(1, 300))) for _ in range(2)],
    )


@obligation("C13", "generated files", density_files(), quick=1000)
def generated_densities(case):
    text = "# Densities\n# H He B (https://example.org/).\n#\n" if case["header"] else ""
    used = {line[0] for line in case["lines"]} | set(case["queries"])
    unused = [s for s in FILL if s not in used]
    before = unused[: case["fill"][0]]
    after = unused[case["fill"][0] : sum(case["fill"])]
    text += "\n".join(
        ["{}  {:d}.5".format(s, i) for i, s in enumerate(before)]
        + [
            symbol.ljust(2) + (" " * spaces) + value + trailing
            for symbol, value, spaces, trailing in case["lines"]
        ]
        + ["{}  {:d}.25".format(s, i) for i, s in enumerate(after)]
    )
    if case["newline"]:
        text += "\n"
    values = {symbol: float(value) for symbol, value, _, _ in case["lines"]}
    offset = 0.0 if case["factor"] == 0.0 else 1.0
    other = "".join("{}  123.0\n".format(s.ljust(2)) for s in dict.fromkeys(SYMBOLS + case["queries"]))

    def read(name):
        for s in case["queries"]:
            require_close(Geant4DensityDataReader(name).read_density_data(s), 123.0, 1e-14)

    with scratch_file(text, other, read, case["crlf"]) as name:
        if case["factor"] is None:
            reader = Geant4DensityDataReader(name)
        else:
            convert = as_callable(lambda rho: case["factor"] * rho + offset, case["style"])
            reader = Geant4DensityDataReader(name, convert)
        for symbol in case["queries"] + list(values):
            density = reader.read_density_data(symbol)
            if symbol not in values:
                require(density is None, "density {!r} for {}".format(density, symbol))
            else:
                expected = values[symbol]
                if case["factor"] is not None:
                    expected = case["factor"] * expected + offset
                require(density is not None, "no density for " + symbol)
                require_close(density, expected, 1e-14, what="density of " + symbol)
    return len(values) > 1


@obligation("C13", "supplied densities", cases=lambda: list(SYMBOLS))
def supplied_densities(symbol):
    density = natural_elements[symbol].density
    if symbol not in GOLDEN_DENSITIES:
        require(density is None, "density {!r} for {}".format(density, symbol))
        return False
    require(density is not None, "no density for " + symbol)
    require_close(density, GOLDEN_DENSITIES[symbol], 1e-14, what="density of " + symbol)
