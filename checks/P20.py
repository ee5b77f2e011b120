"""magnopy-minimize-energy: the results file reports what the minimisation found."""
import os
import sys

from symex.runner import H
from checks import common as c

ASSUMPTIONS = [
    "the minimisation itself (Energy.optimize) is replaced by one that returns arbitrary states: whatever state is found, "
    "the report has to describe it",
    "a printed number is any value within half a unit of its last printed digit",
]


def _model(h, path, others):
    from magnopy import SpinHamiltonian, dump_spinham_txt

    np = h.np
    m = SpinHamiltonian(cell=np.diag([2.0, 4.0, 5.0]))
    if others:
        # without any interaction
        m.add_atom("Br1", position=(0.5, 0.125, 0.5))
    m.add_atom("Fe1", position=(0.25, 0, 0.5), spin=(0, 0, 2))
    if others:
        m.add_atom("Br2", position=(0.75, 0.125, 0.5))
    m.add_atom("Cr2", position=(0, 0.5, 0), spin=(0, 0, 1))
    m.notation = (False, True, 1, 1)
    m.add_exchange("Fe1", "Cr2", (1, 0, 0), iso=h.real("J"), dmi=h.reals("D", 3))
    m.add_exchange("Fe1", "Fe1", (0, 1, 1), iso=h.real("K"))
    dump_spinham_txt(m, path)


class _States:
    """Arbitrary results of the minimisation."""

    def __init__(self, h, n=3):
        self.h = h
        self.units = [h.unit(f"u{i}") for i in range(n)]
        self.calls = []

    def __call__(self, energy, case, initial_guess=None, *a, history_filename=None, antiferro_q=None, save_history=False, **k):
        np, n = self.h.np, len(self.calls)
        u = self.units
        spins = np.array([list(u[n % 3]), list(u[(n // 3 + 1) % 3])], dtype=float)
        axis = np.array(list(u[(n // 9) % 3]), dtype=float)
        q = antiferro_q
        if case == "spiral":
            q = np.array([0.25, 0, 0]) @ np.array(energy_cell(energy))
        self.calls.append(dict(case=case, spins=spins, axis=axis, q=q, history=history_filename if save_history else None, field=energy.magnetic_field))
        return spins, axis, q


def energy_cell(energy):
    from math import pi

    return [[pi, 0, 0], [0, pi / 2, 0], [0, 0, 2 * pi / 5]]


def _run(h, types, field=None, others=True, command=False):
    """Runs the script in a scratch directory; returns calls, results and a fresh energy."""
    from magnopy import Energy, load_spinham
    from magnopy.score import minimize_energy

    here, old = os.getcwd(), Energy.optimize
    states = _States(h)
    os.chdir(h.scratch())
    try:
        _model(h, "model.txt", others)
        Energy.optimize = lambda self, *a, **k: states(self, *a, **k)
        if command:
            argv = ["-sh", "model.txt", "-os", "run", "-shf", "txt"]
            if types != "all":
                argv += ["-gst", *types]
            if field is not None:
                argv += ["--magnetic_field", *[h.num(x) for x in field]]
            c.command(minimize_energy, *argv)
        else:
            minimize_energy.manager("model.txt", ground_state_type=types, magnetic_field=field, output_seedname="run")
        Energy.optimize = old
        with open("run-results", encoding="utf-8") as f:
            text = f.read()
        m = load_spinham("model.txt")
    finally:
        Energy.optimize = old
        os.chdir(here)
    e = Energy(m)
    if field is not None:
        e.magnetic_field = field
    return states.calls, text.splitlines(), m, e


def _rows(h, lines, names):
    """Rows of atoms in the results file: list of (name, numbers)."""
    out = []
    for line in lines:
        w = line.split()
        if len(w) == 7 and w[0] in names:
            out.append((w[0], [h.parse(x) for x in w[1:]]))
    return out


def _vectors(h, lines, key):
    return [[h.parse(x) for x in line.split(":")[1].split()] for line in lines if line.startswith(key)]


def _check(h, types, calls, lines, m, e):
    np = h.np
    tol = h.frac(1, 10**8)
    atoms = [m.get_atom(x) for x in ("Fe1", "Cr2")]
    names = [a.name for a in m.atoms]
    rows = _rows(h, lines, names)
    h.same(len(rows), 2 * len(calls), "spins of every state are reported")
    for n, call in enumerate(calls):
        for i in range(2):
            name, v = rows[2 * n + i]
            h.same(name, atoms[i].name, "names of the atoms")
            h.eq(np.array(v[:3]), np.array(atoms[i].position), "position of the atom", tol=tol)
            h.eq(np.array(v[3:]), call["spins"][i], "direction of the spin", tol=tol)
    turned = [x for x in calls if x["case"] != "ferro"]
    axes, qs = _vectors(h, lines, "Cone axis"), _vectors(h, lines, "Spiral vector")
    h.same((len(axes), len(qs)), (len(turned), len(turned)), "cone axes and spiral vectors of all states are reported")
    for call, a, q in zip(turned, axes, qs):
        h.eq(np.array(a), call["axis"], "cone axis", tol=tol)
        h.eq(np.array(q), np.array(call["q"]), "spiral vector", tol=tol)
    start = [i for i, x in enumerate(lines) if "Summary" in x]
    h.same(len(start), 1, "summary")
    got = {}
    for line in lines[start[0] + 1 :]:
        head, _, tail = line.partition(":")
        if "Antiferro" in head:
            got["antiferro"] = []
        elif "Ferro" in head:
            got["ferro"] = h.parse(tail.split()[0])
        elif "Spiral" in head:
            got["spiral"] = h.parse(tail.split()[0])
        elif line.strip():
            got["antiferro"].append(h.parse(line.split()[1]))
    h.same(sorted(got), sorted(types), "energies of all requested types are in the summary")
    for call in calls:
        if call["case"] == "ferro":
            h.eq(got["ferro"], e.ferro(call["spins"]), "energy of the ferromagnetic state", tol=tol)
        elif call["case"] == "spiral":
            h.eq(got["spiral"], e.spiral(call["spins"], call["axis"], call["q"]), "energy of the spiral state", tol=tol)
    afm = [x for x in calls if x["case"] == "antiferro"]
    if "antiferro" in types:
        h.same(len(got["antiferro"]), len(afm), "energies of all antiferromagnetic states")
        for call, v in zip(afm, got["antiferro"]):
            h.eq(v, e.antiferro(call["spins"], call["axis"], call["q"]), "energy of the antiferromagnetic state", tol=tol)
    files = [x["history"] for x in calls]
    h.same(len(set(files)), len(files), "every minimisation has its own history")
    columns = [i for i, x in enumerate(lines) if x.split() == ["name", "r1", "r2", "r3", "sx", "sy", "sz"]]
    for i in columns:
        h.true(lines[i + 1].split()[0] == "Fe1", "columns are explained above the first atom")
    h.same(len(columns), len(calls), "columns of every state are explained")
    numbers = [x.split()[0] for x in lines[start[0] + 1 :] if x.startswith("  ")]
    h.same([x["history"].split("-")[-1] for x in afm], numbers, "history of the energy in the summary")
    for x in afm:
        said = [y for y in lines if y.startswith("History") and y.split()[-1] == x["history"]]
        h.same(len(said), 1, "spiral vector of the history is given")
        rel = [h.parse(y) for y in said[0].split("(")[1].split(")")[0].split(",")]
        h.eq(np.array(rel) * h.pi, np.array([2, 4, 5]) * np.array(x["q"]), "spiral vector of the history", tol=h.frac(1, 10**6))
    text = "\n".join(lines)
    for x in files:
        h.true(x is not None and x in text, "history is named in the results")


def ferro(h):
    """Ferromagnetic and spiral states with and without a field."""
    types = h.choice("types", [["ferro"], ["spiral"], ["ferro", "spiral"], ["spiral", "ferro"]])
    field = [h.real("H"), 0, 1] if h.boolean("field") else None
    command = h.boolean("command")
    if command and field is not None:
        # small numbers like 1e-5 are not negative numbers for argparse
        h.assume(h.lor(field[0] > 0.01, field[0] < -0.01))
    calls, lines, m, e = _run(h, types, field, h.boolean("others"), command)
    h.same([x["case"] for x in calls], types, "requested minimisations are run")
    if field is not None:
        for x in calls:
            h.eq(h.np.array(x["field"]), h.np.array(field, dtype=float), "field of the minimisation")
    _check(h, types, calls, lines, m, e)


def antiferro(h):
    """Antiferromagnetic states: all halves of the reciprocal vectors."""
    types = h.choice("types", [["antiferro"], "all", ["antiferro", "ferro"]])
    calls, lines, m, e = _run(h, types, command=types == "all")
    if types == "all":
        types = ["ferro", "antiferro", "spiral"]
    h.same([t for t in types if t != "antiferro"], [x["case"] for x in calls if x["case"] != "antiferro"], "requested minimisations are run")
    qs = [x["q"] for x in calls if x["case"] == "antiferro"]
    h.same(len(qs), 26, "number of antiferromagnetic states")
    want = [(i, j, k) for i in (-1, 0, 1) for j in (-1, 0, 1) for k in (-1, 0, 1) if (i, j, k) != (0, 0, 0)]
    A = h.np.array([[2, 0, 0], [0, 4, 0], [0, 0, 5]])
    tol = h.frac(1, 10**6)

    def near(q, n):
        return h.land(*[h.land(x - y * h.pi < tol, y * h.pi - x < tol) for x, y in zip(A @ h.np.array(q), n)])

    in_order = h.land(*[near(q, n) for q, n in zip(qs, want)])
    each = h.land(*[h.lor(*[near(q, n) for q in qs]) for n in want])
    h.true(h.lor(in_order, each), "every half of a reciprocal lattice vector is tried")
    _check(h, types, calls, lines, m, e)


HARNESSES = [
    H("ferro", ferro, bounds="2 atoms with interactions, 0 or 2 without, 2 bonds, 4 sets of types; any parameters, states and fields"),
    H("antiferro", antiferro, bounds="2 atoms with interactions, 2 without, 2 bonds, 3 sets of types; any parameters and states"),
]
