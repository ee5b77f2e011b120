"""Results of TB2J: loading, choice of the reader, conversion."""
import os

from symex.runner import H
from checks import common as c
from checks.P11 import triangular

ASSUMPTIONS = [
    "numbers in the file are read exactly (the text of a number is a symbol that stands for any value)",
    "layout of exchange.out as written by TB2J; a bond is preceded by a line of 88 dashes",
    "TB2J: E = - sum over all listed ordered pairs of e_i (J_iso + J_ani) e_j + D (e_i x e_j), unit vectors e",
]
MAJOR = "=" * 90
MINOR = "-" * 88


def _row(h, v, sep=" "):
    return sep.join(h.num(x) for x in v)


def _bond(h, a1, a2, R, distance, iso=None, dmi=None, ani=None, order=("iso", "dmi", "ani")):
    lines = [MINOR, f"   {a1}   {a2}   ({R[0]:>3}, {R[1]:>3}, {R[2]:>3}) 3.1000    ( 0.500,  0.000,  1.000)  {distance}"]
    for part in order:
        if part == "iso" and iso is not None:
            lines.append(f"J_iso:  {h.num(iso)} ")
        if part == "dmi" and dmi is not None:
            lines.append("[Testing!] Jprime:  1.000,  B: 0.500")
            lines.append(f"[Testing!] DMI: ( {_row(h, dmi, '  ')})")
        if part == "ani" and ani is not None:
            lines.append("[Testing!]J_ani:")
            lines.append(f"[[ {_row(h, ani[0])} ]")
            lines.append(f" [ {_row(h, ani[1])} ]")
            lines.append(f" [ {_row(h, ani[2])} ]]")
    return lines


def _head(h, cell, atoms):
    lines = [MAJOR, "Information: ", "Exchange parameters generated by TB2J 0.2.8.", MAJOR, "Cell (Angstrom):"]
    lines += ["   " + _row(h, cell[i]) for i in range(3)]
    lines += [MAJOR, "Atoms:  ", "(Note: charge and magmoms only count the wannier functions.)"]
    lines += [" Atom_number    x         y         z     w_charge   M(x)   M(y)   M(z)"]
    for name, numbers in atoms:
        lines.append(f"{name}   {_row(h, numbers, '   ')}")
    lines += ["Total                     12.9500   0.0000   0.0000   6.0000", MAJOR, "Exchange: "]
    lines += ["    i      j          R        J_iso(meV)          vector          distance(A)"]
    return lines


def _write(h, lines, name="exchange.out"):
    path = os.path.join(h.scratch(), name)
    with open(path, "w", encoding="utf-8") as f:
        f.write("\n".join(lines) + "\n")
    return path


def _symmetric(h, name):
    s = h.reals(name, 6)
    return h.np.array([[s[0], s[1], s[2]], [s[1], s[3], s[4]], [s[2], s[4], s[5]]], dtype=float)


def _dm(h, D):
    return h.np.array([[0, D[2], -D[1]], [-D[2], 0, D[0]], [D[1], -D[0], 0]], dtype=float)


def geometry(h):
    """Cell, positions, charges and spins of the atoms."""
    from magnopy import load_spinham

    A = triangular(h)
    x, y = h.reals("x", 3), h.reals("y", 3)
    M, Q = h.real("M", nonzero=True), h.reals("q", 2)
    d = h.choice("direction", [(0, 0, 1), (0, 1, 0), (3, 0, 4)])
    moment = [M * k for k in d]
    short = h.choice("columns", ["all", "no moment", "no charge"])
    second = [*y, Q[1], 0, 0, h.real("N", nonzero=True)]
    second = second[: {"all": 7, "no moment": 4, "no charge": 3}[short]]
    lines = _head(h, A, [("Cr1", [*x, Q[0], *moment]), ("Br7", second), ("Cr2", [0, 0, 0, 1, 0, 0, 3])])
    lines += _bond(h, "Cr1", "Cr2", (1, 0, 0), "3.240", iso=h.real("J"))
    m = load_spinham(_write(h, lines))
    np = h.np
    h.eq(np.array(m.cell), A, "lattice vectors")
    h.same([a.name for a in m.atoms], ["Cr1", "Br7", "Cr2"], "atoms in their order")
    for a, p in zip(m.atoms, (x, y)):
        r = a.position
        got = [sum(r[i] * A[i][j] for i in range(3)) for j in range(3)]
        h.eq(np.array(got), np.array(list(p), dtype=float), "absolute position of the atom")
    h.eq(m.atoms[0].charge, Q[0], "charge")
    if short != "no charge":
        h.eq(m.atoms[1].charge, Q[1], "charge")
    S = m.atoms[0].spin_vector
    h.eq(
        np.array([S[1] * moment[2] - S[2] * moment[1], S[2] * moment[0] - S[0] * moment[2], S[0] * moment[1] - S[1] * moment[0]]),
        np.zeros(3),
        "spin is collinear with the moment",
    )
    h.eq(4 * sum(s * s for s in S), sum(s * s for s in moment), "length of the spin is half of the moment")
    # one and the same sign for all atoms
    h.true(S[0] * d[0] * M + S[1] * d[1] * M + S[2] * d[2] * M < 0 if m.atoms[2].spin_vector[2] < 0 else S[0] * d[0] * M + S[1] * d[1] * M + S[2] * d[2] * M > 0, "spins of the atoms have one orientation with respect to the moments")
    if short == "all":
        h.eq(4 * sum(s * s for s in m.atoms[1].spin_vector), second[6] * second[6], "length of the spin is half of the moment")
    else:
        S = []
        if h.raises(lambda: S.extend(m.atoms[1].spin_vector), ValueError) is None:
            h.eq(np.array(S, dtype=float), np.zeros(3), "moment that is not in the file is not made up")


CELL = [[3, 0, 0], [0, 4, 0], [0, 0, 5]]
ATOMS = [("Cr1", [0.5, 1, 2, 3.95, 0, 0, 3]), ("Cr2", [0, 0.5, 0, 3.95, 0, 0, 3])]


def exchange(h):
    """Energy of every bond; both directions listed or one; all parts and orders of them."""
    from magnopy import load_spinham

    J = h.real("J")
    which = h.choice("parts", ["iso", "dmi", "ani", "all", "dmi+ani", "iso+dmi"])
    D = h.reals("D", 3) if which in ("dmi", "all", "dmi+ani", "iso+dmi") else None
    S = _symmetric(h, "S") if which in ("ani", "all", "dmi+ani") else None
    if which in ("dmi", "ani", "dmi+ani"):
        J = None
    order = h.choice("order", [("iso", "dmi", "ani"), ("ani", "iso", "dmi"), ("dmi", "ani", "iso")])
    want = h.np.zeros((3, 3))
    if J is not None:
        want = want + h.np.eye(3) * J
    if D is not None:
        want = want + _dm(h, D)
    if S is not None:
        want = want + S
    lines = _head(h, CELL, ATOMS)
    R = (1, -2, 0)
    both = h.choice("listed", ["both", "one", "reversed"])
    if both != "reversed":
        lines += _bond(h, "Cr1", "Cr2", R, "3.240", J, D, S, order)
    if both != "one":
        lines += _bond(h, "Cr2", "Cr1", c.neg(R), "3.240", J, None if D is None else [-x for x in D], S, order)
    K = h.real("K")
    lines += _bond(h, "Cr2", "Cr2", (0, 0, 1), "5.000", K)
    m = load_spinham(_write(h, lines))
    h.same(tuple(m.notation[:2]), (True, True), "notation of TB2J")
    h.eq(h.np.array(list(m.notation[2:]), dtype=float), h.np.array([-1.0, -1.0]), "notation of TB2J")
    a, b = m.atoms
    h.eq(c.effective_exchange(h, m, a, b, R), want * -2, "energy of the bond")
    got = c.listed(m, a, b, R)
    h.same(len(got), 1, "bond is listed once")
    h.eq(got[0], want, "matrix as in the file")
    h.eq(c.effective_exchange(h, m, b, b, (0, 0, 1)), h.np.eye(3) * K * -2, "energy of the bond")
    h.same(c.count_bonds(m), 4, "number of bonds")
    # parts as TB2J lists them
    p = [q for x, y, Q, q in m.exchange if c.same_bond((x, y, Q), a, b, R)][0]
    if D is not None:
        h.eq(h.np.array(p.dmi), h.np.array(list(D), dtype=float), "DM vector as in the file")


def distances(h):
    """The distance of the file is only compared, never used; a warning only if it is loud and differs."""
    import contextlib
    import io

    from magnopy import load_spinham

    J, d = h.real("J"), h.real("d", positive=True)
    quiet = h.boolean("quiet")
    lines = _head(h, CELL, ATOMS) + _bond(h, "Cr1", "Cr1", (1, 0, 0), h.num(d), J)
    name = _write(h, lines)
    # Away from the tolerance
    h.assume(h.lor(abs(d - 3) > 0.0011, abs(d - 3) < 0.0009))
    said = io.StringIO()
    with contextlib.redirect_stdout(said):
        m = load_spinham(name, quiet=quiet)
    said = said.getvalue()
    if quiet or abs(d - 3) < 0.001:
        h.same(said.strip(), "", "no warning")
    else:
        words = {w[0]: w[-1] for w in (x.split() for x in said.splitlines()) if len(w) == 2}
        h.eq(h.parse(words["Computed:"]), 3, "computed distance in the warning", tol=h.frac(1, 10**4))
        h.eq(h.parse(words["Read:"]), d, "distance of the file in the warning", tol=h.frac(1, 10**4))
    a = m.atoms[0]
    h.eq(m.get_distance(a, a, (1, 0, 0)), 3, "distance")
    h.eq(c.effective_exchange(h, m, a, a, (1, 0, 0)), h.np.eye(3) * J * -2, "energy of the bond")
    h.same(c.count_bonds(m), 2, "number of bonds")


def bravais(h):
    """The accuracy is reduced until the lattice has the requested type."""
    from magnopy import SpinHamiltonian
    from magnopy.io.txt.tb2j import load_tb2j

    J = h.real("J")
    # The lattice is cubic with the accuracy worse than this one
    level = h.choice("level", [1e-9, 3e-4, 3e-2, 0.3, 2])
    wanted = h.choice("type", ["CUB", "TRI", None])
    lines = _head(h, CELL, ATOMS)
    at = lines.index("Cell (Angstrom):")
    lines[at + 1 : at + 4] = [" 3.000 0.000 0.000", " 0.0000 4.000 0.00000", " 0.000 0.000 5.000"]
    lines += _bond(h, "Cr1", "Cr1", (1, 0, 0), "3.0", J)
    name = _write(h, lines)
    old = SpinHamiltonian.__dict__.get("type")
    asked = []

    def kind(m, *a, **k):
        asked.append(1)
        h.true(len(asked) < 100, "the search for the type of the lattice ends")
        return "CUB" if m.eps_rel >= level else "TRI"

    SpinHamiltonian.type = kind
    try:
        possible = wanted is None or (wanted == "CUB" and level < 1) or (wanted == "TRI" and level > 1e-3)
        if wanted == "TRI" and level == 3e-4:
            return  # depends on the accuracy of the start
        try:
            m = load_tb2j(name, bravais_type=wanted)
        except ValueError:
            h.true(not possible, "the requested type can be reached")
            return
        h.true(possible, "error when the requested type can not be reached")
        if wanted is not None:
            h.same(m.type(), wanted, "type of the lattice")
        h.true(m.eps_rel <= max(1e-3, 10.01 * level) if wanted == "CUB" else m.eps_rel <= 1e-3, "accuracy is not reduced further")
    finally:
        if old is None:
            del SpinHamiltonian.type
        else:
            SpinHamiltonian.type = old
    a = m.atoms[0]
    h.eq(c.effective_exchange(h, m, a, a, (1, 0, 0)), h.np.eye(3) * J * -2, "energy of the bond")


def _same(h, m, n, tol):
    np = h.np
    h.same((n.double_counting, n.spin_normalized), (m.double_counting, m.spin_normalized), "notation")
    h.eq(n.exchange_factor, m.exchange_factor, "notation", tol=tol)
    h.eq(np.array(n.cell), np.array(m.cell), "cell", tol=tol)
    h.same([a.name for a in n.atoms], [a.name for a in m.atoms], "atoms")
    for a, b in zip(m.atoms, n.atoms):
        h.eq(np.array(b.position), np.array(a.position), "positions", tol=tol)
        h.eq(np.array(b.spin_vector), np.array(a.spin_vector), "spins", tol=tol)
    h.same(c.count_bonds(n), c.count_bonds(m), "number of bonds")
    for x, y, R, p in m.exchange:
        got = [q for b1, b2, Q, q in n.exchange if b1.name == x.name and b2.name == y.name and tuple(Q) == tuple(R)]
        h.same(len(got), 1, "bond is kept")
        h.eq(np.array(got[0].matrix), np.array(p.matrix), "matrix of the bond", tol=tol)


def reader(h):
    """Which reader is used: ending of the name or the format that is asked for (any case)."""
    from magnopy import dump_spinham_hdf5, dump_spinham_txt, load_spinham
    from magnopy.io import load_tb2j

    J, D = h.real("J"), h.reals("D", 3)
    lines = _head(h, CELL, ATOMS) + _bond(h, "Cr1", "Cr2", (1, 0, 0), "3.0", J, D)
    first = _write(h, lines)
    m = load_tb2j(first)
    there = os.path.dirname(first)
    kind = h.choice("kind", ["tb2j", "txt", "hdf5"])
    name, fmt = h.choice(
        "name and format",
        {
            "tb2j": [("exchange.out", None), ("1exchange.out", None), ("x.txt", "tb2j"), ("x.hdf5", "TB2J")],
            "txt": [("x.txt", None), ("x", None), ("exchange.out", "txt"), ("x.hdf5", "TXT")],
            "hdf5": [("x.hdf5", None), ("exchange.out", "hdf5"), ("x.txt", "HDF5")],
        }[kind],
    )
    path = os.path.join(there, "other_" + name) if name != "exchange.out" else first
    if kind == "tb2j":
        if path != first:
            _write(h, lines, "other_" + name)
    elif kind == "txt":
        dump_spinham_txt(m, path)
    else:
        if os.path.exists(path):
            os.remove(path)
        dump_spinham_hdf5(m, path)
    n = load_spinham(path) if fmt is None else load_spinham(path, spinham_format=fmt)
    _same(h, m, n, h.frac(1, 10**3) if kind == "txt" else 0)


def unknown(h):
    """An unknown format is an error."""
    from magnopy import load_spinham

    path = _write(h, _head(h, CELL, ATOMS) + _bond(h, "Cr1", "Cr2", (1, 0, 0), "3.0", h.real("J")))
    fmt = h.choice("format", ["", "json", "tb2j ", "tb"])
    h.true(h.raises(lambda: load_spinham(path, spinham_format=fmt), ValueError) is not None, "unknown format: ValueError")


def convert(h):
    """magnopy-convert-tb2j: the converted file is the same model."""
    from magnopy import load_spinham
    from magnopy.io import load_tb2j
    from magnopy.score import convert_tb2j

    J, D, S = h.real("J"), h.reals("D", 3), _symmetric(h, "S")
    x = h.reals("x", 3)
    atoms = [("Cr1", [*x, 3, 0, 0, 3]), ATOMS[1]]
    path = _write(h, _head(h, CELL, atoms) + _bond(h, "Cr1", "Cr2", (1, -1, 0), "3.0", J, D, S))
    there = os.path.dirname(path)
    m = load_tb2j(path)
    out, fmt, result = h.choice(
        "output",
        [
            ("a.txt", None, "a.txt"),
            ("a", None, "a"),
            ("a.hdf5", None, "a.hdf5"),
            ("a.txt", "hdf5", "a.hdf5"),
            ("a", "hdf5", "a.hdf5"),
            ("a.hdf5", "hdf5", "a.hdf5"),
            ("a.txt", "txt", "a.txt"),
            ("a.b.txt", "hdf5", "a.b.hdf5"),
            ("a.b", "hdf5", "a.b.hdf5"),
            ("a.b", None, "a.b"),
            ("a", "TXT", "a"),
            ("a.hdf5", "txt", "a.hdf5"),
        ],
    )
    out = os.path.join(there, out)
    if fmt != "TXT" and h.boolean("command"):
        c.command(convert_tb2j, "-if", path, "--output-filename", out, *(["-f", fmt] if fmt else []))
    else:
        convert_tb2j.manager(path, out, format=fmt)
    made = sorted(x for x in os.listdir(there) if x != "exchange.out")
    h.same(made, [result], "name of the converted file")
    txt = fmt in ("txt", "TXT") or not result.endswith(".hdf5")
    n = load_spinham(os.path.join(there, result), spinham_format="txt" if txt else "hdf5")
    _same(h, m, n, h.frac(1, 10**3) if txt else 0)


def many(h):
    """More than ten atoms and bonds."""
    from magnopy import load_spinham

    n = 12
    J, x = h.reals("J", n), h.reals("x", n)
    names = [f"Cr{i + 1}" for i in range(n)][::-1]
    lines = _head(h, CELL, [(a, [x[i], i, 0, 3, 0, 0, 1 + i]) for i, a in enumerate(names)])
    pairs = [(names[i], names[5 * i % n], (i - 6, 0, 10 + i)) for i in range(n)]
    pairs += [(names[0], names[1], (0, 0, 0)), (names[0], names[1], (0, 0, 1)), (names[1], names[0], (7, 0, 0))]
    for i, (a, b, R) in enumerate(pairs):
        lines += _bond(h, a, b, R, "3.000", J[i % n], (i, 0, 1))
    m = load_spinham(_write(h, lines), quiet=True)
    h.same([a.name for a in m.atoms], names, "atoms in the order of the file")
    h.same([a.name for a in m.magnetic_atoms], names, "magnetic atoms in the order of the file")
    for i, a in enumerate(m.atoms):
        place = m.get_atom_coordinates(a, relative=False)
        h.eq(place[0], x[i], "coordinates")
        h.eq(place[1], i, "coordinates")
        h.eq(a.spin, h.frac(1 + i, 2), "length of the spin")
    h.same(c.count_bonds(m), 2 * len(pairs), "number of bonds")
    for i, (a, b, R) in enumerate(pairs):
        got = c.listed(m, m.get_atom(a), m.get_atom(b), R)
        h.same(len(got), 1, "bond is listed once")
        h.eq(got[0], _dm(h, (i, 0, 1)) + h.np.eye(3) * J[i % n], "matrix as in the file")


HARNESSES = [
    H("geometry", geometry, bounds="3 atoms, 3 directions and forms of the rows; any triangular cell, positions, moments, charges"),
    H("exchange", exchange, bounds="2 atoms, 2 bonds, 6 sets of parts in 3 orders, one or both directions; any values"),
    H("distances", distances, bounds="1 bond; any distance"),
    H("bravais", bravais, bounds="5 lattices, 3 requests"),
    H("reader", reader, bounds="11 names and formats; any values"),
    H("unknown", unknown, bounds="4 formats"),
    H("convert", convert, bounds="12 names and formats; any values"),
    H("many", many, bounds="12 atoms, 15 bonds; any coordinates and exchange"),
]
