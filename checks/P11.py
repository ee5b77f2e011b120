"""Model files (.txt): what is loaded is what the format specification says."""
from symex.runner import H
from checks import common as c

ASSUMPTIONS = [
    "numbers in the file are read exactly (the text of a number is a symbol that stands for any value)",
    "values of the physical constants are compared with a relative tolerance of 1e-6",
]
SEP = "=" * 12
SUB = "-" * 12
# independent values of the units: Bohr in Angstrom; eV, K, Ry, J in meV
BOHR = 0.529177210903
ENERGY = {"m": 1.0, "e": 1000.0, "k": 1 / 11.60451812, "r": 13605.693122994, "j": 1 / 1.602176634e-22}


def _load(h, text):
    from magnopy import load_spinham

    name = h.scratch() + "/model.txt"
    with open(name, "w", encoding="utf-8") as f:
        f.write(text)
    return load_spinham(name)


def row(h, values):
    return " ".join(h.num(v) for v in values)


def cell_section(h, cell, header="Cell", scale=None):
    lines = [SEP, header]
    if scale is not None:
        lines.append(row(h, scale))
    return lines + [row(h, cell[i]) for i in range(3)]


def unit_cell(h, kind="cell"):
    return [[1, 0, 0], [0, 1, 0], [0, 0, 1]]


def triangular(h):
    a = h.reals("a", 3, positive=True)
    b = h.reals("b", 3)
    return h.np.array([[a[0], 0, 0], [b[0], a[1], 0], [b[1], b[2], a[2]]], dtype=float)


ATOMS = [SEP, "Atoms", "name r1 r2 r3 s", "Fe1 0 0 0 1", "Fe2 0.5 0 0 2"]


def notation_section(h, dc, normalized, ex, on):
    return [
        SEP,
        "Notation",
        f"double-counting {dc}",
        f"spin-normalized {normalized}",
        f"exchange-factor {h.num(ex)}",
        f"on-site-factor {h.num(on)}",
    ]


def _close(h, a, b, label, rel=1e-6):
    """Equality of arrays within a relative tolerance of each entry."""
    a, b = h.np.array(a), h.np.array(b)
    h.same(tuple(a.shape), tuple(b.shape), label + ": shape")
    for x, y in zip(a.reshape(-1), b.reshape(-1)):
        h.eq(x, y, label, tol=abs(y) * h.exact(rel))


def cell(h):
    """Lattice vectors: units and scale, with relative and absolute positions."""
    A = h.matrix("A") if h.choice("skew", [False, True]) else triangular(h)
    det = (
        A[0][0] * (A[1][1] * A[2][2] - A[1][2] * A[2][1])
        - A[0][1] * (A[1][0] * A[2][2] - A[1][2] * A[2][0])
        + A[0][2] * (A[1][0] * A[2][1] - A[1][1] * A[2][0])
    )
    h.assume(h.lor(det > 0, det < 0))
    unit, factor = h.choice(
        "unit", [("", 1), (" Angstrom", 1), (" a", 1), (" Bohr", BOHR), (" bohr", BOHR)]
    )
    kind = h.choice("scale", ["none", "one", "three"])
    if kind == "none":
        scale, s = None, [1, 1, 1]
    elif kind == "one":
        scale = [h.real("s", positive=True)]
        s = [scale[0]] * 3
    else:
        scale = s = h.reals("s", 3, positive=True)
    text = cell_section(h, A, h.choice("case", ["Cell", "CELL"]) + unit, scale) + ATOMS
    m = _load(h, "\n".join(text))
    want = h.np.array([[A[i][j] * s[j] for j in range(3)] for i in range(3)], dtype=float) * factor
    _close(h, m.cell, want, "lattice vectors")
    h.same([a.name for a in m.atoms], ["Fe1", "Fe2"], "atoms")
    h.eq(m.atoms[1].position, h.np.array([0.5, 0, 0]), "relative position")


def volume(h):
    """One negative scale: the volume of the cell."""
    a = h.reals("a", 3, nonzero=True)
    b = h.reals("b", 3)
    A = h.np.array([[a[0], 0, 0], [b[0], a[1], 0], [b[1], b[2], a[2]]], dtype=float)
    V = h.real("V", positive=True)
    h.neg_tokens(False)
    lines = cell_section(h, A, "Cell", [0])
    lines[2] = "-" + h.num(V)
    m = _load(h, "\n".join(lines + ATOMS))
    C = h.np.array(m.cell)
    h.eq(C[0][1], 0, "directions of the lattice vectors")
    h.eq(C[0][2], 0, "directions of the lattice vectors")
    h.eq(C[1][2], 0, "directions of the lattice vectors")
    got = C[0][0] * C[1][1] * C[2][2]
    h.eq(got * got, V * V, "volume of the cell")
    t = C[0][0] / a[0]
    h.true(t > 0, "orientation of the lattice vectors")
    h.eq(C, A * t, "all lattice vectors are scaled alike")


def positions(h):
    """Absolute coordinates of the atoms."""
    A = triangular(h)
    unit, factor = h.choice(
        "unit", [("", 1), (" Angstrom", 1), (" Bohr", BOHR), (" b", BOHR)]
    )
    cell_unit, cell_factor = h.choice("cell unit", [("", 1), (" Bohr", BOHR)])
    s = h.real("s", positive=True) if h.choice("scaled", [False, True]) else None
    both = h.choice("both", [False, True])
    x, r = h.reals("x", 3), h.reals("r", 3)
    if both:
        head, data = "name x y z r1 r2 r3", [*x, *r]
    else:
        head, data = h.choice("order", [("name x y z", [*x]), ("z Y name x", [x[2], x[1], None, x[0]])])
    if "name" in head.split()[0]:
        line = "Fe1 " + row(h, data)
    else:
        line = " ".join("Fe1" if v is None else h.num(v) for v in data)
    text = cell_section(h, A, "cell" + cell_unit, None if s is None else [s])
    text += [SEP, "atoms" + unit, head, line, SEP]
    m = _load(h, "\n".join(text))
    (a,) = m.atoms
    p = h.np.array(a.position)
    if both:
        h.eq(p, h.np.array(r, dtype=float), "relative coordinates have priority")
        return
    # p @ cell = x * scale * units; scale is the same on both sides
    ratio = h.exact(factor) / h.exact(cell_factor)
    got = [sum(p[i] * A[i][j] for i in range(3)) for j in range(3)]
    _close(h, got, [v * ratio for v in x], "absolute coordinates", rel=1e-5)


def scaled3(h):
    """Three scale factors and absolute coordinates."""
    a = h.reals("a", 3, positive=True)
    s, x = h.reals("s", 3, positive=True), h.reals("x", 3)
    A = h.np.array([[a[0], 0, 0], [0, a[1], 0], [0, 0, a[2]]], dtype=float)
    text = cell_section(h, A, "Cell", s) + [SEP, "Atoms", "name x y z", "Fe1 " + row(h, x)]
    m = _load(h, "\n".join(text))
    p = h.np.array(m.atoms[0].position)
    for i in range(3):
        h.eq(p[i] * a[i], x[i], "absolute coordinates are scaled with the cell")


def spins(h):
    """Spin of the atom in every form, g factor, charge, skipped blocks."""
    t, p = h.real("t", lo=0, hi=180), h.real("p", lo=0, hi=360)
    s = h.real("s", positive=True)
    v = h.reals("v", 3)
    g, q = h.real("g"), h.real("q")
    rad = h.pi / 180
    angles = [
        s * h.sin(t * rad) * h.cos(p * rad),
        s * h.sin(t * rad) * h.sin(p * rad),
        s * h.cos(t * rad),
    ]
    n = h.num
    forms = [
        ("", "", [0, 0, 0]),
        ("s", n(s), [0, 0, s]),
        ("S", n(s), [0, 0, s]),
        ("sx sy sz", row(h, v), v),
        ("Sz Sx Sy", row(h, [v[2], v[0], v[1]]), v),
        ("sp st s", row(h, [p, t, s]), angles),
        ("st S sp", row(h, [t, s, p]), angles),
        ("sx sy sz s", row(h, [*v, s]), v),
        ("s sp st sx sy sz", row(h, [s, p, t, *v]), v),
        ("sx sy sz", "- - -", [0, 0, 0]),
        ("s", "-", [0, 0, 0]),
        ("s sp st sx sy sz", row(h, [s, p, t]) + " - - -", angles),
        ("s sp st sx sy sz", n(s) + " - - - - -", [0, 0, s]),
    ]
    head, data, want = h.choice("spin", forms)
    ghead, gdata, gwant = h.choice("g", [("", "", 2), ("g", n(g), g), ("G", "-", 2)])
    qhead, qdata, qwant = h.choice("q", [("", "", None), ("q", n(q), q), ("q comment", "- 1", None)])
    if h.choice("first", [True, False]):
        header = f"name r1 r2 r3 {head} {ghead} {qhead}"
        line = f"Fe1 0 0 0 {data} {gdata} {qdata}"
    else:
        header = f"{ghead} {qhead} {head} r3 r2 name r1"
        line = f"{gdata} {qdata} {data} 0 0 Fe1 0"
    text = cell_section(h, unit_cell(h)) + [SEP, "Atoms", header, line]
    m = _load(h, "\n".join(text))
    (a,) = m.atoms
    h.eq(h.np.array(a.spin_vector), h.np.array(want, dtype=float), "spin vector")
    h.eq(a.g_factor, gwant, "g factor")
    if qwant is not None:
        h.eq(a.charge, qwant, "charge")
    h.same(a.name, "Fe1", "name of the atom")


def notation(h):
    """Every form of the notation entries."""
    yes = ["true", "T", "1", "Yes", "y"]
    no = ["False", "f", "0", "NO", "n"]
    dc = h.choice("dc", yes + no)
    normalized = h.choice("normalized", yes + no) if dc == "true" else h.choice("norm", ["t", "f"])
    ex, on = h.real("ex", nonzero=True), h.real("on", nonzero=True)
    entries = [
        f"double-counting {dc}",
        f"Spin-normalized {normalized}",
        f"exchange-factor {h.num(ex)}",
        f"On-site-factor   {h.num(on)}",
    ]
    if h.choice("reversed", [False, True]):
        entries.reverse()
    J, A = h.real("J"), h.real("A")
    text = cell_section(h, unit_cell(h)) + ATOMS + [SEP, "NOTATION"] + entries
    text += [SEP, "Exchange", SUB, "Fe1 Fe2 1 0 -1", f"Isotropic {h.num(J)}", SUB]
    text += [SEP, "On-site", SUB, "Fe1", f"{h.num(A)} 0 0 0 0 0", SUB, SEP]
    m = _load(h, "\n".join(text))
    h.same(bool(m.double_counting), dc in yes, "double counting")
    h.same(bool(m.spin_normalized), normalized.lower() in ("true", "t", "1", "yes", "y"), "normalisation")
    h.eq(m.exchange_factor, ex, "exchange factor")
    h.eq(m.on_site_factor, on, "on-site factor")
    f1, f2 = m.atoms
    one = c.listed(m, f1, f2, (1, 0, -1))
    h.same(len(one), 1, "the bond is listed")
    h.eq(one[0], J * h.np.eye(3), "exchange is stored as given")
    two = c.listed(m, f2, f1, (-1, 0, 1))
    h.same(len(two), 1 if dc in yes else 0, "mirrored bond only with double counting")
    h.same(c.count_bonds(m), 2 if dc in yes else 1, "number of bonds")
    (o,) = list(m.on_site)
    h.eq(o[1].matrix[0][0], A, "on-site parameter is stored as given")


def exchange(h):
    """Parts of the exchange parameter, in any combination, units and order."""
    unit, k = h.choice(
        "unit",
        [("", "m"), (" meV", "m"), (" eV", "e"), (" K", "k"), (" Ry", "r"), (" J", "j"), (" kelvin", "k")],
    )
    parts = h.choice(
        "parts",
        ["i", "d", "s", "m", "im", "mi", "dm", "md", "sm", "ms", "ids", "sdi", "idsm", "msdi"]
        if unit == " K"
        else ["m", "isd"],
    )
    iso, D, S, M = h.real("iso"), h.reals("D", 3), h.reals("S", 5), h.matrix("M")
    lines = dict(
        i=[f"Isotropic {h.num(iso)}"],
        d=["DMI " + row(h, D)],
        s=["symmetric-anisotropy " + row(h, S)],
        m=["Matrix"] + [row(h, M[i]) for i in range(3)],
    )
    R = h.choice("R", [(0, 0, 0), (1, -2, 0)])
    text = cell_section(h, unit_cell(h)) + ATOMS + notation_section(h, "False", "True", 1, 1)
    text += [SEP, h.choice("case", ["Exchange", "exchange"]) + unit, SUB, f"Fe2 Fe1 {R[0]} {R[1]} {R[2]}"]
    for p in parts:
        text += lines[p]
    text += [SUB, "Fe1 Fe1 0 0 1", "isotropic 1", SUB, SEP]
    m = _load(h, "\n".join(text))
    np = h.np
    base = M if "m" in parts else np.zeros((3, 3))
    sym, anti = (base + base.T) / 2, (base - base.T) / 2
    tr = (base[0][0] + base[1][1] + base[2][2]) / 3
    aniso = sym - tr * np.eye(3)
    if "i" in parts:
        tr = iso
    if "d" in parts:
        anti = np.array([[0, D[2], -D[1]], [-D[2], 0, D[0]], [D[1], -D[0], 0]], dtype=float)
    if "s" in parts:
        aniso = np.array([[S[0], S[2], S[3]], [S[2], S[1], S[4]], [S[3], S[4], -S[0] - S[1]]], dtype=float)
    want = (tr * np.eye(3) + aniso + anti) * ENERGY[k]
    f1, f2 = m.atoms
    got = c.listed(m, f2, f1, R)
    h.same(len(got), 1, "the bond is listed")
    _close(h, got[0], want, "exchange matrix")
    other = c.listed(m, f1, f1, (0, 0, 1))
    h.same(len(other), 1, "the next bond is listed")
    _close(h, other[0], np.eye(3) * ENERGY[k], "next bond")
    h.same(c.count_bonds(m), 2, "number of bonds")


def on_site(h):
    """On-site parameters in every unit."""
    unit, k = h.choice(
        "unit",
        [("", "m"), (" meV", "m"), (" eV", "e"), (" K", "k"), (" Ry", "r"), (" Joule", "j"), (" rydberg", "r")],
    )
    A, B = h.reals("A", 6), h.reals("B", 6)
    last = h.choice("last", [[SUB], []])
    text = cell_section(h, unit_cell(h)) + ATOMS
    text += [SEP, "notation", "s n", f"o {h.num(-1)}"]
    text += [SEP, "On-site" + unit, SUB, "Fe2", row(h, A), SUB, "Fe1", row(h, B)] + last
    m = _load(h, "\n".join(text))
    h.same(len(list(m.on_site)), 2, "number of parameters")
    h.eq(m.on_site_factor, -1, "on-site factor")
    f1, f2 = m.atoms
    for a, p in ((f2, A), (f1, B)):
        got = [x.matrix for b, x in m.on_site if b == a]
        h.same(len(got), 1, "parameter of the atom")
        want = [[p[0], p[3], p[4]], [p[3], p[1], p[5]], [p[4], p[5], p[2]]]
        _close(h, got[0], h.np.array(want, dtype=float) * ENERGY[k], "on-site matrix")


def ground(h):
    """Cone axis and spiral vector."""
    A = triangular(h)
    what = h.choice(
        "what",
        ["axis", "axis relative", "axis Absolute", "angles", "angles absolute", "q", "q Relative", "q absolute", "q bohr"],
    )
    text = cell_section(h, A, "Cell Bohr" if what == "q bohr" else "Cell") + ATOMS + [SEP]
    v = h.reals("v", 3)
    unit = what.partition(" ")[2]
    if what.startswith("axis"):
        h.assume(h.lor(*[x != 0 for x in v]))
        text += [("Cone-axis " + unit).strip(), row(h, v), SEP]
        m = _load(h, "\n".join(text))
        n = h.np.array(m.cone_axis)
        d = v if unit == "Absolute" else [sum(v[i] * A[i][j] for i in range(3)) for j in range(3)]
        h.eq(n[0] ** 2 + n[1] ** 2 + n[2] ** 2, 1, "cone axis is a unit vector")
        for i, j in ((0, 1), (0, 2), (1, 2)):
            h.eq(n[i] * d[j], n[j] * d[i], "direction of the cone axis")
        h.true(sum(n[i] * d[i] for i in range(3)) > 0, "sense of the cone axis")
        h.true(m.spiral_vector is None, "no spiral vector")
    elif what.startswith("angles"):
        al, be = h.real("alpha"), h.real("beta")
        text += [("cone-axis " + unit).strip(), row(h, [al, be]), SEP]
        m = _load(h, "\n".join(text))
        r = h.pi / 180
        want = [h.cos(be * r) * h.sin(al * r), h.sin(be * r) * h.sin(al * r), h.cos(al * r)]
        h.eq(h.np.array(m.cone_axis), h.np.array(want, dtype=float), "cone axis from the angles")
    else:
        header = {"": "Spiral-vector", "bohr": "spiral-vector Absolute"}.get(unit, "Spiral-vector " + unit)
        text += [header, row(h, v), SEP]
        m = _load(h, "\n".join(text))
        q = h.np.array(m.spiral_vector)
        if unit in ("", "Relative"):
            h.eq(q, h.np.array(v, dtype=float), "relative spiral vector is stored as given")
        else:
            # q in units of the reciprocal cell: q_i = v . a_i / 2 pi, whatever the unit of length
            for i in range(3):
                d = sum(v[j] * A[i][j] for j in range(3))
                b = sum(abs(v[j] * A[i][j]) for j in range(3)) + abs(d)
                h.eq(q[i] * 2 * h.pi, d, "absolute spiral vector", tol=b * h.exact(1e-6))
        h.true(m.cone_axis is None, "no cone axis")


def layout(h):
    """Comments, blank lines, separators and the order of the sections do not matter."""
    J, A, q = h.real("J"), h.reals("A", 6), h.reals("q", 3)
    sections = [
        cell_section(h, [[2, 0, 0], [0, 1, 0], [0, 0, 3]]),
        ATOMS,
        notation_section(h, "True", "False", h.frac(1, 2), -1),
        [SEP, "Exchange", SUB, "Fe1 Fe2 0 1 0", f"Isotropic {h.num(J)}", SUB],
        [SEP, "On-site", SUB, "Fe2", row(h, A), SUB],
        [SEP, "Spiral-vector", row(h, q)],
        [SEP, "Something-else", "1 2 3"],
    ]
    order = h.choice("order", [0, 1, 2, 3])
    if order == 1:
        sections.reverse()
    elif order == 2:
        sections = sections[3:] + sections[:3]
    elif order == 3:
        sections = [sections[i] for i in (4, 1, 6, 3, 0, 5, 2)]
    lines = [x for s in sections for x in s]
    style = h.choice("style", ["plain", "comments", "blank", "spaces", "long", "double"])
    if style == "comments":
        lines = ["# Cell"] + [y for x in lines for y in (x + " # 1 2 3", "  # Exchange", "#" + x)]
    elif style == "blank":
        lines = ["", "   "] + [y for x in lines for y in (x, "", "  ")]
    elif style == "spaces":
        lines = ["  " + x.replace(" ", "   ") + "  " for x in lines]
    elif style == "long":
        lines = [x * 9 if x in (SEP, SUB) else x for x in lines]
    elif style == "double":
        lines = [y for x in lines for y in ((x, x) if x in (SEP, SUB) else (x,))]
    text = "\n".join(lines) + h.choice("end", ["", "\n"])
    m = _load(h, text)
    h.same(bool(m.double_counting), True, "double counting")
    h.same(bool(m.spin_normalized), False, "normalisation")
    h.eq(m.exchange_factor, h.frac(1, 2), "exchange factor")
    h.eq(m.on_site_factor, -1, "on-site factor")
    h.same([a.name for a in m.atoms], ["Fe1", "Fe2"], "atoms")
    h.eq(h.np.array(m.cell), h.np.array([[2, 0, 0], [0, 1, 0], [0, 0, 3]], dtype=float), "cell")
    f1, f2 = m.atoms
    h.eq(f2.spin, 2, "spin")
    h.same(c.count_bonds(m), 2, "bonds")
    (got,) = c.listed(m, f1, f2, (0, 1, 0))
    h.eq(got, J * h.np.eye(3), "exchange")
    ((a, p),) = list(m.on_site)
    h.same(a.name, "Fe2", "atom of the on-site parameter")
    h.eq(
        h.np.array(p.matrix),
        h.np.array([[A[0], A[3], A[4]], [A[3], A[1], A[5]], [A[4], A[5], A[2]]], dtype=float),
        "on-site matrix",
    )
    h.eq(h.np.array(m.spiral_vector), h.np.array(q, dtype=float), "spiral vector")


def bonds(h):
    """Symbolic bond vectors and several bonds."""
    R, Q = h.ints("R"), h.ints("Q")
    J, K = h.matrix("J"), h.matrix("K")
    dc = h.boolean("dc")
    same = h.choice("atoms", ["Fe1 Fe2", "Fe2 Fe2"])
    if same == "Fe2 Fe2":
        c.nonzero_R(h, R)
        c.nonzero_R(h, Q)
    c.not_same_R(h, R, Q)
    if same == "Fe2 Fe2":
        c.not_same_R(h, R, c.neg(Q))
    text = cell_section(h, unit_cell(h)) + ATOMS + notation_section(h, dc, True, 1, 1)
    text += [SEP, "Exchange", SUB]
    for V, X in ((R, J), (Q, K)):
        text += [f"{same} " + row(h, V), "matrix"] + [row(h, X[i]) for i in range(3)] + [SUB]
    m = _load(h, "\n".join(text))
    x, y = (m.get_atom(n) for n in same.split())
    for V, X in ((R, J), (Q, K)):
        got = c.listed(m, x, y, V)
        h.same(len(got), 1, "the bond is listed once")
        h.eq(got[0], X, "matrix of the bond")
        got = c.listed(m, y, x, c.neg(V))
        h.same(len(got), 1 if dc else 0, "mirrored bond only with double counting")
        if dc:
            h.eq(got[0], X.T, "matrix of the mirrored bond")
    h.same(c.count_bonds(m), 4 if dc else 2, "number of bonds")


def many(h):
    """More than ten atoms, bonds and on-site terms, in no order."""
    n = 12
    names = [f"Fe{i + 1}" for i in range(n)][::-1]
    x, J = h.reals("x", n), h.reals("J", n)
    dc = h.boolean("dc")
    text = cell_section(h, unit_cell(h)) + [SEP, "Atoms", "name r1 r2 r3 s g"]
    text += [f"{a} {h.num(x[i])} 0.5 0.{i} {i + 1} {2 + i}" for i, a in enumerate(names)]
    text += notation_section(h, dc, True, 1, 1) + [SEP, "Exchange", SUB]
    pairs = [(names[i], names[5 * i % n], (i - 6, 0, 12 + i)) for i in range(n)]
    pairs += [(names[0], names[1], (0, 0, 0)), (names[0], names[1], (0, 0, 1)), (names[1], names[0], (7, 0, 0))]
    for i, (a, b, R) in enumerate(pairs):
        text += [f"{a} {b} {R[0]} {R[1]} {R[2]}", f"isotropic {h.num(J[i % n])}", f"dmi {i} 0 1", SUB]
    text += [SEP, "On-site", SUB]
    for i in range(0, n, 2):
        text += [names[i], row(h, [J[i], 0, 0, i, 0, 0]), SUB]
    m = _load(h, "\n".join(text))
    h.same([a.name for a in m.atoms], names, "atoms in the order of the file")
    for i, a in enumerate(m.atoms):
        h.eq(a.position[0], x[i], "coordinates")
        h.eq(a.spin, i + 1, "spins")
        h.eq(a.g_factor, 2 + i, "g factors")
    h.same(c.count_bonds(m), len(pairs) * (2 if dc else 1), "number of bonds")
    for i, (a, b, R) in enumerate(pairs):
        got = c.listed(m, m.get_atom(a), m.get_atom(b), R)
        h.same(len(got), 1, "the bond is listed once")
        q = J[i % n]
        h.eq(got[0], h.np.array([[q, 1, 0], [-1, q, i], [0, -i, q]]), "matrix of the bond")
    on = {a.name: p for a, p in m.on_site}
    h.same(sorted(on), sorted(names[::2]), "atoms with an on-site term")
    for i in range(0, n, 2):
        h.eq(on[names[i]].matrix[0, 0], J[i], "on-site matrix")


HARNESSES = [
    H("cell", cell, bounds="any nonsingular cell, all units and scales"),
    H("volume", volume, bounds="any triangular cell, any volume"),
    H("positions", positions, bounds="any triangular cell and coordinates, all units"),
    H("scaled3", scaled3, bounds="any rectangular cell, coordinates and scale factors"),
    H("spins", spins, bounds="13 forms of the spin, 3 of the g factor and of the charge, 2 column orders"),
    H("notation", notation, bounds="all keywords, any factors and parameters"),
    H("exchange", exchange, bounds="all units, 14 combinations of parts, any values"),
    H("on_site", on_site, bounds="2 atoms, all units, any values"),
    H("ground", ground, bounds="any triangular cell, any cone axis, angles and spiral vector"),
    H("layout", layout, bounds="4 orders of sections, 6 styles"),
    H("bonds", bonds, bounds="2 bonds, any integer vectors and matrices"),
    H("many", many, bounds="12 atoms, 15 bonds, 6 on-site terms; any coordinates and exchange"),
]
