"""Text model files: what is written is read back."""
from symex.runner import H
from checks import common as c

ASSUMPTIONS = [
    "a printed number is any value within half a unit of its last printed digit",
    "at least four decimals for parameters and spins, eight for the geometry",
]


def _model(h, content, dc=False, normalized=True, extra=False, cell=None, names=("Fe1", "Fe2")):
    from magnopy import SpinHamiltonian

    p, s = h.reals("p", 3), h.reals("s", 3)
    g = h.real("g")
    A = h.np.eye(3) * 2 if cell is None else cell
    m = SpinHamiltonian(cell=A)
    m.add_atom(names[0], position=p, spin=s, g_factor=g)
    m.add_atom(names[1], position=(0.25, 0, 0.5), spin=(0, 0, 2))
    ex, on = h.real("ex", nonzero=True), h.real("on", nonzero=True)
    if content != "none":
        m.notation = (dc, normalized, ex, on)
    f1, f2 = m.atoms
    if content in ("exchange", "both"):
        m.add_exchange(f1, f2, (1, 0, -2), matrix=h.matrix("J"))
        m.add_exchange(f2, f2, (0, 1, 0), matrix=h.matrix("K"))
    if content in ("on-site", "both"):
        a = h.reals("K", 6)
        m.add_on_site(f2, matrix=[[a[0], a[3], a[4]], [a[3], a[1], a[5]], [a[4], a[5], a[2]]])
    return m


def _written(h, m, how="file", **kw):
    """The model loaded from what is written, and the state of the original after that."""
    from magnopy import dump_spinham_txt, load_spinham

    name = h.scratch() + "/out.txt"
    if how == "file":
        dump_spinham_txt(m, filename=name, **kw)
    else:
        lines = dump_spinham_txt(m, print_if_none=False, **kw)
        with open(name, "w", encoding="utf-8") as f:
            f.write("\n".join(lines))
    return load_spinham(name)


def _compare(h, m, n, content, digits=4, parts=1):
    np = h.np
    t8, t4 = h.frac(1, 10**8), h.frac(parts, 10**digits)
    h.eq(np.array(n.cell), np.array(m.cell), "cell", tol=t8)
    h.same([a.name for a in n.atoms], [a.name for a in m.atoms], "names of the atoms")
    for a, b in zip(m.atoms, n.atoms):
        h.eq(np.array(b.position), np.array(a.position), "positions", tol=t8)
        h.eq(np.array(b.spin_vector), np.array(a.spin_vector), "spin vectors", tol=h.frac(1, 10**4))
        h.eq(b.g_factor, a.g_factor, "g factors", tol=h.frac(1, 10**4))
    if content != "none":
        h.same(bool(n.spin_normalized), bool(m.spin_normalized), "normalisation of spins")
    if content in ("exchange", "both"):
        h.same(bool(n.double_counting), bool(m.double_counting), "double counting")
        h.eq(n.exchange_factor, m.exchange_factor, "exchange factor")
    if content in ("on-site", "both"):
        h.eq(n.on_site_factor, m.on_site_factor, "on-site factor")
    x, y = list(m.exchange), list(n.exchange)
    h.same(len(y), len(x), "number of bonds")
    for a1, a2, R, p in x:
        got = [q for b1, b2, Q, q in y if b1.name == a1.name and b2.name == a2.name and tuple(Q) == tuple(R)]
        h.same(len(got), 1, "bond is kept")
        h.eq(np.array(got[0].matrix), np.array(p.matrix), "exchange matrix", tol=t4)
    x, y = list(m.on_site), list(n.on_site)
    h.same(len(y), len(x), "number of on-site parameters")
    for a, p in x:
        got = [q for b, q in y if b.name == a.name]
        h.same(len(got), 1, "on-site parameter is kept")
        h.eq(np.array(got[0].matrix), np.array(p.matrix), "on-site matrix", tol=h.frac(1, 10**digits))


def round_trip(h):
    """Any content in any notation."""
    content = h.choice("content", ["none", "exchange", "on-site", "both"])
    dc, normalized = h.boolean("dc"), h.boolean("normalized")
    m = _model(h, content, dc, normalized)
    s = c.snapshot(h, m)
    n = _written(h, m, h.choice("how", ["file", "lines"]))
    c.unchanged(h, s, c.snapshot(h, m), "writing")
    _compare(h, m, n, content)
    h.true(n.spiral_vector is None, "no spiral vector")
    h.true(n.cone_axis is None, "no cone axis")


def parts(h):
    """Every way to write the exchange parameters."""
    which = h.choice(
        "parts",
        [
            dict(write_matrix=False, write_iso=True, write_dmi=True, write_symm=True),
            dict(write_iso=True),
            dict(write_dmi=True),
            dict(write_symm=True),
            dict(write_iso=True, write_dmi=True, write_symm=True),
            dict(write_distance=True),
            dict(write_matrix=False, write_iso=True, write_dmi=True, write_symm=True, write_distance=True),
        ],
    )
    m = _model(h, "both", h.boolean("dc"), True)
    n = _written(h, m, **which)
    _compare(h, m, n, "both", parts=4)


def one_part(h):
    """Parameters with one kind of exchange, written as that kind."""
    from magnopy import SpinHamiltonian

    m = SpinHamiltonian(cell=h.np.eye(3))
    for name in ("A", "B"):
        m.add_atom(name, spin=(0, 0, 1))
    m.notation = (False, True, 1, 1)
    kind = h.choice("kind", ["iso", "dmi", "symm"])
    S = h.reals("S", 5)
    value = dict(
        iso=dict(iso=h.real("iso")),
        dmi=dict(dmi=h.reals("D", 3)),
        symm=dict(aniso=[[S[0], S[2], S[3]], [S[2], S[1], S[4]], [S[3], S[4], -S[0] - S[1]]]),
    )[kind]
    m.add_exchange(*m.atoms, (0, 0, 1), **value)
    n = _written(h, m, write_matrix=False, **{"write_" + kind: True})
    _compare(h, m, n, "exchange", parts=4)


def ground(h):
    """Cone axis and spiral vector, in any cell."""
    a = h.reals("c", 3, positive=True)
    b = h.reals("d", 3)
    cell = h.np.array([[a[0], 0, 0], [b[0], a[1], 0], [b[1], b[2], a[2]]], dtype=float)
    m = _model(h, "none", cell=cell)
    what = h.choice("what", ["axis", "spiral", "both"])
    if what != "spiral":
        m.cone_axis = h.choice("axis", [(0, 0, 1), (0, -3, 0), (0.6, 0, 0.8)])
    if what != "axis":
        m.spiral_vector = h.reals("q", 3)
    n = _written(h, m)
    _compare(h, m, n, "none")
    if what != "spiral":
        h.eq(h.np.array(n.cone_axis), h.np.array(m.cone_axis), "cone axis", tol=h.frac(1, 10**7))
    else:
        h.true(n.cone_axis is None, "no cone axis")
    if what != "axis":
        h.eq(h.np.array(n.spiral_vector), h.np.array(m.spiral_vector), "spiral vector", tol=h.frac(1, 10**8))
    else:
        h.true(n.spiral_vector is None, "no spiral vector")


def angles(h):
    """Spins written as angles."""
    from magnopy import SpinHamiltonian

    S = h.real("S", positive=True, hi=10)
    n = h.choice(
        "direction",
        [(0, 0, 1), (0, 0, -1), (1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0)],
    )
    m = SpinHamiltonian(cell=h.np.eye(3))
    m.add_atom("Fe1", spin=[S * x for x in n])
    m.add_atom("Fe2", spin=(0, 0, 0))
    want = h.np.array([S * x for x in n], dtype=float)
    got = _written(h, m, write_spin_angles=True)
    f1, f2 = got.atoms
    h.eq(h.np.array(f2.spin_vector), h.np.zeros(3), "atom without spin")
    # S to 4 digits and angles to 4 digits of a degree
    h.eq(h.np.array(f1.spin_vector), want, "spin vector",
         tol=h.frac(1, 10**4) + S * h.frac(1, 10**5))


def columns(h):
    """Long names, negative numbers."""
    h.neg_tokens(h.boolean("negative"))
    names = h.choice("names", [("Fe1", "Fe2"), ("1a", "b_2"), ("Iron_atom_1", "Iron_atom_10"), ("i", "d"), ("M", "S")])
    m = _model(h, "both", True, False, names=names)
    n = _written(h, m, write_distance=h.boolean("distance"))
    _compare(h, m, n, "both")


def larger(h):
    """More than ten atoms, several bonds of a pair, distant cells."""
    from magnopy import SpinHamiltonian

    m = SpinHamiltonian(cell=h.np.eye(3) * 3)
    n = 12
    x = h.reals("x", n)
    for i in range(n):
        m.add_atom(f"Fe{i + 1}", position=(x[i], 0.5, 0.25), spin=(0, i, 1), g_factor=2 + i)
    m.notation = (h.boolean("dc"), h.boolean("normalized"), 1, 1)
    J = h.reals("J", n)
    for i in range(n):
        m.add_exchange(m.atoms[i], m.atoms[11 - i], (0, 1 + i, -12), matrix=[[J[i], 1, 2], [3, J[i], 4], [i, 6, 7]])
        m.add_on_site(m.atoms[i], matrix=h.np.eye(3) * J[i])
    m.add_exchange(m.atoms[0], m.atoms[1], (100, 0, 0), iso=J[0])
    m.add_exchange(m.atoms[0], m.atoms[10], (0, 0, 0), iso=J[1])
    got = _written(h, m, h.choice("how", ["file", "lines"]), **h.choice("parts", [{}, dict(write_iso=True, write_distance=True)]))
    _compare(h, m, got, "both", parts=1)


def equal_names(h):
    """Atoms with the same name: the file can be read, the bonds connect the same atoms."""
    from magnopy import SpinHamiltonian

    np = h.np
    m = SpinHamiltonian(cell=np.eye(3) * 3)
    x = h.reals("x", 4)
    for i, name in enumerate(h.choice("names", [["Fe", "Fe", "Ni", "Ni"], ["Fe", "Ni", "Fe", "Fe1"], ["Fe", "Fe", "Fe", "Fe"]])):
        m.add_atom(name, position=(x[i], 0.5, 0.25), spin=(0, i, 1))
    m.notation = (True, False, 1, 1)
    a = m.atoms
    J = h.reals("J", 4)
    for i, j, R in ((0, 1, (0, 0, 0)), (2, 0, (1, 0, 0)), (3, 3, (0, 1, 0)), (1, 3, (0, 0, 0))):
        m.add_exchange(a[i], a[j], R, matrix=np.eye(3) * J[i])
        m.add_on_site(a[i], matrix=np.eye(3) * J[i])
    before = c.snapshot(h, m)
    n = _written(h, m)
    c.unchanged(h, before, c.snapshot(h, m), "writing")
    h.same(len(n.atoms), 4, "all atoms")
    h.same(len({b.name for b in n.atoms}), 4, "different names")
    t8, t4 = h.frac(1, 10**8), h.frac(1, 10**4)
    for p, q in zip(m.atoms, n.atoms):
        h.true(q.name.startswith(p.name), "name of the atom is kept in the name that is written")
        h.eq(np.array(q.position), np.array(p.position), "positions", tol=t8)
    got = {(n.atoms.index(p), n.atoms.index(q), tuple(int(r) for r in R)): J for p, q, R, J in n.exchange}
    want = {(a.index(p), a.index(q), tuple(R)): J for p, q, R, J in m.exchange}
    h.same(sorted(got), sorted(want), "bonds")
    for key in want:
        h.eq(np.array(got[key].matrix), np.array(want[key].matrix), "matrix of the bond", tol=t4)
    got = {n.atoms.index(p): J for p, J in n.on_site}
    for p, J in m.on_site:
        h.eq(np.array(got[a.index(p)].matrix), np.array(J.matrix), "on-site matrix", tol=t4)


HARNESSES = [
    H("round_trip", round_trip, bounds="2 atoms, 2 bonds, 1 on-site term, all notations; any values"),
    H("parts", parts, bounds="2 atoms, 2 bonds, 7 sets of options; any values"),
    H("one_part", one_part, bounds="1 bond, 3 kinds of parameters; any values"),
    H("ground", ground, bounds="any triangular cell and spiral vector, 3 cone axes"),
    H("angles", angles, bounds="6 directions along the axes, any spin length up to 10"),
    H("columns", columns, bounds="5 pairs of names, both signs of printed numbers"),
    H("larger", larger, bounds="12 atoms, 14 bonds, 12 on-site terms; any coordinates and one number of every matrix"),
    H("equal_names", equal_names, bounds="4 atoms with 3 sets of names that are not unique, 4 bonds, 4 on-site terms"),
]
