"""Derived objects are independent of the Hamiltonian they come from."""
from symex.runner import H
from checks import common as c

ASSUMPTIONS = ["no bond connects an atom with itself in the same unit cell", "spins are not zero"]


def _model(h, spins=True, content=False):
    a = c.atom("A", 1, spin=h.vector("sA") if spins == "vector" else (0, 0, h.real("sA", positive=True)))
    b = c.atom("B", 2, (h.real("px"), 0.5, 0.25), spin=(0, 0, h.real("sB", positive=True)))
    s = h.real("c", positive=True)
    m = c.model_of(
        h,
        [a, b],
        cell=h.np.array([[s, 0, 0], [0, 2, 0], [0, 0.5, 3]], dtype=float),
        notation=(h.boolean("dc"), h.boolean("norm"), h.real("f", nonzero=True), h.real("g", nonzero=True)),
    )
    R = h.ints("R")
    content = h.choice("content", ["both", "exchange", "on-site"]) if content else "both"
    if content != "on-site":
        m.add_exchange(a, b, R, matrix=h.matrix("J"))
    if content != "exchange":
        m.add_on_site(a, matrix=h.matrix("A"))
    return m, a, b, R


def _mutate(h, m):
    """Changes of every kind."""
    a, b = m.atoms
    how = h.choice("how", ["notation", "double counting", "parameters", "geometry", "content", "on-site", "ground state"])
    if how == "notation":
        m.exchange_factor = 7
        m.on_site_factor = 3
        m.spin_normalized = not m.spin_normalized
    elif how == "double counting":
        m.double_counting = not m.double_counting
    elif how == "parameters":
        for x, y, R, p in m.exchange:
            p.matrix *= 2
            p.xx = 5
            p.iso = 11
        for x, p in m.on_site:
            p.zz = 13
            p.matrix *= 3
    elif how == "geometry":
        a.position = (0.1, 0.2, 0.3)
        b.position[1] = 0.9
        b.spin = (0, 0, 9)
        a.spin_vector[0] = 3
        a.g_factor = 5
    elif how == "content":
        for x, y, R, p in list(m.exchange):
            if (x, y, R) in m:
                del m[x, y, R]
        m.add_exchange(b, b, (0, 5, 0), iso=4)
        if a in m:
            del m[a]
    elif how == "on-site":
        m.add_on_site(b, iso=3)
        m.add_on_site(a, iso=8)
    else:
        m.cone_axis = (1, 0, 0)
        m.spiral_vector = (0.1, 0.2, 0.3)


def copies(h):
    m, a, b, R = _model(h, content=True)
    if h.boolean("gs"):
        m.cone_axis = (0, 0, 2)
        m.spiral_vector = (h.real("q"), 0, 0)
    s = c.snapshot(h, m)
    kind = h.choice("kind", ["copy", "filtered"])
    r = m.copy() if kind == "copy" else m.filtered()
    c.unchanged(h, s, c.snapshot(h, m), f"{kind}: original")
    c.unchanged(h, s, c.snapshot(h, r), f"{kind}: result")
    if h.boolean("mutate_original"):
        _mutate(h, m)
        c.unchanged(h, s, c.snapshot(h, r), f"{kind}: result after a change of the original")
    else:
        _mutate(h, r)
        c.unchanged(h, s, c.snapshot(h, m), f"{kind}: original after a change of the result")


def crystal(h):
    m, a, b, R = _model(h)
    s = c.snapshot(h, m)
    k = m.crystal
    h.eq(k.cell, m.cell, "crystal: cell")
    h.same([x.fullname for x in k.atoms], [x.fullname for x in m.atoms], "crystal: atoms")
    for x, y in zip(k.atoms, m.atoms):
        h.eq(x.position, y.position, "crystal: positions")
        h.eq(x.spin_vector, y.spin_vector, "crystal: spins")
    op = h.choice("op", ["position", "spin", "remove", "add", "cell", "in place"])
    if op == "position":
        k.atoms[1].position = (0.7, 0.7, 0.7)
    elif op == "in place":
        k.atoms[1].position[0] += 1
        k.atoms[0].spin_vector[2] = 5
    elif op == "spin":
        k.atoms[0].spin = 9
    elif op == "remove":
        k.remove_atom(k.atoms[0])
    elif op == "add":
        k.add_atom("D", position=(0.3, 0.3, 0.3))
    else:
        k.cell[0][0] = 77
    c.unchanged(h, s, c.snapshot(h, m), f"crystal: model after {op}")


def energy(h):
    """Energy(model) neither changes the model nor follows its later changes."""
    from magnopy import Energy

    m, a, b, R = _model(h)
    s = c.snapshot(h, m)
    E = Energy(m)
    c.same_interactions(h, s, c.snapshot(h, m), "Energy: model")
    e = h.np.array([[0, 0.6, 0.8], [1, 0, 0]], dtype=float)
    before = E.ferro(e)
    _mutate(h, m)
    h.eq(E.ferro(e), before, "Energy: value after a change of the model")


def dispersion(h):
    from magnopy import MagnonDispersion

    m, a, b, R = _model(h)
    s = c.snapshot(h, m)
    d = MagnonDispersion(m)
    c.unchanged(h, s, c.snapshot(h, m), "MagnonDispersion: model")
    k = h.np.array([h.real("k"), 0, 0], dtype=float)
    before = d.J(k)
    h.eq(d.J(k), before, "MagnonDispersion: repeatable")
    c.unchanged(h, s, c.snapshot(h, m), "MagnonDispersion.J: model")
    _mutate(h, m)
    h.eq(d.J(k), before, "MagnonDispersion: value after a change of the model")


def inputs(h):
    """Arrays and parameter objects given to the model stay the caller's."""
    from magnopy import MatrixParameter

    a, b = c.atom("A", 1, spin=2), c.atom("B", 2, (0.5, 0, 0), spin=1)
    m = c.model_of(h, [a, b], notation=(h.boolean("dc"), h.boolean("norm"), h.real("f", nonzero=True), 1))
    J = h.matrix("J")
    src = h.np.array(J)
    p = MatrixParameter(matrix=src)
    R = h.ints("R")
    m.add_exchange(a, b, R, p)
    m.add_on_site(b, p)
    m.notation = (h.boolean("dc2"), h.boolean("norm2"), h.real("f2", nonzero=True), 2)
    h.eq(p.matrix, J, "the parameter object of the caller is not changed")
    h.eq(src, J, "the array of the caller is not changed")
    s = c.snapshot(h, m)
    p.iso = 5
    p.xy = 4
    c.unchanged(h, s, c.snapshot(h, m), "later changes of the caller's parameter object")
    q = h.np.array([1, 0, 0], dtype=float)
    m.spiral_vector = q
    m.cone_axis = q
    q[1] = 3
    h.eq(m.spiral_vector, h.np.array([1, 0, 0], dtype=float), "spiral vector is kept")
    h.eq(m.cone_axis, h.np.array([1, 0, 0], dtype=float), "cone axis is kept")
    from magnopy import Energy

    E = Energy(m)
    B = h.vector("B")
    for name, given in (("magnetic_field", B), ("g_factors", h.vector("g")[:2]), ("spins", h.vector("S")[:2])):
        given = h.np.array(given, dtype=float)
        want = h.np.array(given, dtype=float)
        setattr(E, name, given)
        e = h.np.array([[0, 0.6, 0.8], [1, 0, 0]], dtype=float)
        before = E.ferro(e)
        given[0] = given[0] + 2
        h.eq(getattr(E, name), want, f"Energy: {name} is kept")
        h.eq(E.ferro(e), before, f"Energy: value after a change of the array of {name}")


def larger(h):
    """Copies of a larger model."""
    m, at, given, on = c.larger(h, notation=(h.boolean("dc"), True, 1, 1))
    s = c.snapshot(h, m)
    r = m.copy() if h.boolean("copy") else m.filtered()
    c.unchanged(h, s, c.snapshot(h, r), "copy")
    one, other = (m, r) if h.boolean("original") else (r, m)
    for x, y, R, p in one.exchange:
        p.matrix *= 2
        p.xy = 5
    for x, p in one.on_site:
        p.zz = 13
    for x in one.atoms:
        x.position[2] = 0.125
        x.spin_vector[1] = 4
    one.remove_atom(one.atoms[1])
    c.unchanged(h, s, c.snapshot(h, other), "after changes of everything in the other object")


B = "2 atoms, at most 1 bond and 1 on-site, any matrices, factors, spins > 0, integer R; "
HARNESSES = [
    H("copies", copies, bounds=B + "copy() and filtered(), 7 kinds of changes of either object"),
    H("crystal", crystal, bounds=B + "6 kinds of changes of the crystal"),
    H("energy", energy, bounds=B + "7 kinds of changes of the model"),
    H("dispersion", dispersion, bounds=B + "7 kinds of changes of the model"),
    H("inputs", inputs, bounds=B + "caller's parameter objects and arrays"),
    H("larger", larger, bounds="6 atoms, 8 bonds, 3 on-site terms; all of them changed, one atom removed"),
]
