"""Energy of the ferromagnetic-type state is the energy of the classical Hamiltonian."""
from symex.runner import H
from checks import common as c

ASSUMPTIONS = [
    "no bond connects an atom with itself in the same unit cell",
    "spin lengths are positive",
    "a model without double counting does not list a bond and its mirror at once (the package takes care of it, see P02)",
]


def _model(h, second=False, swap=False):
    a = c.atom("A", 1, spin=h.real("sA", positive=True), g_factor=h.real("gA"))
    b = c.atom("B", 2, (0.25, 0.5, 0), spin=h.real("sB", positive=True), g_factor=h.real("gB"))
    m = c.model_of(
        h,
        [b, a] if swap else [a, b],
        notation=(h.boolean("dc"), h.boolean("norm"), h.real("f", nonzero=True), h.real("g", nonzero=True)),
    )
    R = h.ints("R")
    x, y = h.choice("direction", [(a, b), (b, a)])
    m.add_exchange(x, y, R, matrix=h.matrix("J"))
    if second:
        Q = h.ints("Q")
        c.nonzero_R(h, Q)
        m.add_exchange(b, b, Q, matrix=h.matrix("K"))
    m.add_on_site(b, matrix=h.matrix("B"))
    return m, a, b


def classical(h, m, directions, field=None):
    """The Hamiltonian itself, for one unit cell, with spins given by unit vectors."""
    total = 0
    for x, y, R, p in m.exchange:
        w = c.spin_weight(m, x) * c.spin_weight(m, y)
        total = total + m.exchange_factor * w * (directions[x.name] @ p.matrix @ directions[y.name])
    for x, p in m.on_site:
        total = total + m.on_site_factor * c.spin_weight(m, x) ** 2 * (
            directions[x.name] @ p.matrix @ directions[x.name]
        )
    if field is not None:
        from magnopy.units.inside import ENERGY
        from magnopy.units.si import BOHR_MAGNETON

        mu = BOHR_MAGNETON / ENERGY
        for x in m.magnetic_atoms:
            total = total + mu * x.g_factor * x.spin * (field @ directions[x.name])
    return total


def energy(h, second=False):
    from magnopy import Energy

    m, a, b = _model(h, second, h.boolean("swap"))
    e = dict(A=h.unit("eA"), B=h.unit("eB"))
    want = classical(h, m, e)
    E = Energy(m)
    order = [x.name for x in m.magnetic_atoms]
    s = h.np.array([e[n] for n in order], dtype=float)
    keep = h.np.array(s)
    h.eq(E.ferro(s), want, "energy of the classical Hamiltonian")
    h.eq(s, keep, "the given orientation is not changed")


def energy_two_bonds(h):
    energy(h, True)


def field(h):
    from magnopy import Energy

    m, a, b = _model(h)
    e = dict(A=h.unit("eA"), B=h.unit("eB"))
    B = h.vector("B")
    E = Energy(m)
    s = h.np.array([e[x.name] for x in m.magnetic_atoms], dtype=float)
    without = E.ferro(s)
    E.magnetic_field = B
    h.eq(E.ferro(s), classical(h, m, e, B), "energy in a magnetic field")
    h.eq(E.magnetic_field, B, "field is stored")
    E.magnetic_field = None
    h.eq(E.ferro(s), without, "field is switched off")


def scale(h):
    """Only the directions matter."""
    from magnopy import Energy

    m, a, b = _model(h)
    u, v = h.unit("eA"), h.unit("eB")
    r, t = h.real("r", positive=True), h.real("t", positive=True)
    E = Energy(m)
    if h.boolean("field"):
        E.magnetic_field = h.vector("B")
    one = E.ferro(h.np.array([u, v], dtype=float))
    h.eq(E.ferro(h.np.array([r * u, t * v], dtype=float)), one, "only directions of the spins matter")
    h.eq(E.ferro([list(u), list(v)]), one, "lists are accepted")


def notation(h):
    """The same model in another notation has the same energy."""
    from magnopy import Energy

    m, a, b = _model(h)
    u, v = h.unit("eA"), h.unit("eB")
    s = h.np.array([u, v], dtype=float)
    before = Energy(m).ferro(s)
    m.notation = (
        h.boolean("dc2"),
        h.boolean("norm2"),
        h.real("f2", nonzero=True),
        h.real("g2", nonzero=True),
    )
    h.eq(Energy(m).ferro(s), before, "energy does not depend on the notation")


def single(h):
    """One spin: both shapes are accepted."""
    from magnopy import Energy

    a = c.atom("A", 1, spin=h.real("sA", positive=True))
    m = c.model_of(h, [a], notation=(h.boolean("dc"), h.boolean("norm"), h.real("f", nonzero=True), h.real("g", nonzero=True)))
    R = h.ints("R")
    c.nonzero_R(h, R)
    m.add_exchange(a, a, R, matrix=h.matrix("J"))
    m.add_on_site(a, matrix=h.matrix("A"))
    u = h.unit("e")
    want = classical(h, m, dict(A=u))
    E = Energy(m)
    h.eq(E.ferro(u), want, "single spin as a vector")
    h.eq(E.ferro(h.np.array([u], dtype=float)), want, "single spin as a matrix")


def partial(h):
    """Only the parts of the notation that the model needs are set."""
    from magnopy import Energy

    a = c.atom("A", 1, spin=h.real("sA", positive=True))
    b = c.atom("B", 2, (0.25, 0.5, 0), spin=h.real("sB", positive=True))
    m = c.model_of(h, [a, b])
    m.double_counting = h.boolean("dc")
    m.spin_normalized = h.boolean("norm")
    m.exchange_factor = h.real("f", nonzero=True)
    J = h.matrix("J")
    m.add_exchange(a, b, h.ints("R"), matrix=J)
    u, v = h.unit("eA"), h.unit("eB")
    want = classical(h, m, dict(A=u, B=v))
    h.eq(Energy(m).ferro(h.np.array([u, v], dtype=float)), want, "energy of a model without on-site terms and factor")


def settings(h):
    """Spins and g factors of the Energy object can be replaced."""
    from magnopy import Energy

    m, a, b = _model(h)
    u, v = h.unit("eA"), h.unit("eB")
    s = h.np.array([u, v], dtype=float)
    E = Energy(m)
    h.eq(h.np.array(list(E.spins), dtype=float), h.np.array([a.spin, b.spin], dtype=float), "spins of the model")
    h.eq(
        h.np.array(list(E.g_factors), dtype=float),
        h.np.array([a.g_factor, b.g_factor], dtype=float),
        "g factors of the model",
    )
    B = h.vector("B")
    E.magnetic_field = B
    x, y = h.real("x"), h.real("y")
    given = [x, y]
    E.g_factors = given
    h.eq(h.np.array(list(E.g_factors), dtype=float), h.np.array([x, y], dtype=float), "g factors are replaced")
    a.g_factor, b.g_factor = x, y
    h.eq(E.ferro(s), classical(h, m, dict(A=u, B=v), B), "replaced g factors are used")


def settings_spins(h):
    from magnopy import Energy

    m, a, b = _model(h)
    h.assume(not m.spin_normalized)
    u, v = h.unit("eA"), h.unit("eB")
    s = h.np.array([u, v], dtype=float)
    E = Energy(m)
    x, y = h.real("x", positive=True), h.real("y", positive=True)
    E.spins = [x, y]
    h.eq(h.np.array(list(E.spins), dtype=float), h.np.array([x, y], dtype=float), "spins are replaced")
    a.spin, b.spin = x, y
    h.eq(E.ferro(s), classical(h, m, dict(A=u, B=v)), "replaced spins are used")


def wolfe(h):
    from magnopy import Energy

    m, a, b = _model(h)
    E = Energy(m)
    x, y = h.real("x"), h.real("y")
    E.wolfe_c1 = x
    E.wolfe_c2 = y
    h.eq(E.wolfe_c1, x, "c1 is stored")
    h.eq(E.wolfe_c2, y, "c2 is stored")
    n = h.choice("m", [1, 5, 20])
    E.m = n
    h.same(E.m, n, "m is stored")


def reject(h):
    from magnopy import Energy

    m, a, b = _model(h)
    E = Energy(m)
    bad = h.choice("bad", ["one", "three", "two components", "text"])
    value = {
        "one": [[0, 0, 1]],
        "three": [[0, 0, 1]] * 3,
        "two components": [[0, 1], [1, 0]],
        "text": "up and down",
    }[bad]
    h.true(h.raises(lambda: E.ferro(value), ValueError) is not None, "wrong orientations are rejected")
    wrong = h.choice("field", [[1, 2], [[1, 2, 3]], "text"])

    def fn():
        E.magnetic_field = wrong

    h.true(h.raises(fn, ValueError) is not None, "wrong field is rejected")


def larger(h):
    """More atoms and bonds."""
    from magnopy import Energy

    m, at, given, on = c.larger(h)
    e = {x.name: h.unit("e" + x.name) for x in m.magnetic_atoms}
    h.same(len(e), 4, "magnetic atoms")
    E = Energy(m)
    B = h.vector("B") if h.boolean("field") else None
    E.magnetic_field = B
    s = h.np.array([e[x.name] for x in m.magnetic_atoms], dtype=float)
    h.eq(E.ferro(s), classical(h, m, e, B), "energy of the classical Hamiltonian")


B = "2 atoms in either order; any matrices, spins > 0, g factors, nonzero factors, integer R, unit directions; "
HARNESSES = [
    H("energy", energy, bounds=B + "1 bond, 1 on-site"),
    H("energy_two_bonds", energy_two_bonds, tiers=("thorough",), bounds=B + "2 bonds, 1 on-site"),
    H("field", field, bounds=B + "any field"),
    H("scale", scale, bounds=B + "any positive lengths of the given vectors"),
    H("notation", notation, bounds=B + "any two notations"),
    H("single", single, bounds="1 atom, 1 bond, 1 on-site"),
    H("partial", partial, bounds="2 atoms, 1 bond; no on-site factor"),
    H("settings", settings, bounds=B + "any g factors"),
    H("settings_spins", settings_spins, bounds=B + "any spins > 0"),
    H("wolfe", wolfe, bounds="any real constants"),
    H("reject", reject, bounds="4 malformed orientations, 3 malformed fields"),
    H("larger", larger, bounds="6 atoms, 4 of them with interactions, 8 bonds, 3 on-site terms; any matrices, directions, field"),
]
