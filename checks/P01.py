"""Conversion between notations never changes the interactions."""
from symex.runner import H
from checks import common as c

ASSUMPTIONS = [
    "spin lengths are positive and the numerical factors nonzero",
    "no bond connects an atom with itself in the same unit cell",
    "a model without double counting does not list a bond and its mirror at once (the package takes care of it, see P02)",
]


def _model(h, dc, norm, second=True, on_site=2, same_index=False):
    from magnopy import MatrixParameter

    a = c.atom("A", 1, spin=h.real("sA", positive=True))
    b = c.atom("B", 2, (0.25, 0.5, 0), spin=h.real("sB", positive=True))
    m = c.model_of(
        h, [a, b], notation=(dc, norm, h.real("f", nonzero=True), h.real("g", nonzero=True))
    )
    bonds = []
    R = h.ints("R")
    m.add_exchange(a, b, R, MatrixParameter(matrix=h.matrix("J")))
    bonds.append((a, b, R))
    if second:
        Q = h.ints("Q")
        c.nonzero_R(h, Q)
        m.add_exchange(b, b, Q, MatrixParameter(matrix=h.matrix("K")))
        bonds.append((b, b, Q))
    if on_site:
        m.add_on_site(a, MatrixParameter(matrix=h.matrix("A")))
    if on_site > 1:
        m.add_on_site(b, MatrixParameter(matrix=h.matrix("B")))
    return m, (a, b), bonds


def _snapshot(h, m, atoms, bonds):
    return (
        [c.effective_exchange(h, m, *x) for x in bonds],
        [c.effective_on_site(h, m, x) for x in atoms],
    )


def _compare(h, before, after, what):
    for i, (x, y) in enumerate(zip(before[0], after[0])):
        h.eq(y, x, f"{what}: interaction of bond {i} is unchanged")
    for i, (x, y) in enumerate(zip(before[1], after[1])):
        h.eq(y, x, f"{what}: on-site interaction {i} is unchanged")


def _count(h, m, bonds, what):
    n = len(bonds) * (2 if m.double_counting else 1)
    h.same(c.count_bonds(m), n, f"{what}: number of listed bonds")


def convert(h):
    dc, norm = h.boolean("dc"), h.boolean("norm")
    m, atoms, bonds = _model(h, dc, norm)
    before = _snapshot(h, m, atoms, bonds)
    old = m.notation
    new = (
        h.boolean("dc2"),
        h.boolean("norm2"),
        h.real("f2", nonzero=True),
        h.real("g2", nonzero=True),
    )
    m.notation = new
    h.same(m.notation[0], new[0], "double counting is as requested")
    h.same(m.notation[1], new[1], "spin normalisation is as requested")
    h.eq(m.notation[2], new[2], "exchange factor is as requested")
    h.eq(m.notation[3], new[3], "on-site factor is as requested")
    _compare(h, before, _snapshot(h, m, atoms, bonds), "converted")
    _count(h, m, bonds, "converted")
    m.notation = old
    _compare(h, before, _snapshot(h, m, atoms, bonds), "back")
    _count(h, m, bonds, "back")


def round_trip(h):
    dc, norm = h.boolean("dc"), h.boolean("norm")
    m, atoms, bonds = _model(h, dc, norm, second=False, on_site=1)
    raw = [(tuple(x), h.np.array(p.matrix)) for *x, p in m.exchange]
    raw_s = [(x, h.np.array(p.matrix)) for x, p in m.on_site]
    old = m.notation
    m.notation = (
        h.boolean("dc2"),
        h.boolean("norm2"),
        h.real("f2", nonzero=True),
        h.real("g2", nonzero=True),
    )
    m.notation = old
    for (a1, a2, R), M in raw:
        total = h.np.zeros((3, 3))
        for x1, x2, Q, p in m.exchange:
            if x1 == a1 and x2 == a2 and tuple(Q) == R:
                total = total + h.np.array(p.matrix)
            elif not dc and x1 == a2 and x2 == a1 and tuple(Q) == c.neg(R):
                total = total + h.np.array(p.matrix).T
        h.eq(total, M, "stored exchange matrix is recovered")
    for x, M in raw_s:
        h.eq(m[x].matrix, M, "stored on-site matrix is recovered")


def setters(h):
    """Arbitrary short sequences of the four individual setters."""
    m, atoms, bonds = _model(h, h.boolean("dc"), h.boolean("norm"), second=False)
    before = _snapshot(h, m, atoms, bonds)
    for i in range(2):
        op = h.choice(f"op{i}", ["dc", "norm", "f", "g"])
        if op == "dc":
            v = h.boolean(f"v{i}")
            m.double_counting = v
            h.same(m.double_counting, v, "double counting is as requested")
        elif op == "norm":
            v = h.boolean(f"v{i}")
            m.spin_normalized = v
            h.same(m.spin_normalized, v, "spin normalisation is as requested")
        elif op == "f":
            v = h.real(f"x{i}", nonzero=True)
            m.exchange_factor = v
            h.eq(m.exchange_factor, v, "exchange factor is as requested")
        else:
            v = h.real(f"x{i}", nonzero=True)
            m.on_site_factor = v
            h.eq(m.on_site_factor, v, "on-site factor is as requested")
        _compare(h, before, _snapshot(h, m, atoms, bonds), f"after setter {op}")
        _count(h, m, bonds, f"after setter {op}")


NAMED = {
    "magnopy": (True, False, 0.5, 1),
    "tb2j": (True, True, -1, -1),
    "spinw": (True, False, 1, 1),
    "vampire": (True, True, -0.5, -1),
}


def named(h):
    m, atoms, bonds = _model(h, h.boolean("dc"), h.boolean("norm"), second=False, on_site=1)
    before = _snapshot(h, m, atoms, bonds)
    name = h.choice("name", list(NAMED))
    spelling = h.choice("spelling", [str.lower, str.upper, str.capitalize])
    m.notation = spelling(name)
    h.eq(
        h.np.array([float(x) for x in m.notation]),
        h.np.array([float(x) for x in NAMED[name]]),
        "named notation has the documented convention",
    )
    _compare(h, before, _snapshot(h, m, atoms, bonds), "named")


def three(h):
    m, atoms, bonds = _model(h, h.boolean("dc"), h.boolean("norm"), second=False, on_site=1)
    before = _snapshot(h, m, atoms, bonds)
    f = h.real("f2", nonzero=True)
    m.notation = (h.boolean("dc2"), h.boolean("norm2"), f)
    h.eq(m.exchange_factor, f, "three-element notation: exchange factor")
    h.eq(m.on_site_factor, f, "three-element notation: on-site factor")
    _compare(h, before, _snapshot(h, m, atoms, bonds), "three")


def declare(h):
    """Declaring the notation of a model that has none reinterprets, does not rescale."""
    from magnopy import MatrixParameter, SpinHamiltonian

    a = c.atom("A", 1, spin=h.real("sA", positive=True))
    b = c.atom("B", 2, (0.25, 0.5, 0), spin=h.real("sB", positive=True))
    m = c.model_of(h, [a, b])
    J, A = h.matrix("J"), h.matrix("A")
    R = h.ints("R")
    m.add_exchange(a, b, R, MatrixParameter(matrix=J))
    m.add_on_site(b, MatrixParameter(matrix=A))
    f, g = h.real("f", nonzero=True), h.real("g", nonzero=True)
    dc = h.boolean("dc")
    m.notation = (dc, h.boolean("norm"), f, g)
    total = []
    for x1, x2, Q, p in m.exchange:
        if x1 == a and x2 == b and tuple(Q) == R:
            total.append(h.np.array(p.matrix))
        elif x1 == b and x2 == a and tuple(Q) == c.neg(R):
            total.append(h.np.array(p.matrix).T)
        else:
            h.fail("declared: a bond that was never added is listed")
    h.same(len(total), 2 if dc else 1, "declared: number of listed bonds")
    for t in total:
        h.eq(t, J, "declared: the exchange matrix is kept")
    h.eq(m[b].matrix, A, "declared: the on-site matrix is kept")


def same_atom_names(h):
    """Two atoms of one species; bond inside the unit cell, either direction."""
    from magnopy import MatrixParameter

    a = c.atom("Cr", 1, spin=h.real("sA", positive=True))
    b = c.atom("Cr", 2, (0.5, 0.5, 0.5), spin=h.real("sB", positive=True))
    first, second = h.choice("direction", [(a, b), (b, a)])
    m = c.model_of(
        h,
        h.choice("order", [[a, b], [b, a]]),
        notation=(h.boolean("dc"), h.boolean("norm"), h.real("f", nonzero=True), 1),
    )
    R = (0, 0, 0)
    m.add_exchange(first, second, R, MatrixParameter(matrix=h.matrix("J")))
    bonds = [(first, second, R)]
    before = _snapshot(h, m, [a, b], bonds)
    m.notation = (h.boolean("dc2"), h.boolean("norm2"), h.real("f2", nonzero=True), 1)
    _compare(h, before, _snapshot(h, m, [a, b], bonds), "in-cell bond")
    _count(h, m, bonds, "in-cell bond")
    m.double_counting = not m.double_counting
    _compare(h, before, _snapshot(h, m, [a, b], bonds), "in-cell bond, switched")
    _count(h, m, bonds, "in-cell bond, switched")


def equal_indices(h):
    """Atoms of different names may share an index (after removals and additions)."""
    from magnopy import MatrixParameter

    a = c.atom("A", 2, spin=h.real("sA", positive=True))
    b = c.atom("B", 2, (0.5, 0.5, 0.5), spin=h.real("sB", positive=True))
    first, second = h.choice("direction", [(a, b), (b, a)])
    m = c.model_of(h, [a, b], notation=(h.boolean("dc"), False, 1, 1))
    R = h.ints("R")
    m.add_exchange(first, second, R, MatrixParameter(matrix=h.matrix("J")))
    bonds = [(first, second, R)]
    before = _snapshot(h, m, [a, b], bonds)
    for i in range(2):
        m.double_counting = h.boolean(f"dc{i}")
        _compare(h, before, _snapshot(h, m, [a, b], bonds), "equal indices")
        _count(h, m, bonds, "equal indices")


def shared(h):
    """One parameter object used for several bonds and atoms."""
    from magnopy import MatrixParameter

    a = c.atom("A", 1, spin=h.real("sA", positive=True))
    b = c.atom("B", 2, (0.25, 0.5, 0), spin=h.real("sB", positive=True))
    m = c.model_of(
        h, [a, b], notation=(False, h.boolean("norm"), h.real("f", nonzero=True), h.real("g", nonzero=True))
    )
    J = MatrixParameter(matrix=h.matrix("J"))
    bonds = [(a, b, (0, 0, 0)), (a, b, (1, 0, 0)), (a, a, (0, 1, 0))]
    for x in bonds:
        m.add_exchange(*x, J)
    m.add_on_site(a, J)
    m.add_on_site(b, J)
    before = _snapshot(h, m, [a, b], bonds)
    m.notation = (
        h.boolean("dc2"),
        h.boolean("norm2"),
        h.real("f2", nonzero=True),
        h.real("g2", nonzero=True),
    )
    _compare(h, before, _snapshot(h, m, [a, b], bonds), "shared parameter object")


def larger(h):
    """More atoms and bonds: every one of them."""
    m, at, given, on = c.larger(h)
    bonds = [x[:3] for x in given]
    atoms = list(at.values())
    before = _snapshot(h, m, atoms, bonds)
    m.notation = (h.boolean("dc2"), h.boolean("norm2"), h.real("f2", nonzero=True), h.real("g2", nonzero=True))
    _compare(h, before, _snapshot(h, m, atoms, bonds), "converted")
    _count(h, m, bonds, "converted")


B = "2 atoms; all real matrices, spins > 0, nonzero factors, all integer R; "
HARNESSES = [
    H("convert", convert, bounds=B + "2 bonds, 2 on-site terms, one notation assignment and back"),
    H("round_trip", round_trip, bounds=B + "1 bond, 1 on-site, there and back"),
    H("setters", setters, bounds=B + "1 bond, 2 on-site, all sequences of 2 setters"),
    H("named", named, bounds=B + "1 bond, 1 on-site, 4 named notations in 3 spellings"),
    H("three", three, bounds=B + "1 bond, 1 on-site"),
    H("declare", declare, bounds=B + "1 bond, 1 on-site, notation set for the first time"),
    H("same_atom_names", same_atom_names, bounds="2 atoms of one name in either order, 1 in-cell bond"),
    H("equal_indices", equal_indices, bounds="2 atoms with one index, 1 bond, any integer R, two switches"),
    H("shared", shared, bounds="2 atoms, 3 bonds and 2 on-site terms from one parameter object"),
    H("larger", larger, bounds="6 atoms, 8 bonds, 3 on-site terms; any matrices, spins and factors"),
]
