"""Energies of the spiral and antiferromagnetic cone states."""
from symex.runner import H
from checks import common as c

ASSUMPTIONS = [
    "no bond connects an atom with itself in the same unit cell",
    "spin lengths are positive",
    "trigonometric functions enter through cos^2+sin^2=1 and the addition theorems",
]


def rotate(h, n, cs, sn, v):
    """v rotated about the unit vector n by the angle of the given cosine and sine."""
    np = h.np
    cross = np.array(
        [n[1] * v[2] - n[2] * v[1], n[2] * v[0] - n[0] * v[2], n[0] * v[1] - n[1] * v[0]], dtype=float
    )
    return cs * v + sn * cross + (1 - cs) * (n @ v) * n


def _model(h, on_site=True):
    a = c.atom("A", 1, spin=h.real("sA", positive=True), g_factor=h.real("gA"))
    b = c.atom("B", 2, (0.25, 0.5, 0), spin=h.real("sB", positive=True), g_factor=h.real("gB"))
    s = h.real("cell", positive=True)
    cell = h.np.array([[s, 0, 0], [0.5, 2, 0], [0, 0, 3]], dtype=float)
    m = c.model_of(
        h,
        [a, b],
        cell=cell,
        notation=(h.boolean("dc"), h.boolean("norm"), h.real("f", nonzero=True), h.real("g", nonzero=True)),
    )
    return m, a, b, cell


def averaged(h, m, cell, e, n, q, angles, field=None):
    """Energy per cell of the state in which the spins of the cell at r are turned about n
    by q.r, averaged over the given starting angles (cosine, sine)."""
    total = 0
    for x, y, R, p in m.exchange:
        d = h.np.array(list(R), dtype=float) @ cell
        ph = q @ d
        cph, sph = h.cos(ph), h.sin(ph)
        w = m.exchange_factor * c.spin_weight(m, x) * c.spin_weight(m, y)
        for ct, st in angles:
            left = rotate(h, n, ct, st, e[x.name])
            right = rotate(h, n, ct * cph - st * sph, st * cph + ct * sph, e[y.name])
            total = total + w * (left @ p.matrix @ right) / len(angles)
    for x, p in m.on_site:
        w = m.on_site_factor * c.spin_weight(m, x) ** 2
        for ct, st in angles:
            v = rotate(h, n, ct, st, e[x.name])
            total = total + w * (v @ p.matrix @ v) / len(angles)
    if field is not None:
        from magnopy.units.inside import ENERGY
        from magnopy.units.si import BOHR_MAGNETON

        mu = BOHR_MAGNETON / ENERGY
        for x in m.magnetic_atoms:
            for ct, st in angles:
                v = rotate(h, n, ct, st, e[x.name])
                total = total + mu * x.g_factor * x.spin * (field @ v) / len(angles)
    return total


FULL = [(1, 0), (0, 1), (-1, 0), (0, -1)]
HALF = [(1, 0), (-1, 0)]


def spiral(h, R=None, on_site=True):
    from magnopy import Energy

    m, a, b, cell = _model(h)
    R = R if R is not None else h.choice("R", [(1, 0, 0), (0, -1, 2), (0, 0, 0)])
    m.add_exchange(a, b, R, matrix=h.matrix("J"))
    if on_site:
        m.add_on_site(b, matrix=h.matrix("B"))
    e = dict(A=h.unit("eA"), B=h.unit("eB"))
    n = h.unit("n")
    q = h.vector("q")
    want = averaged(h, m, cell, e, n, q, FULL)
    E = Energy(m)
    s = h.np.array([e["A"], e["B"]], dtype=float)
    s0, n0, q0 = h.np.array(s), h.np.array(n), h.np.array(q)
    h.eq(E.spiral(s, n, q), want, "energy of the spiral state, averaged over the phase")
    h.eq(s, s0, "orientation is not changed")
    h.eq(n, n0, "cone axis is not changed")
    h.eq(q, q0, "spiral vector is not changed")


def spiral_field(h):
    from magnopy import Energy

    m, a, b, cell = _model(h)
    m.add_exchange(a, b, (1, 0, 0), iso=h.real("J"))
    e = dict(A=h.unit("eA"), B=h.unit("eB"))
    n, q, B = h.unit("n"), h.vector("q"), h.vector("B")
    E = Energy(m)
    E.magnetic_field = B
    h.eq(
        E.spiral(h.np.array([e["A"], e["B"]], dtype=float), n, q),
        averaged(h, m, cell, e, n, q, FULL, B),
        "energy of the spiral state in a field",
    )


def antiferro(h):
    """2q is a reciprocal lattice vector: the phase between cells is 0 or pi."""
    from magnopy import Energy

    m, a, b, cell = _model(h)
    R = h.choice("R", [(1, 0, 0), (0, -1, 2), (1, 1, 0)])
    m.add_exchange(a, b, R, matrix=h.matrix("J"))
    m.add_on_site(b, matrix=h.matrix("B"))
    e = dict(A=h.unit("eA"), B=h.unit("eB"))
    n = h.unit("n")
    half = h.choice("half", [(1, 0, 0), (0, 1, 1), (1, 1, 0)])
    recip = h.np.array(m.reciprocal_cell)
    q = (h.np.array(half, dtype=float) @ recip) / 2
    E = Energy(m)
    B = None
    if h.boolean("field"):
        B = h.vector("B")
        E.magnetic_field = B
    parity = sum(x * y for x, y in zip(half, R)) % 2
    sign = -1 if parity else 1
    total = 0
    for x, y, Q, p in m.exchange:
        w = m.exchange_factor * c.spin_weight(m, x) * c.spin_weight(m, y)
        for t in (1, -1):
            left = rotate(h, n, t, 0, e[x.name])
            right = rotate(h, n, t * sign, 0, e[y.name])
            total = total + w * (left @ p.matrix @ right) / 2
    rest = averaged(h, _Site(m), cell, e, n, q, HALF, B)
    got = E.antiferro(h.np.array([e["A"], e["B"]], dtype=float), n, q)
    h.eq(got, total + rest, "energy of the antiferromagnetic cone state")


class _Site:
    """The model without its exchange."""

    def __init__(self, m):
        self.exchange = []
        self.on_site = m.on_site
        self.on_site_factor = m.on_site_factor
        self.spin_normalized = m.spin_normalized
        self.magnetic_atoms = m.magnetic_atoms


def scale(h):
    from magnopy import Energy

    m, a, b, cell = _model(h)
    m.add_exchange(a, b, (1, 0, 0), matrix=h.matrix("J"))
    u, v, n = h.unit("eA"), h.unit("eB"), h.unit("n")
    r, t, w = h.real("r", positive=True), h.real("t", positive=True), h.real("w", positive=True)
    q = h.vector("q")
    E = Energy(m)
    fn = h.choice("state", [E.spiral, E.antiferro])
    one = fn(h.np.array([u, v], dtype=float), n, q)
    h.eq(fn(h.np.array([r * u, t * v], dtype=float), w * n, q), one, "only directions matter")


def reversal(h):
    """Turning about -n by q is turning about n by -q."""
    from magnopy import Energy

    m, a, b, cell = _model(h)
    m.add_exchange(a, b, (1, 0, 0), matrix=h.matrix("J"))
    u, v, n = h.unit("eA"), h.unit("eB"), h.unit("n")
    q = h.vector("q")
    E = Energy(m)
    s = h.np.array([u, v], dtype=float)
    h.eq(E.spiral(s, -n, q), E.spiral(s, n, -q), "reversal of the axis")


def along_axis(h):
    """Spins along the axis do not turn: all three energies agree."""
    from magnopy import Energy

    m, a, b, cell = _model(h)
    m.add_exchange(a, b, (1, 0, 0), matrix=h.matrix("J"))
    m.add_on_site(b, matrix=h.matrix("B"))
    n = h.unit("n")
    q = h.vector("q")
    s = h.np.array([n, h.choice("sign", [1, -1]) * n], dtype=float)
    E = Energy(m)
    if h.boolean("field"):
        E.magnetic_field = h.vector("B")
    one = E.ferro(s)
    h.eq(E.spiral(s, n, q), one, "spiral energy of spins along the axis")
    h.eq(E.antiferro(s, n, q), one, "antiferro energy of spins along the axis")


def larger(h):
    """More atoms and bonds."""
    from magnopy import Energy

    np = h.np
    cell = np.array([[2, 0, 0], [0.5, 2, 0], [0, 0, 3]], dtype=float)
    bonds = [b for b in c.LARGER_BONDS if max(map(abs, b[2])) < 10]

    def matrix(name):
        x = h.reals(name, 3)
        return np.array([[x[0], x[1], 0], [-x[1], x[0], x[2]], [0, x[2], 1]], dtype=float)

    m, at, given, on = c.larger(h, cell=cell, bonds=bonds, matrix=matrix, notation=(h.boolean("dc"), h.boolean("norm"), 2, 3))
    names = [x.name for x in m.magnetic_atoms]
    e = {x: h.unit("e" + x) for x in names}
    n = np.array([h.frac(3, 5), 0, h.frac(4, 5)])
    s = np.array([e[x] for x in names], dtype=float)
    E = Energy(m)
    if h.boolean("spiral"):
        q = np.array([h.real("q"), 0, 0], dtype=float)
        h.eq(E.spiral(s, n, q), averaged(h, m, cell, e, n, q, FULL), "energy of the spiral state")
        return
    half = (1, 1, 0)
    q = (np.array(half, dtype=float) @ np.array(m.reciprocal_cell)) / 2
    total = 0
    for x, y, R, p in m.exchange:
        w = m.exchange_factor * c.spin_weight(m, x) * c.spin_weight(m, y)
        sign = -1 if sum(i * j for i, j in zip(half, R)) % 2 else 1
        for t in (1, -1):
            left, right = rotate(h, n, t, 0, e[x.name]), rotate(h, n, t * sign, 0, e[y.name])
            total = total + w * (left @ p.matrix @ right) / 2
    rest = averaged(h, _Site(m), cell, e, n, q, HALF)
    h.eq(E.antiferro(s, n, q), total + rest, "energy of the antiferromagnetic cone state")


B = "2 atoms, 1 bond, any matrices, spins > 0, nonzero factors, directions, axis, spiral vector; "
HARNESSES = [
    H("spiral", spiral, bounds=B + "3 bond vectors, 1 on-site"),
    H("spiral_field", spiral_field, bounds=B + "isotropic exchange, any field and g factors"),
    H("antiferro", antiferro, bounds=B + "3 bond vectors, 3 q vectors, optional field"),
    H("scale", scale, bounds=B + "any positive lengths"),
    H("reversal", reversal, bounds=B + "spiral"),
    H("along_axis", along_axis, bounds=B + "spins along the cone axis"),
    H("larger", larger, bounds="6 atoms, 4 of them with interactions, 6 bonds, 3 on-site terms; three numbers in a matrix, any directions, spiral vector along x"),
]
