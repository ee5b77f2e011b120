"""Angles of vectors."""
from symex.runner import H

ASSUMPTIONS = ["directions within 1e-8 of the z axis may be reported as the axis"]


def _angles(h, v, degrees):
    from magnopy.geometry import vector_to_angles

    if degrees is None:
        return vector_to_angles(v), True
    return vector_to_angles(v, in_degrees=degrees), degrees


def _check(h, v, degrees):
    np = h.np
    (m, t, f), deg = _angles(h, np.array(list(v), dtype=float), degrees)
    full = 180 if deg else h.pi
    h.true(h.land(t >= 0, t <= full), "range of the polar angle")
    h.true(h.land(f >= 0, f <= 2 * full), "range of the azimuthal angle")
    h.true(m >= 0, "length is not negative")
    h.eq(m * m, sum(x * x for x in v), "length")
    if deg:
        t, f = t * h.pi / 180, f * h.pi / 180
    got = [m * h.sin(t) * h.cos(f), m * h.sin(t) * h.sin(f), m * h.cos(t)]
    for a, b, name in zip(got, v, "xyz"):
        h.eq(a, b, f"{name} component from the angles", tol=m * h.frac(2, 10**5))


def plane(h):
    """Vectors in the coordinate planes."""
    a, b = h.real("a"), h.real("b")
    v = h.choice("plane", [(a, b, 0), (a, 0, b), (0, a, b)])
    _check(h, v, h.choice("degrees", [None, True, False]))


def special(h):
    """Vectors with rational directions, any length."""
    s = h.real("s", nonzero=True)
    d = h.choice(
        "direction",
        [(1, 2, 2), (-1, 2, 2), (1, -2, 2), (-1, -2, 2), (2, 1, -2), (-2, 1, -2), (2, -1, -2), (-2, -1, -2), (3, 4, 12), (-4, -3, 12)],
    )
    _check(h, [s * x for x in d], h.choice("degrees", [None, False]))


def general(h):
    """Any vector."""
    _check(h, h.reals("v", 3), h.choice("degrees", [None, False]))


HARNESSES = [
    H("plane", plane, bounds="any vector in a coordinate plane, zero included"),
    H("special", special, bounds="10 directions; any length and sign"),
    H("general", general, bounds="any vector"),
]
