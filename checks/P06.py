"""Filters keep exactly what satisfies the condition."""
from symex.runner import H
from checks import common as c

ASSUMPTIONS = [
    "cubic, tetragonal and orthorhombic-like cells given by a symbolic diagonal; one skew cell",
    "max_distance is not negative",
]


def _model(h, dc, skew=False):
    a = c.atom("A", 1, (0, 0, 0))
    b = c.atom("B", 2, (h.real("px"), h.real("py"), h.real("pz")))
    s = [h.real(f"c{i}", positive=True) for i in range(3)]
    cell = h.np.array([[s[0], 0, 0], [0, s[1], 0], [0, 0, s[2]]], dtype=float)
    if skew:
        cell = h.np.array([[s[0], h.real("t0"), 0], [0, s[1], h.real("t1")], [0, 0, s[2]]], dtype=float)
    m = c.model_of(h, [a, b], cell=cell, notation=(dc, False, 1, 1))
    R, Q = h.ints("R"), h.ints("Q")
    c.nonzero_R(h, Q)
    J, K, A = h.matrix("J"), h.matrix("K"), h.matrix("A")
    m.add_exchange(a, b, R, matrix=J)
    m.add_exchange(b, b, Q, matrix=K)
    m.add_on_site(a, matrix=A)
    pb = b.position
    dR = h.np.array([R[i] + pb[i] for i in range(3)], dtype=float) @ cell
    dQ = h.np.array([Q[i] + pb[i] - pb[i] for i in range(3)], dtype=float) @ cell
    return m, a, b, R, Q, J, K, A, dR @ dR, dQ @ dQ


def _apply(h, m, kw):
    if h.boolean("filtered"):
        n0 = c.count_bonds(m)
        s0 = len(list(m.on_site))
        r = m.filtered(**kw)
        h.same(c.count_bonds(m), n0, "filtered() leaves the original alone")
        h.same(len(list(m.on_site)), s0, "filtered() leaves the original alone")
        h.true(r is not m, "filtered() returns a new object")
        h.eq(r.notation[2], m.notation[2], "filtered() keeps the notation")
        h.same(r.notation[:2], m.notation[:2], "filtered() keeps the notation")
        return r
    m.filter(**kw)
    return m


def _expect(h, r, keys, on, what):
    n = 0
    for a1, a2, R, M, keep in keys:
        k1, k2 = r.atoms[a1.index - 1], r.atoms[a2.index - 1]
        h.same((k1, k2, R) in r, keep, f"{what}: bond is kept exactly if the condition holds")
        if keep:
            h.eq(r[k1, k2, R].matrix, M, f"{what}: matrix of a kept bond")
            n += 2 if r.double_counting else 1
    h.same(c.count_bonds(r), n, f"{what}: number of kept bonds")
    for a, M, keep in on:
        k = r.atoms[a.index - 1]
        h.same(k in r, keep, f"{what}: on-site is kept exactly if the condition holds")
        if keep:
            h.eq(r[k].matrix, M, f"{what}: matrix of a kept on-site parameter")
    h.same(len(r.atoms), 2, f"{what}: atoms stay")


def distance(h, skew=False):
    m, a, b, R, Q, J, K, A, dR2, dQ2 = _model(h, h.boolean("dc"), skew)
    kind = h.choice("kind", ["max", "min", "both"])
    kw = {}
    lo = hi = None
    if kind in ("max", "both"):
        hi = h.real("hi", lo=0)
        kw["max_distance"] = hi
    if kind in ("min", "both"):
        lo = h.real("lo")
        kw["min_distance"] = lo

    def keep(d2):
        d = h.sqrt(d2)
        ok = True
        if hi is not None:
            if not h.symbolic and abs(d - hi) < 1e-9:
                h.assume(False)
            ok = ok and bool(d <= hi)
        if lo is not None:
            if not h.symbolic and abs(d - lo) < 1e-9:
                h.assume(False)
            ok = ok and bool(d >= lo)
        return ok

    r = _apply(h, m, kw)
    _expect(
        h,
        r,
        [(a, b, R, J, keep(dR2)), (b, b, Q, K, keep(dQ2))],
        [(a, A, lo is None or not bool(lo > 0))],
        kind,
    )


def distance_skew(h):
    distance(h, True)


def boundary(h):
    """The limits themselves are inside."""
    from magnopy import MatrixParameter

    a, b = c.atom("A", 1), c.atom("B", 2, (0.5, 0, 0))
    s = h.real("s", positive=True)
    m = c.model_of(
        h, [a, b], cell=h.np.array([[s, 0, 0], [0, s, 0], [0, 0, s]], dtype=float), notation=(h.boolean("dc"), False, 1, 1)
    )
    m.add_exchange(a, b, (0, 0, 0), iso=1)
    m.add_exchange(a, a, (1, 0, 0), iso=2)
    m.add_exchange(a, a, (2, 0, 0), iso=2)
    r = m.filtered(max_distance=s, min_distance=s)
    h.same(c.count_bonds(r), 2 if m.double_counting else 1, "boundary: one bond is kept")
    h.true((r.atoms[0], r.atoms[0], (1, 0, 0)) in r, "boundary: the bond at the limit is kept")


def custom(h):
    """A custom condition on the parameter."""
    m, a, b, R, Q, J, K, A, dR2, dQ2 = _model(h, h.boolean("dc"))
    t = h.real("t")
    r = _apply(h, m, dict(custom_filter=lambda p: p.iso > t))

    def keep(M):
        return bool((M[0, 0] + M[1, 1] + M[2, 2]) / 3 > t)

    _expect(h, r, [(a, b, R, J, keep(J)), (b, b, Q, K, keep(K))], [(a, A, keep(A))], "custom")


def larger(h):
    """More atoms and bonds; both limits and a condition at once."""
    m, at, given, on = c.larger(
        h,
        notation=(h.boolean("dc"), False, 1, 1),
        spins={x[0]: 1 for x in c.LARGER_ATOMS},
        matrix=lambda name: h.np.eye(3) * h.real(name),
    )
    given = given + [(x, None, None, M) for x, M in on]
    kind = h.choice("kind", ["min", "max", "all"])
    kw = {}
    if kind == "min":
        kw["min_distance"] = h.real("lo")
    if kind == "max":
        kw["max_distance"] = h.real("hi", lo=0)
    if kind == "all":
        kw = dict(min_distance=h.real("lo", lo=-1, hi=3), max_distance=4, custom_filter=lambda p: p.iso > 0)
        # the condition is decided in P06 custom; here for four of the terms
        for n, x in enumerate(given):
            if n not in (0, 3, 5, 9):
                h.assume(x[3][0, 0] > 0)
    keep = []
    for x, y, R, M in given:
        d = 0
        if y is not None:
            d = [(R[i] + y.position[i] - x.position[i]) * s for i, s in enumerate((3, 4, 7))]
            d = h.sqrt(sum(h.exact(v) ** 2 for v in d))
        ok = True
        if "min_distance" in kw:
            if not h.symbolic and abs(d - kw["min_distance"]) < 1e-9:
                h.assume(False)
            ok = ok and bool(d >= kw["min_distance"])
        # on-site terms have no distance: they are dropped by a positive lower limit only
        if "max_distance" in kw:
            if not h.symbolic and abs(d - kw["max_distance"]) < 1e-9:
                h.assume(False)
            ok = ok and bool(d <= kw["max_distance"])
        if "custom_filter" in kw:
            ok = ok and bool(M[0, 0] > 0)
        keep.append(ok)
    r = m.filtered(**kw)
    n = 0
    for (x, y, R, M), ok in zip(given, keep):
        key = [a for a in r.atoms if a.name == x.name][0]
        if y is not None:
            key = (key, [a for a in r.atoms if a.name == y.name][0], R)
            n += ok * (2 if m.double_counting else 1)
        h.same(key in r, ok, "larger: term is kept exactly if the condition holds")
        if ok:
            h.eq(r[key].matrix, M, "larger: matrix of a kept term")
    h.same(c.count_bonds(r), n, "larger: number of kept bonds")
    h.same([a.name for a in r.atoms], [a.name for a in m.atoms], "larger: atoms stay")


B = "2 atoms, 2 bonds, 1 on-site; any positive diagonal cell, position, integer R, limits; "
HARNESSES = [
    H("distance", distance, bounds=B + "distance limits"),
    H("distance_skew", distance_skew, tiers=("thorough",), bounds=B + "skew cell"),
    H("boundary", boundary, bounds="cubic cell of any size, limits equal to a bond length"),
    H("custom", custom, bounds=B + "threshold on the isotropic part"),
    H("larger", larger, bounds="6 atoms, 8 bonds, 3 on-site terms; any limits"),
]
