"""Double counting: every bond is listed together with its mirror, consistently."""
from symex.runner import H
from checks import common as c

ASSUMPTIONS = [
    "no bond connects an atom with itself in the same unit cell",
    "parameters are changed through the methods of the Hamiltonian",
]


def _atoms(h, spin=False):
    a = c.atom("A", 1)
    b = c.atom("B", 2, (0.25, 0.5, 0))
    return a, b


def _invariant(h, m, what):
    bonds = list(m.exchange)
    for a1, a2, R, p in bonds:
        mirrors = [
            q for b1, b2, Q, q in bonds if b1 == a2 and b2 == a1 and tuple(Q) == c.neg(R)
        ]
        if m.double_counting:
            h.same(len(mirrors), 1, f"{what}: the mirror of each bond is listed once")
            h.eq(mirrors[0].matrix, h.np.array(p.matrix).T, f"{what}: mirror has the transposed matrix")
            h.true(
                (a2, a1, c.neg(R)) in m, f"{what}: the mirror of each bond is in the Hamiltonian"
            )
        else:
            h.same(len(mirrors), 0, f"{what}: no bond is listed twice")


def _start(h, notation):
    from magnopy import MatrixParameter

    a, b = _atoms(h)
    m = c.model_of(h, [a, b], notation=notation)
    R = h.ints("R")
    first, second = h.choice("pair", [(a, b), (b, b)])
    if first is second:
        c.nonzero_R(h, R)
    m.add_exchange(first, second, R, MatrixParameter(matrix=h.matrix("J")))
    m.add_on_site(a, MatrixParameter(matrix=h.matrix("A")))
    return m, a, b, (first, second, R)


def step(h):
    """One operation, from a state in which the invariant holds."""
    from magnopy import MatrixParameter

    m, a, b, (first, second, R) = _start(h, (True, False, 1, 1))
    _invariant(h, m, "added")
    op = h.choice(
        "op", ["add", "set", "set same", "set mirror", "remove", "del mirror", "remove atom", "filter", "string"]
    )
    before = [(x, h.np.array(p.matrix)) for *x, p in m.exchange]
    if op in ("add", "set", "string"):
        Q = h.ints("Q")
        x, y = h.choice("pair2", [(a, b), (b, a), (b, b)])
        if x is y:
            c.nonzero_R(h, Q)
        K = h.matrix("K")
        if op == "add":
            m.add_exchange(x, y, Q, matrix=K)
        elif op == "set":
            m[x, y, Q] = MatrixParameter(matrix=K)
        else:
            m[x.fullname, y.name, Q] = MatrixParameter(matrix=K)
        h.eq(m[x, y, Q].matrix, K, f"{op}: the new matrix is stored")
        h.eq(m[y, x, c.neg(Q)].matrix, h.np.array(K).T, f"{op}: the mirror is stored")
    elif op == "set same":
        K = h.matrix("K")
        m[first, second, R] = MatrixParameter(matrix=K)
        h.eq(m[first, second, R].matrix, K, f"{op}: the new matrix is stored")
        h.same(c.count_bonds(m), 2, f"{op}: number of bonds")
    elif op == "set mirror":
        K = h.matrix("K")
        m.add_exchange(second, first, c.neg(R), MatrixParameter(matrix=K))
        h.eq(m[first, second, R].matrix, h.np.array(K).T, f"{op}: the bond follows its mirror")
        h.same(c.count_bonds(m), 2, f"{op}: number of bonds")
    elif op == "remove":
        m.remove_exchange(first, second, R)
        h.same(c.count_bonds(m), 0, f"{op}: both directions are gone")
    elif op == "del mirror":
        del m[second, first, c.neg(R)]
        h.same(c.count_bonds(m), 0, f"{op}: both directions are gone")
    elif op == "remove atom":
        m.remove_atom(h.choice("which", [a, b]))
    elif op == "filter":
        d = h.real("d", positive=True)
        kind = h.choice("kind", ["max", "min"])
        if kind == "max":
            m.filter(max_distance=d)
        else:
            m.filter(min_distance=d)
    _invariant(h, m, op)


def step_off(h):
    """One operation on a model without double counting: every bond stays listed once."""
    from magnopy import MatrixParameter

    m, a, b, (first, second, R) = _start(h, (False, h.boolean("normalized"), 1, 1))
    J = h.np.array(m[first, second, R].matrix)
    _invariant(h, m, "added")
    h.same(c.count_bonds(m), 1, "added: one bond")
    op = h.choice("op", ["mirror", "set mirror", "same", "other", "remove", "remove atom", "declare again"])
    K = h.matrix("K")
    if op == "mirror":
        m.add_exchange(second, first, c.neg(R), matrix=K)
    elif op == "set mirror":
        m[second.name, first.fullname, c.neg(R)] = MatrixParameter(matrix=K)
    elif op == "same":
        m.add_exchange(first, second, R, matrix=K)
    elif op == "other":
        Q = h.ints("Q")
        x, y = h.choice("pair2", [(a, b), (b, a), (b, b)])
        if x is y:
            c.nonzero_R(h, Q)
        m.add_exchange(x, y, Q, matrix=K)
        got = c.listed(m, x, y, Q) + [h.np.array(M).T for M in c.listed(m, y, x, c.neg(Q))]
        h.same(len(got), 1, "other: the bond is listed once")
        h.eq(got[0], K, "other: the new matrix is stored")
        same = {first.name, second.name} == {x.name, y.name} and (
            (first is x and second is y and bool(c._eq_R(h, Q, R)))
            or (first is y and second is x and bool(c._eq_R(h, Q, c.neg(R))))
        )
        h.same(c.count_bonds(m), 1 if same else 2, "other: number of bonds")
    elif op == "remove":
        m.remove_exchange(first, second, R)
        h.same(c.count_bonds(m), 0, "remove: the bond is gone")
    elif op == "remove atom":
        m.remove_atom(second)
        h.same(c.count_bonds(m), 0, "remove atom: the bond is gone")
    elif op == "declare again":
        m.double_counting = False
        m.exchange_factor = 1
        K = J
    _invariant(h, m, op)
    if op in ("mirror", "set mirror", "same", "declare again"):
        got = c.listed(m, first, second, R) + [h.np.array(M).T for M in c.listed(m, second, first, c.neg(R))]
        h.same(len(got), 1, f"{op}: the bond is listed once")
        h.eq(got[0], K.T if "mirror" in op else K, f"{op}: the last matrix is stored")
        h.same(c.count_bonds(m), 1, f"{op}: number of bonds")


def switch(h):
    """The invariant holds after double counting is switched on and off."""
    m, a, b, (first, second, R) = _start(h, h.choice("start", [None, (True, False, 1, 1), (False, False, 1, 1)]))
    Q = h.ints("Q")
    J1, J2 = h.np.array(m[first, second, R].matrix), h.matrix("K")
    x, y = (first, second) if first is second else h.choice("pair2", [(first, second), (second, first)])
    # a bond other than the first one and other than its mirror
    if first is second or x is first:
        c.not_same_R(h, Q, R)
    if first is second or x is second:
        c.not_same_R(h, Q, c.neg(R))
    if second is first:
        c.nonzero_R(h, Q)
    m.add_exchange(x, y, Q, matrix=J2)
    for i in range(2):
        m.double_counting = h.boolean(f"dc{i}")
        _invariant(h, m, "switched")
        h.same(c.count_bonds(m), 4 if m.double_counting else 2, "switched: number of bonds")
        for a1, a2, S, K in ((first, second, R, J1), (x, y, Q, J2)):
            got = c.listed(m, a1, a2, S) + [h.np.array(K2).T for K2 in c.listed(m, a2, a1, c.neg(S))]
            h.same(len(got), 2 if m.double_counting else 1, "switched: each bond is kept")
            h.true(h.lor(*[got[0][0, 1] == f * K[0, 1] for f in (0.5, 1, 2)]), "switched: matrix of the bond")
            h.true(h.lor(*[got[0][2, 1] == f * K[2, 1] for f in (0.5, 1, 2)]), "switched: matrix of the bond")


def declared_pairs(h):
    """A model that lists both directions before its notation is declared."""
    from magnopy import MatrixParameter

    a, b = _atoms(h)
    m = c.model_of(h, [a, b])
    R = h.ints("R")
    J = h.matrix("J")
    m.add_exchange(a, b, R, matrix=J)
    m.add_exchange(b, a, c.neg(R), MatrixParameter(matrix=J).T)
    h.same(c.count_bonds(m), 2, "undeclared: both are kept")
    m.notation = (h.boolean("dc"), False, 1, 1)
    _invariant(h, m, "declared")
    h.same(c.count_bonds(m), 2 if m.double_counting else 1, "declared: number of bonds")
    for a1, a2, Q, p in m.exchange:
        if a1 == a:
            h.eq(p.matrix, J, "declared: the matrix is kept")
        else:
            h.eq(p.matrix, h.np.array(J).T, "declared: the mirror is kept")


def canonical(h):
    """Without double counting the documented direction of each bond is kept."""
    a, b = _atoms(h)
    m = c.model_of(h, [a, b])
    R = h.ints("R")
    first, second = h.choice("pair", [(a, b), (b, a), (a, a)])
    if first is second:
        c.nonzero_R(h, R)
    J = h.matrix("J")
    m.add_exchange(first, second, R, matrix=J)
    m.notation = (False, False, 1, 1)
    h.same(c.count_bonds(m), 1, "canonical: one bond")
    for a1, a2, (i, j, k), p in m.exchange:
        h.true(
            h.lor(
                i > 0,
                h.land(i == 0, j > 0),
                h.land(i == 0, j == 0, k > 0),
                h.land(i == 0, j == 0, k == 0, a1.index <= a2.index),
            ),
            "canonical: documented direction",
        )
        if a1 == first and a2 == second and (i, j, k) == R:
            h.eq(p.matrix, J, "canonical: matrix")
        else:
            h.eq(p.matrix, h.np.array(J).T, "canonical: transposed matrix")


B = "2 atoms; all real matrices and all integer R; "
HARNESSES = [
    H("step", step, bounds=B + "1 bond, one operation of nine kinds from a state with the invariant"),
    H("step_off", step_off, bounds=B + "1 bond without double counting, one operation of seven kinds"),
    H("switch", switch, bounds=B + "2 bonds, two switches from undeclared, on and off"),
    H("declared_pairs", declared_pairs, bounds=B + "1 bond given in both directions"),
    H("canonical", canonical, bounds=B + "1 bond"),
]
