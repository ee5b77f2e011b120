"""Linear spin-wave Hamiltonian and magnon energies of a model."""
from symex.runner import H
from checks import common as c

ASSUMPTIONS = [
    "numpy.linalg: cholesky, inverse and eigen-solver are exact; the eigen-solver of Hermitian matrices (blocks up to 2x2) returns orthonormal vectors",
    "scipy Rotation.from_rotvec is the Rodrigues rotation",
]


def _disp(m):
    from magnopy import MagnonDispersion

    return MagnonDispersion(m)


def _notation(h):
    return (h.boolean("dc"), h.boolean("normalized"), h.real("ex", nonzero=True), h.real("on", nonzero=True))


def _sym_matrix(h, name):
    a = h.reals(name, 6)
    return h.np.array([[a[0], a[3], a[4]], [a[3], a[1], a[5]], [a[4], a[5], a[2]]], dtype=float)


def _dot(u, v):
    return u[0] * v[0] + u[1] * v[1] + u[2] * v[2]


def _quad(u, M, v):
    return sum(u[i] * M[i][j] * v[j] for i in range(3) for j in range(3))


def _abs2(h, z):
    return h.np.real(z * h.np.conjugate(z))


def _hermitian(h, K, label="Hermitian"):
    h.eq(K, h.np.conjugate(K).T, label)


FRAMES = [
    # spin direction and two vectors that make a right-handed frame with it
    ((0, 0, 1), (1, 0, 0), (0, 1, 0)),
    ((0, 0, -1), (0, 1, 0), (1, 0, 0)),
    ((1, 0, 0), (0, 1, 0), (0, 0, 1)),
    ((0, -1, 0), (0, 0, -1), (1, 0, 0)),
    ((0.6, 0, 0.8), (0, 1, 0), (-0.8, 0, 0.6)),
    ((0.48, -0.6, -0.64), (0.8, 0, 0.6), (-0.36, -0.8, 0.48)),
]


def _exact(h, frame):
    """Numbers like 0.48 as exact decimal fractions."""
    return tuple(tuple(h.frac(round(x * 100), 100) for x in v) for v in frame)


def _is_real(h, values):
    if not h.symbolic:
        return bool(h.np.isrealobj(values))
    return not any(type(x).__name__ == "SymC" for x in values.reshape(-1))


def one_axis(h):
    """One spin, any matrices: every entry of h(k)."""
    np = h.np
    n, e1, e2 = _exact(h, h.choice("direction", FRAMES))
    S = h.real("S", positive=True)
    k, d = h.vector("k"), (2, 0, 1)
    m = c.model_of(h, [], cell=[[2, 0, 0], [0, 3, 0], [0, 0, 1]], notation=_notation(h))
    m.add_atom("Fe", position=h.vector("p"), spin=[S * x for x in n])
    fe = m.atoms[0]
    m.add_exchange(fe, fe, (1, 0, 1), matrix=h.matrix("J"))
    m.add_on_site(fe, matrix=_sym_matrix(h, "K"))
    M = c.effective_exchange(h, m, fe, fe, (1, 0, 1))
    A = c.effective_on_site(h, m, fe)
    before = c.snapshot(h, m)
    disp = _disp(m)
    # array-like: any kind of sequence
    K = disp.h(tuple(k)) if h.boolean("tuple") else disp.h(k)
    h.eq(2 * disp.A(list(k)) - 2 * disp.C(), K[:1, :1], "A(k) and C of a list")
    h.eq(2 * disp.B(list(k)), K[:1, 1:], "B(k) of a list")
    h.eq(np.array(disp.J(list(k))), np.array(disp.J(k)), "J(k) of a list")
    c.unchanged(h, before, c.snapshot(h, m), "dispersion")
    h.same(tuple(K.shape), (2, 2), "size of the matrix")
    _hermitian(h, K)
    kd = _dot(k, d)
    co, si = h.cos(kd), h.sin(kd)
    Ms, Ma = (M + M.T) / 2, (M - M.T) / 2

    def entry(sign):
        N = Ms * co + A
        return (
            (_quad(e1, N, e1) + _quad(e2, N, e2) + sign * 2 * si * _quad(e1, Ma, e2)) / S
            - 2 * _quad(n, Ms + A, n) / S
        )

    h.eq(np.real(K[0, 0]), entry(1), "magnon with the wave vector k")
    h.eq(np.real(K[1, 1]), entry(-1), "magnon with the wave vector -k")
    N = Ms * co + A
    x, y = _quad(e1, N, e1) - _quad(e2, N, e2), 2 * _quad(e1, N, e2)
    h.eq(_abs2(h, K[0, 1]) * S * S, x * x + y * y, "coupling of k and -k")


def direction(h):
    """One spin in any direction, frame-free."""
    np = h.np
    n = h.unit("n")
    # directions next to the z axis are treated as the z axis
    h.assume(h.lor(n[0] * n[0] > 1e-4, n[1] * n[1] > 1e-4))
    S = h.real("S", positive=True)
    m = c.model_of(h, [], cell=h.np.eye(3), notation=(False, False, 1, 1))
    m.add_atom("Fe", spin=[S * x for x in n])
    fe = m.atoms[0]
    D = h.vector("D")
    K0 = h.reals("K", 3)
    m.add_exchange(fe, fe, (1, 0, 0), iso=h.real("J"), dmi=D)
    m.add_on_site(fe, matrix=np.diag(K0))
    kx = h.real("kx")
    K = _disp(m).h((kx, 0, 0))
    M = c.effective_exchange(h, m, fe, fe, (1, 0, 0))
    A = c.effective_on_site(h, m, fe)
    iso = M[0][0]
    dm = [M[1][2] - M[2][1], M[2][0] - M[0][2], M[0][1] - M[1][0]]
    co, si = h.cos(kx), h.sin(kx)
    ani = _quad(n, A, n)
    tr = A[0][0] + A[1][1] + A[2][2]
    for sign in (1, -1):
        got = np.real(K[0, 0] if sign == 1 else K[1, 1]) * S
        h.eq(got, 2 * iso * (co - 1) + tr - 3 * ani + sign * si * _dot(dm, n), "magnon with the wave vector k and -k")


def two(h):
    """Two spins: every gauge-independent combination of the entries of h(k)."""
    np = h.np
    f = [h.choice("first", FRAMES[:1] + FRAMES[4:]), h.choice("second", FRAMES[1:4] + FRAMES[5:])]
    f = [_exact(h, x) for x in f]
    S = [h.real("S0", positive=True), h.real("S1", positive=True)]
    k = h.vector("k")
    m = c.model_of(h, [], cell=np.eye(3), notation=(h.boolean("dc"), h.boolean("normalized"), 1, 1))
    m.add_atom("A", position=(0, 0, 0), spin=[S[0] * x for x in f[0][0]])
    m.add_atom("B", position=(0.25, 0, 0.5), spin=[S[1] * x for x in f[1][0]])
    a, b = m.atoms
    J = h.matrix("J")
    m.add_exchange(a, b, (0, 1, 0), matrix=J)
    t = h.reals("t", 2)
    m.add_on_site(a, matrix=np.diag([t[0], 0, -t[0]]))
    m.add_on_site(b, matrix=np.diag([0, t[1], t[1]]))
    M = c.effective_exchange(h, m, a, b, (0, 1, 0))
    kd = k[0] / 4 + k[1] + k[2] / 2
    z = h.cis(kd)
    K = _disp(m).h(k)
    h.same(tuple(K.shape), (4, 4), "size of the matrix")
    _hermitian(h, K)
    u = [np.array(x[1]) + 1j * np.array(x[2]) for x in f]
    v = [x[0] for x in f]
    on = [c.effective_on_site(h, m, x) for x in (a, b)]
    cl = _quad(v[0], M, v[1])
    for i in (0, 1):
        A = on[i]
        e1, e2 = f[i][1], f[i][2]
        want = (_quad(e1, A, e1) + _quad(e2, A, e2) - 2 * _quad(v[i], A, v[i]) - cl) / S[i]
        h.eq(np.real(K[i, i]), want, "diagonal entries")
        h.eq(np.real(K[2 + i, 2 + i]), want, "diagonal entries")
        w = _quad(u[i], A, u[i])
        h.eq(_abs2(h, K[i, 2 + i]) * S[i] * S[i], _abs2(h, w), "coupling of k and -k on one site")
    # A_12 = u1 M u2* e^(ikd) / (2 sqrt(S1 S2)) and B_12 = u1 M u2 e^(ikd) / (2 sqrt(S1 S2))
    s4 = 4 * S[0] * S[1]
    p, q = _quad(u[0], M, np.conjugate(u[1])), _quad(u[0], M, u[1])
    h.eq(_abs2(h, K[0, 1]) * s4, _abs2(h, p), "hopping between the sites")
    h.eq(_abs2(h, K[0, 3]) * s4, _abs2(h, q), "coupling of k and -k between the sites")
    h.eq(_abs2(h, K[2, 3]) * s4, _abs2(h, p), "hopping between the sites, -k")
    h.eq(_abs2(h, K[1, 2]) * s4, _abs2(h, q), "coupling of k and -k between the sites")
    # phases
    w1 = _quad(u[1], on[1], u[1])
    h.eq(K[0, 1] * K[1, 3] * np.conjugate(K[0, 3]) * s4 * S[1], p * w1 * np.conjugate(q), "phases of the couplings")


def fm_energy(h):
    """Magnon energy of one spin: exchange, DM vector along the spin, biaxial anisotropy."""
    np = h.np
    e1, e2 = h.real("e1", lo=0.01), h.real("e2", lo=0.01)
    u, J = h.real("u", positive=True), h.real("J")
    sign = h.choice("stable", [1, -1])
    co, si = (u + 1 / u) / 2, (u - 1 / u) / 2
    # every definite h(k) of one mode has this form
    a, b = sign * (e1 * co * co + e2 * si * si), sign * (e1 * si * si + e2 * co * co)
    w = sign * (e1 + e2) * co * si
    m = c.model_of(h, [], cell=np.eye(3), notation=h.choice("notation", [(False, False, 1, 1), (True, True, 1, 0.5)]))
    m.add_atom("Fe", spin=(0, 0, 2))
    fe = m.atoms[0]
    # energies of unit vectors: J e1.e2 + D (e1 x e2)_z once per bond, anisotropy x, y along the axes
    D = (a - b) / 2
    x, y = (a + b) / 2 + J + w, (a + b) / 2 + J - w
    if m.double_counting:
        # unit vectors, every bond twice, anisotropy with the factor 1/2
        m.add_exchange(fe, fe, (1, 0, 0), iso=J / 2, dmi=(0, 0, D / 2))
        m.add_on_site(fe, matrix=np.diag([2 * x, 2 * y, 0]))
    else:
        # spins of the length 2
        m.add_exchange(fe, fe, (1, 0, 0), iso=J / 4, dmi=(0, 0, D / 4))
        m.add_on_site(fe, matrix=np.diag([x / 4, y / 4, 0]))
    k = (h.pi / 2, 0, 0)
    kind = h.choice("call", ["omega", "omegas", "call", "G"])
    d = _disp(m)
    if kind == "omega":
        got = d.omega(k)
        h.true(_is_real(h, got), "energies are real numbers")
        h.same(tuple(got.shape), (1,), "number of modes")
        h.eq(got[0], sign * e1, "magnon energy")
    elif kind == "G":
        got, G = d.omega(k, return_G=True)
        h.eq(np.array([got[0], got[1]]), np.array([sign * e1, sign * e2]), "magnon energies")
        g = np.diag([1.0, -1.0])
        h.eq(G @ g @ np.conjugate(G).T, g, "new operators are bosonic")
        h.eq(np.conjugate(G).T @ np.diag(got) @ G, d.h(k), "Hamiltonian is diagonal in new operators")
    else:
        got = (d.omegas if kind == "omegas" else d)([k, (-h.pi / 2, 1.0, 2.0)])
        h.same(tuple(got.shape), (1, 2), "number of modes and points")
        h.true(_is_real(h, got), "energies are real numbers")
        h.eq(got[0, 0], sign * e1, "magnon energy")
        h.eq(got[0, 1], sign * e2, "magnon energy at -k")


def _dimers(h, sign, J, K, S=2):
    """Two spins in the cell, parallel (1) or antiparallel (-1), energies of unit vectors given."""
    np = h.np
    m = c.model_of(h, [], cell=np.eye(3), notation=(h.boolean("dc"), True, 1, 1))
    m.add_atom("A", position=(0, 0, 0), spin=(0, 0, S))
    m.add_atom("B", position=(0.5, 0, 0), spin=(0, 0, sign * S))
    a, b = m.atoms
    m.add_exchange(a, b, (0, 0, 0), iso=J / 2 if m.double_counting else J)
    for x in (a, b):
        m.add_on_site(x, matrix=np.diag([0, 0, K]))
    return m


def goldstone(h):
    """Two parallel spins, no anisotropy: zero mode and optical mode, stable or not."""
    np = h.np
    J = h.real("J", positive=True, lo=0.1, hi=100)
    sign = h.choice("stable", [1, -1])
    m = _dimers(h, 1, -sign * J, 0)
    d = _disp(m)
    got = d.omega((0, 0, 0) if h.boolean("gamma") else h.vector("k"))
    h.same(tuple(got.shape), (2,), "number of modes")
    # 2 J / S for the optical mode with S = 2
    h.eq(got[0] + got[1], sign * J, "sum of the energies", tol=1e-6)
    h.eq(got[0] * got[1], 0, "zero mode", tol=1e-4)


def afm_energy(h):
    """Two antiparallel spins with easy-axis anisotropy."""
    np = h.np
    e, u = h.real("e", lo=0.01), h.real("u", positive=True, lo=1.01)
    co, si = (u + 1 / u) / 2, (u - 1 / u) / 2
    sign = h.choice("stable", [1, -1])
    # diagonal (J - 2 K) / S, coupling J / S of the two modes with S = 2
    J = 2 * e * si
    K = (J - 2 * e * co) / 2
    m = _dimers(h, -1, sign * J, sign * K)
    d = _disp(m)
    k = h.vector("k")
    got = d.omega(k)
    h.same(tuple(got.shape), (2,), "number of modes")
    for x in got:
        h.eq(x, sign * e, "energies of both modes")


def indefinite(h):
    """No stable solution: zeros, or not-a-number on request."""
    np = h.np
    m = c.model_of(h, [], cell=np.eye(3), notation=(False, True, 1, 1))
    m.add_atom("Fe", spin=(0, 0, 1))
    fe = m.atoms[0]
    a, w = h.real("a"), h.real("w")
    h.assume(h.land(w > a + 0.01, w > 0.01 - a))
    m.add_exchange(fe, fe, (1, 0, 0), iso=1)
    # h = [[a, w], [w, a]] at k = 0
    m.add_on_site(fe, matrix=np.diag([(a + w) / 2, (a - w) / 2, 0]))
    d = _disp(m)
    none, G = h.boolean("none"), h.boolean("G")
    got = d.omega((0, 0, 0), zeros_to_none=none, return_G=G)
    if G:
        got, T = got
        h.same(tuple(T.shape), (2, 2), "size of the transformation")
    h.same(tuple(got.shape), (2 if G else 1,), "number of energies")
    for x in got:
        if none:
            h.true(x != x, "not a number")
        else:
            h.eq(x, 0, "zero")


def kpoints(h):
    """Every point of a list is treated separately; the model is not changed."""
    np = h.np
    # small energies are not zero
    J = h.real("J", positive=True, lo=1e-6)
    m = c.model_of(h, [], cell=np.eye(3), notation=(False, True, 1, 1))
    m.add_atom("Fe", spin=(0, 0, h.choice("up", [1, -1])))
    fe = m.atoms[0]
    m.add_exchange(fe, fe, (1, 0, 0), iso=-J)
    m.add_exchange(fe, fe, (0, 1, 0), iso=-2 * J)
    m.add_on_site(fe, matrix=np.diag([0, 0, -J]))
    before = c.snapshot(h, m)
    d = _disp(m)
    q = [(0, 0, 0), (h.pi / 2, 0, 0), (h.pi, h.pi, 1), (0, h.pi / 3, 0)]
    got = d.omegas(q)
    h.same(tuple(got.shape), (1, 4), "number of modes and points")
    # 2 J (1 - cos x) + 4 J (1 - cos y) + 2 J
    h.eq(got[0], np.array([2 * J, 4 * J, 14 * J, 4 * J]), "energies")
    h.eq(d(np.array(q))[0], got[0], "call is the same as omegas")
    c.unchanged(h, before, c.snapshot(h, m), "dispersion")


def larger(h):
    """Four spins along and against one axis, several bonds of a pair."""
    np = h.np
    names = ["Fe1", "Fe2", "Mn", "Co"]
    up = dict(zip(names, h.choice("order", [(1, 1, 1, 1), (1, -1, -1, 1), (-1, 1, 1, 1)])))
    S = {x: h.real(f"S{x}", positive=True) for x in names}
    spins = {x[0]: (0, 0, 1) for x in c.LARGER_ATOMS}
    spins.update({x: (0, 0, up[x] * S[x]) for x in names})

    def matrix(name):
        if name.startswith("A"):
            x = h.reals(name, 2)
            return np.diag([x[0], x[1], 0])
        x = h.reals(name, 4)
        return np.array([[x[0], x[1], 0], [x[2], x[3], 0], [0, 0, x[0] + 1]], dtype=float)

    bonds = [b for b in c.LARGER_BONDS if max(map(abs, b[2])) < 10]
    m, at, given, on = c.larger(
        h, notation=(h.boolean("dc"), h.boolean("normalized"), 1, 1), cell=np.eye(3), bonds=bonds, matrix=matrix, spins=spins
    )
    order = [x.name for x in m.magnetic_atoms]
    h.same(sorted(order), sorted(names), "magnetic atoms")
    N = 4
    k = (h.real("k"), 0, 1)
    K = _disp(m).h(k)
    h.same(tuple(K.shape), (2 * N, 2 * N), "size of the matrix")
    _hermitian(h, K)
    where = {x[0]: x[2] for x in c.LARGER_ATOMS}
    # M(k) of every ordered pair: sum over bonds of M exp(ik.r)
    M = {(x, y): np.zeros((3, 3), dtype=complex) for x in names for y in names}
    zz = {x: 0 for x in names}
    for x, y, R, _ in given:
        one = c.effective_exchange(h, m, x, y, R)
        x, y = x.name, y.name
        r = [R[i] + where[y][i] - where[x][i] for i in range(3)]
        z = h.cis(k[0] * r[0] + r[2])
        M[x, y] = M[x, y] + one * z
        M[y, x] = M[y, x] + one.T * np.conjugate(z)
        cl = one[2][2] * up[x] * up[y]
        zz[x] += cl
        zz[y] += cl
    for x, _ in on:
        M[x.name, x.name] = M[x.name, x.name] + 2 * c.effective_on_site(h, m, x)
        zz[x.name] = zz[x.name] + 2 * c.effective_on_site(h, m, x)[2][2]
    # transverse vectors of the spin: e1 + i e2, up to a phase
    u = {x: np.array([1, 1j * up[x], 0]) for x in names}
    for i, x in enumerate(order):
        got, minus = np.real(K[i, i]), np.real(K[N + i, N + i])
        p = np.real(_quad(u[x], M[x, x], np.conjugate(u[x]))) / 2
        h.eq(got * S[x], p - zz[x], "diagonal entries")
        p = np.real(_quad(np.conjugate(u[x]), M[x, x], u[x])) / 2
        h.eq(minus * S[x], p - zz[x], "diagonal entries, -k")
        for j, y in enumerate(order):
            if i == j:
                continue
            s4 = 4 * S[x] * S[y]
            a = _quad(u[x], M[x, y], np.conjugate(u[y]))
            b = _quad(u[x], M[x, y], u[y])
            h.eq(_abs2(h, K[i, j]) * s4, _abs2(h, a), "hopping between the sites")
            h.eq(_abs2(h, K[i, N + j]) * s4, _abs2(h, b), "coupling of k and -k between the sites")


HARNESSES = [
    H("one_axis", one_axis, bounds="1 atom, 6 spin directions, 1 bond, 1 on-site term, all notations; any matrices, wave vector, spin length"),
    H("direction", direction, bounds="1 atom, any spin direction; isotropic and DM exchange, diagonal anisotropy"),
    H("two", two, bounds="2 atoms, 12 pairs of spin directions, 1 bond, 2 on-site terms; any exchange matrix, wave vector, spin lengths"),
    H("fm_energy", fm_energy, bounds="1 atom, exchange, DM and biaxial anisotropy; every definite h(k)"),
    H("goldstone", goldstone, bounds="2 atoms, 1 bond, both signs of the exchange; any strength and wave vector"),
    H("afm_energy", afm_energy, bounds="2 atoms, 1 bond, easy-axis anisotropy; every definite h(k)"),
    H("indefinite", indefinite, bounds="1 atom, every indefinite h(0)"),
    H("kpoints", kpoints, bounds="1 atom, 2 bonds, 4 points; any exchange above 1e-6"),
    H("larger", larger, bounds="6 atoms, 4 of them with interactions, 6 bonds, 3 on-site terms, 3 collinear states; 4 numbers of every matrix, wave vectors (k, 0, 1)"),
]
