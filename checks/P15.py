"""Bosonic diagonalization: solve_via_colpa."""
from symex.runner import H

ASSUMPTIONS = [
    "numpy.linalg: cholesky, inverse and eigen-solver are exact; the eigen-solver of Hermitian matrices (blocks up to 2x2) returns orthonormal vectors",
]


def _solve(h, D):
    from magnopy.magnons.diagonalization import solve_via_colpa

    return solve_via_colpa(D)


def _dagger(h, M):
    return h.np.conjugate(h.np.array(M)).T


def _check(h, D, N):
    """D = G^+ E G, G g G^+ = g, positive sorted energies."""
    np = h.np
    before = np.array(D)
    E, G = _solve(h, D)
    h.eq(np.array(D), before, "matrix of the caller is kept")
    E, G = np.array(E), np.array(G)
    h.same(tuple(E.shape), (2 * N,), "number of energies")
    g = np.diag([1.0] * N + [-1.0] * N)
    E = [h.np.real(x) for x in E]
    for i in range(2 * N):
        h.true(E[i] > 0, "energies are positive")
    for i in range(N - 1):
        h.true(E[i] >= E[i + 1], "first energies are in descending order")
        h.true(E[N + i] <= E[N + i + 1], "last energies are in ascending order")
    h.eq(G @ g @ _dagger(h, G), g, "new operators are bosonic")
    h.eq(_dagger(h, G) @ np.diag(E) @ G, before, "Hamiltonian is diagonal in new operators")
    return E


def one(h):
    """One mode: every positive Hermitian matrix."""
    a, c = h.real("a", positive=True), h.real("c", positive=True)
    b = h.real("b") + 1j * h.real("d")
    D = h.np.array([[a, b], [h.np.conjugate(b), c]], dtype=complex)
    b2 = h.np.real(b * h.np.conjugate(b))
    h.assume(a * c - b2 > h.frac(1, 1000))
    E = _check(h, D, 1)
    # sum of the energies and their difference
    h.eq(E[0] - E[1], a - c, "difference of the energies")
    h.eq(E[0] * E[1], a * c - b2, "product of the energies")


PAIRS = [((0, 2), (1, 3)), ((0, 3), (1, 2)), ((0, 1), (2, 3))]


def two(h):
    """Two modes, two of the operators are coupled."""
    _pairs(h, h.choice("pairs", PAIRS)[: 1], [0.6 - 0.8j])


def two_pairs(h):
    """Two modes, coupled in pairs."""
    _pairs(h, h.choice("pairs", PAIRS), [1, 1j, 0.6 - 0.8j])


def _pairs(h, pair, phases):
    np = h.np
    e = h.reals("e", 4, positive=True)
    D = [[0] * 4 for _ in range(4)]
    for i in range(4):
        D[i][i] = e[i]
    for n, (i, j) in enumerate(pair):
        z = h.choice(f"phase{n}", phases)
        if (i < 2) == (j < 2):
            t = h.real(f"t{n}")
            c, s = h.cos(t), h.sin(t)
            p, q, w = e[i] * c * c + e[j] * s * s, e[i] * s * s + e[j] * c * c, (e[i] - e[j]) * c * s
        else:
            u = h.real(f"u{n}", positive=True)
            c, s = (u + 1 / u) / 2, (u - 1 / u) / 2
            p, q, w = e[i] * c * c + e[j] * s * s, e[i] * s * s + e[j] * c * c, (e[i] + e[j]) * c * s
        D[i][i], D[j][j] = p, q
        D[i][j], D[j][i] = w * z, w * np.conjugate(z)
    _check(h, np.array(D, dtype=complex), 2)


def degenerate(h):
    """Two modes of the same energy."""
    np = h.np
    pair = h.choice("pairs", [((0, 2), (1, 3)), ((0, 3), (1, 2))])
    a = h.real("a", positive=True)
    b = (h.real("b", lo=0.1) + 1j * h.real("c", lo=0.1)) * h.choice("sign", [1, -1, 1j])
    h.assume(a * a - np.real(b * np.conjugate(b)) > h.frac(1, 1000))
    D = [[0] * 4 for _ in range(4)]
    for i in range(4):
        D[i][i] = a
    for i, j in pair:
        D[i][j] = b
        D[j][i] = np.conjugate(b)
    _check(h, np.array(D, dtype=complex), 2)


def reject(h):
    """Matrices that are not positive."""
    from magnopy.exceptions import ColpaFailed

    np = h.np
    n = h.choice("size", [1, 2])
    d = h.reals("a", 2 * n)
    b = h.real("b") + 1j * h.real("c")
    D = [[0] * (2 * n) for _ in range(2 * n)]
    for i in range(2 * n):
        D[i][i] = d[i]
    i, j = (0, 1) if n == 1 else h.choice("pair", [(0, 1), (0, 2), (0, 3), (1, 2)])
    D[i][j], D[j][i] = b, np.conjugate(b)
    b2 = np.real(b * np.conjugate(b))
    h.assume(h.lor(d[i] * d[j] < b2, *[x < 0 for x in d]))
    h.true(h.raises(lambda: _solve(h, np.array(D, dtype=complex)), ColpaFailed) is not None, "matrix is rejected")


def three(h):
    """Three modes without couplings, in any order of the energies."""
    np = h.np
    e = h.reals("e", 6, positive=True)
    before = list(e)
    E = _check(h, np.array(np.diag(e), dtype=complex), 3)
    h.eq(E[0] + E[1] + E[2], before[0] + before[1] + before[2], "energies")
    h.eq(E[3] + E[4] + E[5], before[3] + before[4] + before[5], "energies")


HARNESSES = [
    H("one", one, bounds="every positive-definite Hermitian 2x2 matrix"),
    H("two", two, bounds="4x4 matrices with one pair of coupled operators; any energies and strength of the coupling"),
    H("two_pairs", two_pairs, tiers=("thorough",), bounds="4x4 matrices, operators coupled in pairs; any energies and strengths of the couplings"),
    H("degenerate", degenerate, bounds="4x4 matrices, two equal blocks; any values"),
    H("reject", reject, bounds="2x2 and 4x4 matrices with one coupling; any values"),
    H("three", three, bounds="6x6 diagonal matrices; any energies"),
]
