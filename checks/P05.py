"""Arithmetic, equality and independence of matrix parameters."""
from symex.runner import H

ASSUMPTIONS = []


def arithmetic(h):
    from magnopy import MatrixParameter

    a, b = h.matrix("a"), h.matrix("b")
    x = h.real("x", nonzero=True)
    p, q = MatrixParameter(matrix=a), MatrixParameter(matrix=b)
    cases = [
        ("sum", p + q, a + b),
        ("difference", p - q, a - b),
        ("product", p * x, a * x),
        ("product from the left", x * p, a * x),
        ("quotient", p / x, a / x),
        ("negation", -p, -a),
        ("plus", +p, a),
        ("transpose", p.T, a.T),
    ]
    for name, r, want in cases:
        h.true(isinstance(r, MatrixParameter), f"{name}: type")
        h.eq(r.matrix, want, f"{name}: value")
        r.xx = 17
        r.zy = r.zy + 1
        h.eq(p.matrix, a, f"{name}: the result does not share memory with the first operand")
        h.eq(q.matrix, b, f"{name}: the result does not share memory with the second operand")


def absolute(h):
    from magnopy import MatrixParameter

    a = h.matrix("a")
    p = MatrixParameter(matrix=a)
    r = abs(p)
    for i in range(3):
        for j in range(3):
            v = r.matrix[i][j]
            h.true(v >= 0, "abs is not negative")
            h.eq(v * v, a[i, j] * a[i, j], "abs keeps the magnitude")
    h.eq(p.matrix, a, "abs: operand is kept")


def products(h):
    np = h.np
    from magnopy import MatrixParameter

    a, b = h.matrix("a"), h.matrix("b")
    u, v = h.vector("u"), h.vector("v")
    p = MatrixParameter(matrix=a)
    h.eq(p @ v, a @ v, "matrix @ vector")
    h.eq(p @ b, a @ b, "matrix @ matrix")
    h.eq(p.__rmatmul__(u), u @ a, "vector @ matrix")
    h.eq(p.__rmatmul__(u) @ v, u @ (p @ v), "associative")
    h.eq(p.__rmatmul__(b), b @ a, "matrix @ parameter")
    h.eq([list(r) for r in b] @ p, b @ a, "nested list @ parameter")
    h.eq(list(u) @ p, u @ a, "list @ parameter")
    h.eq(p @ [list(r) for r in b], a @ b, "parameter @ nested list")
    h.eq(p.matrix, a, "products: operand is kept")


def laws(h):
    from magnopy import MatrixParameter

    p, q = MatrixParameter(matrix=h.matrix("a")), MatrixParameter(matrix=h.matrix("b"))
    x = h.real("x", nonzero=True)
    h.eq((p * x / x).matrix, p.matrix, "multiply and divide")
    h.eq((p + q - q).matrix, p.matrix, "add and subtract")
    h.eq((p.T + q.T).matrix, (p + q).T.matrix, "transpose is linear")
    h.eq(p.T.T.matrix, p.matrix, "transpose twice")
    h.eq(p.T.dmi, -p.dmi, "transpose reverses DMI")
    h.eq(p.T.iso, p.iso, "transpose keeps iso")
    h.eq(p.T.aniso, p.aniso, "transpose keeps aniso")
    h.eq((p + q).iso, p.iso + q.iso, "iso is linear")
    h.eq((p * x).dmi, p.dmi * x, "DMI is linear")


def equality(h):
    np = h.np
    from magnopy import MatrixParameter

    a = h.matrix("a")
    i, j = h.choice("i", [0, 1, 2]), h.choice("j", [0, 1, 2])
    d = h.real("d")
    b = np.array([[a[x, y] + (d if (x, y) == (i, j) else 0) for y in range(3)] for x in range(3)], dtype=float)
    p, q = MatrixParameter(matrix=a), MatrixParameter(matrix=b)
    if not h.symbolic:
        h.assume(d == 0 or (b != a).any())
    if h.boolean("array"):
        same = bool(p == b)
        differ = bool(p != b)
    else:
        same = bool(p == q)
        differ = bool(p != q)
    h.same(same, bool(d == 0), "equal exactly if all components are equal")
    h.same(differ, not bool(d == 0), "different exactly if some component differs")


def independent(h):
    np = h.np
    from magnopy import MatrixParameter

    a = h.matrix("a")
    how = h.choice("how", ["constructor", "setter", "parameter"])
    src = np.array(a)
    if how == "constructor":
        p = MatrixParameter(matrix=src)
    elif how == "setter":
        p = MatrixParameter()
        p.matrix = src
    else:
        first = MatrixParameter(matrix=src)
        p = MatrixParameter(matrix=first.matrix)
        first.xx = 5
        first.matrix *= 2
    src[0, 1] = 11
    src[2, 2] = 7
    h.eq(p.matrix, a, "the parameter keeps its own copy of the matrix")
    # parts that are read out are values, not views
    p.dmi[0] = 3
    p.symm_matrix[0, 0] = 3
    p.iso_matrix[0, 0] = 3
    h.eq(p.matrix, a, "writing to a derived array does not change the parameter")
    p.matrix *= 2
    h.eq(p.matrix, 2 * a, "in-place scaling")


def typed(h):
    from magnopy import MatrixParameter

    p = MatrixParameter(matrix=h.matrix("a"))
    op = h.choice("op", [lambda: p + 1, lambda: p - 1, lambda: p * "x", lambda: p / "x"])
    h.true(h.raises(op, TypeError) is not None, "unsupported operands raise TypeError")
    h.true(h.raises(lambda: p == "text", ValueError) is not None, "comparison with text is rejected")
    h.true(h.raises(lambda: p == [1, 2, 3], ValueError) is not None, "comparison with a vector is rejected")


def division(h):
    """Division with a remainder, element by element."""
    from magnopy import MatrixParameter

    a = h.matrix("a")
    x = h.choice("x", [1, -1, 3, h.frac(1, 2)])
    if h.symbolic:
        h.assume(h.land(*[h.land(t < 2, t > -2) for t in a.reshape(-1)]))
    p = MatrixParameter(matrix=a)
    q, r = p // x, p % x
    h.true(isinstance(q, MatrixParameter) and isinstance(r, MatrixParameter), "type of the result")
    h.eq(q.matrix * x + r.matrix, a, "quotient and remainder")
    for i, j in ((0, 0), (0, 1), (1, 0), (2, 2)):
        if x > 0:
            h.true(h.land(r.matrix[i][j] >= 0, r.matrix[i][j] < x), "range of the remainder")
        else:
            h.true(h.land(r.matrix[i][j] <= 0, r.matrix[i][j] > x), "range of the remainder")
    h.eq(p.matrix, a, "operand is kept")
    h.true(h.raises(lambda: p // "x", TypeError) is not None, "unsupported operands raise TypeError")
    h.true(h.raises(lambda: p % "x", TypeError) is not None, "unsupported operands raise TypeError")


def printing(h):
    """The printed matrix."""
    from magnopy import MatrixParameter

    a = h.matrix("a")
    p = MatrixParameter(matrix=a)
    text, digits = h.choice("how", [(lambda: str(p), 4), (lambda: f"{p:.6f}", 6), (lambda: format(p, ".2f"), 2)])
    rows = [line.split() for line in text().splitlines() if line.strip()]
    h.same([len(r) for r in rows], [3, 3, 3], "three rows of three numbers")
    h.eq([[h.parse(x) for x in r] for r in rows], a, "printed numbers", tol=h.frac(6, 10 ** (digits + 1)))


B = "all real 3x3 matrices"
HARNESSES = [
    H("arithmetic", arithmetic, bounds=B + " and nonzero factors"),
    H("absolute", absolute, bounds=B, max_paths=3000),
    H("products", products, bounds=B + " and vectors"),
    H("laws", laws, bounds=B),
    H("equality", equality, bounds=B + " differing in at most one component"),
    H("independent", independent, bounds=B),
    H("typed", typed, bounds=B),
    H("division", division, bounds="entries within (-2, 2), four divisors"),
    H("printing", printing, bounds=B + ", three formats"),
]
