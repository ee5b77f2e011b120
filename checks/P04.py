"""Decomposition of an exchange matrix into isotropic, symmetric and antisymmetric parts."""
from symex.runner import H

ASSUMPTIONS = []


def _ref(h, m):
    np = h.np
    iso = (m[0, 0] + m[1, 1] + m[2, 2]) / 3
    eye = np.array([[1, 0, 0], [0, 1, 0], [0, 0, 1]], dtype=float)
    sym = (m + m.T) / 2
    asym = (m - m.T) / 2
    return iso, eye, sym, asym, np.array([asym[1, 2], asym[2, 0], asym[0, 1]], dtype=float)


def decomposition(h):
    np = h.np
    from magnopy import MatrixParameter

    m = h.matrix("m")
    p = MatrixParameter(matrix=m)
    iso, eye, sym, asym, dmi = _ref(h, m)
    h.eq(p.matrix, m, "matrix is kept")
    h.eq(p.iso, iso, "iso is a third of the trace")
    h.eq(p.I, iso, "I is iso")
    h.eq(p.iso_matrix, iso * eye, "isotropic matrix")
    h.eq(p.symm_matrix, sym, "symmetric matrix")
    h.eq(p.asymm_matrix, asym, "antisymmetric matrix")
    h.eq(p.A, asym, "A is the antisymmetric matrix")
    h.eq(p.aniso, sym - iso * eye, "anisotropic matrix")
    h.eq(p.S, sym - iso * eye, "S is the anisotropic matrix")
    h.eq(p.dmi, dmi, "DMI vector")
    h.eq(p.dmi_matrix, asym, "DMI matrix")
    h.eq(p.iso_matrix + p.aniso + p.dmi_matrix, m, "iso + aniso + dmi = matrix")
    h.eq(np.trace(p.aniso), 0, "anisotropic part is traceless")
    h.eq(p.aniso, p.aniso.T, "anisotropic part is symmetric")
    h.eq(p.aniso_diagonal, np.array([sym[i, i] - iso for i in range(3)], dtype=float), "diagonal of aniso")
    h.eq(
        p.aniso_diagonal_matrix,
        np.array([[(sym[i, i] - iso) if i == j else 0 for j in range(3)] for i in range(3)], dtype=float),
        "diagonal matrix of aniso",
    )
    h.eq(p.dmi_module**2, dmi @ dmi, "modulus of DMI")
    h.true(p.dmi_module >= 0, "modulus of DMI is not negative")
    for i, x in enumerate("xyz"):
        for j, y in enumerate("xyz"):
            h.eq(getattr(p, x + y), m[i, j], f"component {x}{y}")
    h.eq(p.matrix, m, "reading does not change the matrix")


def dmi_energy(h):
    """The antisymmetric part is D . (a x b)."""
    np = h.np
    from magnopy import MatrixParameter

    p = MatrixParameter(matrix=h.matrix("m"))
    a, b = h.vector("a"), h.vector("b")
    d = p.dmi
    cross = np.array(
        [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]], dtype=float
    )
    h.eq(a @ p.dmi_matrix @ b, d @ cross, "antisymmetric exchange is D.(a x b)")
    h.eq(a @ p.iso_matrix @ b, p.iso * (a @ b), "isotropic exchange is J a.b")


def relative(h):
    from magnopy import MatrixParameter

    m = h.matrix("m")
    p = MatrixParameter(matrix=m)
    iso, eye, sym, asym, dmi = _ref(h, m)
    h.assume(iso != 0)
    r = p.rel_dmi
    h.eq(r * r * iso * iso, dmi @ dmi, "relative DMI")
    h.true(r >= 0, "relative DMI is not negative")


def setters(h):
    """Setting one part leaves the other parts alone."""
    np = h.np
    from magnopy import MatrixParameter

    m = h.matrix("m")
    p = MatrixParameter(matrix=m)
    for k in range(2):
        cur = np.array(p.matrix)
        iso, eye, sym, asym, dmi = _ref(h, cur)
        what = h.choice(f"part{k}", ["iso", "dmi", "aniso", "matrix"])
        if what == "iso":
            v = h.real(f"v{k}")
            p.iso = v
            h.eq(p.iso, v, "iso is set")
            h.eq(p.dmi, dmi, "iso setter keeps DMI")
            h.eq(p.aniso, sym - iso * eye, "iso setter keeps aniso")
        elif what == "dmi":
            v = h.vector(f"v{k}")
            p.dmi = v
            h.eq(p.dmi, v, "DMI is set")
            h.eq(p.iso, iso, "DMI setter keeps iso")
            h.eq(p.symm_matrix, sym, "DMI setter keeps the symmetric part")
        elif what == "aniso":
            x = h.matrix(f"v{k}")
            # a legitimate anisotropy: symmetric and traceless
            v = np.array(
                [[x[0, 0], x[0, 1], x[0, 2]], [x[0, 1], x[1, 1], x[1, 2]], [x[0, 2], x[1, 2], -x[0, 0] - x[1, 1]]],
                dtype=float,
            )
            p.aniso = v
            h.eq(p.aniso, v, "aniso is set")
            h.eq(p.iso, iso, "aniso setter keeps iso")
            h.eq(p.dmi, dmi, "aniso setter keeps DMI")
        else:
            v = h.matrix(f"v{k}")
            p.matrix = v
            h.eq(p.matrix, v, "matrix is set")


def construct(h):
    """The constructor combines the given parts; given parts win over the matrix."""
    np = h.np
    from magnopy import MatrixParameter

    kw = {}
    m = h.matrix("m")
    iso, eye, sym, asym, dmi = _ref(h, m)
    aniso = sym - iso * eye
    if not h.boolean("with_matrix"):
        iso, aniso, dmi = 0, 0 * eye, np.zeros(3)
    else:
        kw["matrix"] = m
    if h.boolean("with_iso"):
        iso = kw["iso"] = h.real("iso")
    if h.boolean("with_dmi"):
        dmi = kw["dmi"] = h.vector("dmi")
    if h.boolean("with_aniso"):
        x = h.matrix("an")
        aniso = kw["aniso"] = np.array(
            [[x[0, 0], x[0, 1], x[0, 2]], [x[0, 1], x[1, 1], x[1, 2]], [x[0, 2], x[1, 2], -x[0, 0] - x[1, 1]]],
            dtype=float,
        )
    p = MatrixParameter(**kw)
    h.eq(p.iso, iso, "constructed iso")
    h.eq(p.dmi, dmi, "constructed DMI")
    h.eq(p.aniso, aniso, "constructed aniso")


def components(h):
    np = h.np
    from magnopy import MatrixParameter

    m = h.matrix("m")
    i, j = h.choice("i", [0, 1, 2]), h.choice("j", [0, 1, 2])
    v = h.real("v")
    src = np.array(m)
    p = MatrixParameter(matrix=src)
    setattr(p, "xyz"[i] + "xyz"[j], v)
    want = np.array([[v if (a, b) == (i, j) else m[a, b] for b in range(3)] for a in range(3)], dtype=float)
    h.eq(p.matrix, want, "one component is set")
    h.eq(src, m, "the source array is not changed")
    iso, eye, sym, asym, dmi = _ref(h, want)
    h.eq(p.iso, iso, "iso follows the component")
    h.eq(p.dmi, dmi, "DMI follows the component")


def reject(h):
    """Wrong shapes are rejected and leave the parameter alone."""
    np = h.np
    from magnopy import MatrixParameter

    m = h.matrix("m")
    p = MatrixParameter(matrix=m)
    x = h.real("x")
    bad, attr = h.choice(
        "bad",
        [
            ([[1, 2], [3, 4]], "matrix"),
            ([1, 2, 3], "matrix"),
            ([[1, 2, 3]], "aniso"),
            ([1, 2], "dmi"),
            ([[1, 2, 3]], "dmi"),
            ("text", "matrix"),
            ("text", "dmi"),
            ("text", "aniso"),
        ],
    )
    e = h.raises(lambda: setattr(p, attr, bad), ValueError)
    h.true(e is not None, "a wrong shape is rejected")
    h.eq(p.matrix, m, "a rejected value changes nothing")


HARNESSES = [
    H("decomposition", decomposition, bounds="all real 3x3 matrices"),
    H("dmi_energy", dmi_energy, bounds="all real 3x3 matrices and vectors"),
    H("relative", relative, bounds="all real 3x3 matrices with nonzero trace"),
    H("setters", setters, bounds="all real matrices and values; all sequences of 2 setters"),
    H("construct", construct, bounds="all combinations of the four constructor arguments"),
    H("components", components, bounds="all 9 components, all real matrices"),
    H("reject", reject, bounds="8 malformed values"),
]
