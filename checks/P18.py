"""Export to VAMPIRE: unit cell file, material file, input file."""
import os

from symex.runner import H
from checks import common as c
from checks.P11 import triangular

ASSUMPTIONS = [
    "a printed number is any value within half a unit of its last printed digit",
    "VAMPIRE: E = -1/2 sum_ij e_i J_ij e_j over all listed interactions (J), unit vectors e",
]
MEV = 1.602176634e-22


def _model(h, spins=None, cell=None):
    from magnopy import SpinHamiltonian

    m = SpinHamiltonian(cell=triangular(h) if cell is None else cell)
    s = spins or [h.real("S0", positive=True), h.real("S1", positive=True)]
    m.add_atom("Fe1", position=h.vector("p"), spin=(0, 0, s[0]), index=1)
    m.add_atom("O1", position=(0.5, 0.5, 0.25), spin=(0, 0, 1), index=2)
    m.add_atom("Cr1", position=(0.25, 0, 0.75), spin=(0, 0, s[1]), index=3)
    m.notation = (h.boolean("dc"), h.boolean("normalized"), h.real("ex", nonzero=True), h.real("on", nonzero=True))
    return m


def _fill(h, m):
    fe, _, cr = m.atoms
    m.add_exchange(fe, cr, (1, -1, 0), matrix=h.matrix("J"))
    m.add_exchange(cr, cr, (0, 0, 2), iso=h.real("I"))
    a = h.reals("K", 3)
    m.add_on_site(fe, matrix=[[a[0], a[1], 0], [a[1], a[2], 0], [0, 0, 0]])
    return fe, cr


def _lines(text):
    return [x.split("#")[0].split() for x in text.splitlines() if x.split("#")[0].strip()]


def _ucf(h, text):
    """Independent reader of the file."""
    rows = _lines(text)
    out = dict(size=[h.parse(x) for x in rows[0]], cell=[[h.parse(x) for x in r] for r in rows[1:4]])
    n, out["materials"] = int(rows[4][0]), int(rows[4][1])
    out["atoms"] = [(int(r[0]), [h.parse(x) for x in r[1:4]], int(r[4])) for r in rows[5 : 5 + n]]
    r = rows[5 + n]
    out["kind"] = r[1]
    out["n"] = int(r[0])
    out["bonds"] = []
    for r in rows[6 + n :]:
        M = [[h.parse(x) for x in r[6 + 3 * i : 9 + 3 * i]] for i in range(3)]
        out["bonds"].append((int(r[0]), int(r[1]), int(r[2]), tuple(int(x) for x in r[3:6]), M, len(r)))
    return out


def _close(h, a, b, label, rel):
    for i in range(3):
        for j in range(3):
            h.eq(a[i][j] / MEV, b[i][j], label, tol=abs(b[i][j]) * h.exact(rel))


def ucf(h):
    """Every interaction of the model, in joules, both directions of each bond."""
    from magnopy.io import dump_ucf

    m = _model(h)
    fe, cr = _fill(h, m)
    want = {
        (0, 1, (1, -1, 0)): c.effective_exchange(h, m, fe, cr, (1, -1, 0)) * -1,
        (1, 1, (0, 0, 2)): c.effective_exchange(h, m, cr, cr, (0, 0, 2)) * -1,
        (0, 0, (0, 0, 0)): c.effective_on_site(h, m, fe) * -2,
    }
    want[(1, 0, (-1, 1, 0))] = want[(0, 1, (1, -1, 0))].T
    want[(1, 1, (0, 0, -2))] = want[(1, 1, (0, 0, 2))].T
    before = c.snapshot(h, m)
    text = dump_ucf(m, nologo=h.boolean("nologo"))
    c.unchanged(h, before, c.snapshot(h, m), "export")
    u = _ucf(h, text)
    tol = h.frac(1, 10**8)
    h.eq(h.np.array(u["cell"]), h.np.array(m.cell), "lattice vectors", tol=tol)
    h.same([a[0] for a in u["atoms"]], [0, 1], "atoms with interactions only")
    for a, b in zip(u["atoms"], (fe, cr)):
        h.eq(h.np.array(a[1]), h.np.array(b.position), "positions", tol=tol)
    h.same([a[2] for a in u["atoms"]], [0, 1], "materials")
    h.same(u["materials"], 2, "number of materials")
    h.same(u["kind"], "tensorial", "kind of the interactions")
    h.same(u["n"], 5, "announced number of interactions")
    h.same([b[0] for b in u["bonds"]], list(range(5)), "numbers of the interactions")
    for key, M in want.items():
        got = [b[4] for b in u["bonds"] if b[1:4] == key]
        h.same(len(got), 1, "interaction is listed once")
        _close(h, got[0], M, "interaction", 1e-5)


def parts(h):
    """Parts of the exchange that are left out."""
    from magnopy.io import dump_ucf

    np = h.np
    m = _model(h, cell=np.eye(3), spins=[1, 2])
    fe, _, cr = m.atoms
    m.add_exchange(fe, cr, (0, 0, 1), matrix=h.matrix("J"))
    M = c.effective_exchange(h, m, fe, cr, (0, 0, 1)) * -1
    what = h.choice("what", ["dmi", "anisotropic", "both", "mask"])
    iso = (M[0][0] + M[1][1] + M[2][2]) / 3
    I = np.eye(3)
    if what == "dmi":
        want, kw = (M + M.T) / 2, dict(dmi=False)
    elif what == "anisotropic":
        want, kw = (M - M.T) / 2 + I * iso, dict(anisotropic=False)
    elif what == "both":
        want, kw = I * iso, dict(dmi=False, anisotropic=False)
    else:
        want, kw = M * 3, dict(custom_mask=lambda x: x * 3)
    digits = h.choice("decimals", [3, 5, 8])
    text = dump_ucf(m, decimals=digits, nologo=True, **kw)
    u = _ucf(h, text)
    for key, W in (((0, 1, (0, 0, 1)), want), ((1, 0, (0, 0, -1)), want.T)):
        got = [b[4] for b in u["bonds"] if b[1:4] == key]
        h.same(len(got), 1, "interaction is listed once")
        _close(h, got[0], W, "interaction without the left out part", h.frac(1, 10**digits))


def failed(h):
    """The model is not changed when the export fails."""
    from magnopy.io import dump_ucf

    m = _model(h, cell=h.np.eye(3))
    _fill(h, m)

    def mask(x):
        raise ValueError("mask")

    before = c.snapshot(h, m)
    h.true(h.raises(lambda: dump_ucf(m, custom_mask=mask), ValueError) is not None, "error of the mask is passed on")
    c.unchanged(h, before, c.snapshot(h, m), "failed export")


def _mat(text):
    out = {}
    for line in text.splitlines():
        line = line.split("#")[0].split("!")[0].strip()
        if line:
            if not line.startswith("material") or "=" not in line:
                raise AssertionError(f"not a line of the format of VAMPIRE: {line}")
            k, _, v = line.partition("=")
            if k.strip() in out:
                raise AssertionError(f"{k.strip()} is given twice")
            out[k.strip()] = v.strip()
    return out


def mat(h):
    """Materials: names, moments and directions of the spins."""
    from magnopy.io import dump_mat

    m = _model(h, cell=h.np.eye(3))
    fe, cr = _fill(h, m)
    S = [h.real("T0", positive=True), h.real("T1", positive=True)]
    d = h.choice("direction", [(0, 0, -1), (0, 1, 0), (0.6, 0, 0.8), (0.352, -0.36, 0.864)])
    fe.spin_vector = [S[0] * h.frac(round(1000 * x), 1000) for x in d]
    zero = h.boolean("zero")
    cr.spin_vector = (0, 0, 0) if zero else (0, 0, S[1])
    materials = h.choice("materials", [None, [0, 1], [0, 0], [1, 0]])
    before = c.snapshot(h, m)
    t = _mat(dump_mat(m, materials=materials, nologo=h.boolean("nologo")))
    c.unchanged(h, before, c.snapshot(h, m), "export")
    h.same(int(t["material:num-materials"]), 1 if materials == [0, 0] else 2, "number of materials")
    first = 2 if materials == [1, 0] else 1
    h.same(t[f"material[{first}]:material-name"], "Fe1", "name of the material")
    h.same(t[f"material[{first}]:material-element"], "Fe", "element of the material")
    v = [h.parse(x) for x in t[f"material[{first}]:initial-spin-direction"].split(",")]
    h.eq(h.np.array(v), h.np.array(d, dtype=float), "direction of the spin", tol=h.frac(1, 10**8))
    if materials != [0, 0]:
        k = 3 - first
        h.same(t[f"material[{k}]:material-name"], "Cr1", "name of the material")
        text = t[f"material[{k}]:initial-spin-direction"]
        if zero:
            h.same(text, "random", "atom without spin")
        else:
            h.eq(h.np.array([h.parse(x) for x in text.split(",")]), h.np.array([0.0, 0, 1]), "direction of the spin", tol=h.frac(1, 10**8))


def materials(h):
    """Three atoms, all ways to share materials: every material is described once, by one of its atoms."""
    from magnopy import SpinHamiltonian
    from magnopy.io import dump_mat, dump_ucf

    m = SpinHamiltonian(cell=h.np.eye(3))
    names = ["Fe1", "Cr1", "Mn1"]
    S = h.reals("S", 3)
    h.assume(h.land(*(x > 0 for x in S)))
    axes = [(1, 0, 0), (0, -1, 0), (0, 0, 1)]
    for i in range(3):
        m.add_atom(names[i], position=(h.frac(i, 4), 0, 0), spin=[S[i] * x for x in axes[i]])
    m.notation = (True, False, 1, 1)
    J = h.real("J")
    for a in m.atoms:
        m.add_exchange(a, a, (1, 0, 0), iso=J)
    mats = h.choice("materials", [[0, 0, 0], [0, 0, 1], [0, 1, 0], [0, 1, 1], [1, 0, 0], [1, 0, 1], [1, 1, 0], [0, 1, 2], [1, 2, 0], [2, 0, 1]])
    t = _mat(dump_mat(m, materials=mats, nologo=True))
    u = _ucf(h, dump_ucf(m, materials=mats, nologo=True))
    k = max(mats) + 1
    h.same(int(t["material:num-materials"]), k, "number of materials")
    h.same(u["materials"], k, "number of materials")
    h.same([a[2] for a in u["atoms"]], mats, "materials of the atoms")
    for j in range(k):
        mine = [i for i in range(3) if mats[i] == j]
        name = t.get(f"material[{j + 1}]:material-name")
        h.true(name in [names[i] for i in mine], "material has the name of one of its atoms")
        if name in names:
            i = names.index(name)
            h.same(t.get(f"material[{j + 1}]:material-element"), name[:2], "element of the material")
            v = [h.parse(x) for x in t[f"material[{j + 1}]:initial-spin-direction"].split(",")]
            h.eq(h.np.array(v), h.np.array(axes[i], dtype=float), "direction of the spin", tol=h.frac(1, 10**8))
    h.true(f"material[{k + 1}]:material-name" not in t, "only materials that are used")


def _body(text):
    """Without comments."""
    return [x for x in (line.split("#")[0].rstrip() for line in text.splitlines()) if x]


def files(h):
    """dump_vampire: the three files belong together."""
    from magnopy.io import dump_mat, dump_ucf, dump_vampire

    m = _model(h, cell=h.np.eye(3))
    _fill(h, m)
    materials = h.choice("materials", [None, [0, 0], [1, 0]])
    before = c.snapshot(h, m)
    here = os.getcwd()
    os.chdir(h.scratch())
    try:
        nologo = h.boolean("nologo")
        dump_vampire(m, seedname="x", materials=materials, nologo=nologo)
        with open("input", encoding="utf-8") as f:
            three = f.read()
        inp = _mat(three)
        with open("x.UCF", encoding="utf-8") as f:
            one = f.read()
        with open("x.mat", encoding="utf-8") as f:
            two = f.read()
    finally:
        os.chdir(here)
    c.unchanged(h, before, c.snapshot(h, m), "export")
    h.same(inp.get("material:file"), "x.mat", "name of the material file")
    h.same(inp.get("material:unit-cell-file"), "x.UCF", "name of the unit cell file")
    u, t = _ucf(h, one), _mat(two)
    h.same(u["materials"], int(t["material:num-materials"]), "number of materials")
    h.same([a[2] for a in u["atoms"]], materials or [0, 1], "materials of the atoms")
    for a in u["atoms"]:
        h.true(f"material[{a[2] + 1}]:material-name" in t, "material of the atom is described")
    if nologo:
        h.true("magnopy" not in one + two + three, "no logo")
    else:
        h.true("magnopy" in one and "magnopy" in two and "magnopy" in three, "logo in every file")
    h.same(_body(one), _body(dump_ucf(m, materials=materials, nologo=True)), "unit cell file")
    h.same(_body(two), _body(dump_mat(m, materials=materials, nologo=True)), "material file")
    h.same(_body(dump_ucf(m, materials=materials)), _body(one), "unit cell file with the logo")
    h.same(_body(dump_mat(m, materials=materials)), _body(two), "material file with the logo")


def _symmetric(h, name):
    a = h.reals(name, 6)
    return h.np.array([[a[0], a[3], a[4]], [a[3], a[1], a[5]], [a[4], a[5], a[2]]], dtype=float)


def larger(h):
    """More atoms and bonds."""
    from magnopy.io import dump_ucf

    m, at, given, on = c.larger(
        h,
        notation=(h.boolean("dc"), h.boolean("norm"), 2, -3),
        matrix=lambda name: _symmetric(h, name) if name[0] == "A" else h.matrix(name),
        spins={x[0]: 1 + i for i, x in enumerate(c.LARGER_ATOMS)},
    )
    names = [x.name for x in m.magnetic_atoms]
    want = {}

    def add(key, M):
        want[key] = want[key] + M if key in want else M

    for x, y, R, _ in given:
        M = c.effective_exchange(h, m, x, y, R) * -1
        i, j = names.index(x.name), names.index(y.name)
        add((i, j, R), M)
        add((j, i, tuple(-v for v in R)), M.T)
    for x, M in on:
        i = names.index(x.name)
        add((i, i, (0, 0, 0)), c.effective_on_site(h, m, x) * -2)
    u = _ucf(h, dump_ucf(m, nologo=True))
    h.same([a[0] for a in u["atoms"]], [0, 1, 2, 3], "atoms with interactions only")
    for a, x in zip(u["atoms"], m.magnetic_atoms):
        h.eq(h.np.array(a[1]), h.np.array(x.position), "positions", tol=h.frac(1, 10**8))
    h.same(u["n"], len(want), "announced number of interactions")
    h.same([b[0] for b in u["bonds"]], list(range(len(want))), "numbers of the interactions")
    for key, M in want.items():
        got = [b[4] for b in u["bonds"] if b[1:4] == key]
        h.same(len(got), 1, "interaction is listed once")
        _close(h, got[0], M, "interaction", 1e-5)


HARNESSES = [
    H("ucf", ucf, bounds="3 atoms, 2 bonds, 1 on-site term, all notations, any triangular cell; any values"),
    H("parts", parts, bounds="1 bond, 4 kinds of masks, 3 precisions, all notations; any matrix"),
    H("failed", failed, bounds="3 atoms, 2 bonds, all notations; any values"),
    H("mat", mat, bounds="3 atoms, 4 sets of materials, 4 directions; any lengths"),
    H("materials", materials, bounds="3 atoms, all 10 ways to share consecutive materials; any spins"),
    H("files", files, bounds="3 sets of materials; any values"),
    H("larger", larger, bounds="6 atoms, 8 bonds, 3 on-site terms; any matrices"),
]
