"""HDF5 model files: what is written is read back, files are read as documented."""
from symex.runner import H
from checks import common as c
from checks.P12 import _model, _compare
from checks.P11 import BOHR, ENERGY, triangular, _close

ASSUMPTIONS = [
    "HDF5 itself stores and returns 64-bit numbers, names and groups unchanged (a real file is written; symbolic numbers are carried by unique stored values)",
    "values of the physical constants are compared with a relative tolerance of 1e-6",
]


def _file(h, name="model.hdf5"):
    return h.scratch() + "/" + name


def _equal(h, m, n, content):
    """Everything is kept exactly."""
    np = h.np
    h.eq(np.array(n.cell), np.array(m.cell), "cell")
    h.same([a.name for a in n.atoms], [a.name for a in m.atoms], "names of the atoms")
    for a, b in zip(m.atoms, n.atoms):
        h.eq(np.array(b.position), np.array(a.position), "positions")
        h.eq(np.array(b.spin_vector), np.array(a.spin_vector), "spin vectors")
        h.eq(b.g_factor, a.g_factor, "g factors")
    if content != "none":
        h.same(bool(n.spin_normalized), bool(m.spin_normalized), "normalisation of spins")
    if content in ("exchange", "both"):
        h.same(bool(n.double_counting), bool(m.double_counting), "double counting")
        h.eq(n.exchange_factor, m.exchange_factor, "exchange factor")
    if content in ("on-site", "both"):
        h.eq(n.on_site_factor, m.on_site_factor, "on-site factor")
    x, y = list(m.exchange), list(n.exchange)
    h.same(len(y), len(x), "number of bonds")
    for a1, a2, R, p in x:
        got = [q for b1, b2, Q, q in y if b1.name == a1.name and b2.name == a2.name and tuple(Q) == tuple(R)]
        h.same(len(got), 1, "bond is kept")
        h.eq(np.array(got[0].matrix), np.array(p.matrix), "exchange matrix")
    x, y = list(m.on_site), list(n.on_site)
    h.same(len(y), len(x), "number of on-site parameters")
    for a, p in x:
        got = [q for b, q in y if b.name == a.name]
        h.same(len(got), 1, "on-site parameter is kept")
        h.eq(np.array(got[0].matrix), np.array(p.matrix), "on-site matrix")


def round_trip(h):
    """Any content in any notation."""
    from magnopy import dump_spinham_hdf5, load_spinham

    content = h.choice("content", ["none", "exchange", "on-site", "both"])
    m = _model(h, content, h.boolean("dc"), h.boolean("normalized"), cell=triangular(h))
    s = c.snapshot(h, m)
    dump_spinham_hdf5(m, filename=_file(h))
    c.unchanged(h, s, c.snapshot(h, m), "writing")
    n = load_spinham(_file(h))
    _equal(h, m, n, content)
    h.true(n.spiral_vector is None, "no spiral vector")
    h.true(n.cone_axis is None, "no cone axis")


def ground(h):
    """Cone axis and spiral vector."""
    from magnopy import dump_spinham_hdf5, load_spinham_hdf5

    m = _model(h, "none", cell=triangular(h))
    what = h.choice("what", ["axis", "spiral", "both"])
    if what != "spiral":
        m.cone_axis = h.unit("n")
    if what != "axis":
        m.spiral_vector = h.reals("q", 3)
    dump_spinham_hdf5(m, filename=_file(h))
    n = load_spinham_hdf5(_file(h))
    _equal(h, m, n, "none")
    if what != "spiral":
        h.eq(h.np.array(n.cone_axis), h.np.array(m.cone_axis), "cone axis")
    else:
        h.true(n.cone_axis is None, "no cone axis")
    if what != "axis":
        h.eq(h.np.array(n.spiral_vector), h.np.array(m.spiral_vector), "spiral vector")
    else:
        h.true(n.spiral_vector is None, "no spiral vector")


def many(h):
    """Order of the atoms, more than ten of everything."""
    from magnopy import SpinHamiltonian, dump_spinham_hdf5, load_spinham

    m = SpinHamiltonian(cell=h.np.eye(3))
    n = h.choice("atoms", [2, 12, 21])
    x = h.reals("x", n)
    for i in range(n):
        m.add_atom(f"Cr{i + 1}", position=(x[i], 0, 0), spin=(0, 0, 1))
    m.notation = (False, True, 1, 1)
    J = h.reals("J", n)
    for i in range(n):
        m.add_exchange(m.atoms[0], m.atoms[i], (0, 0, 1 + i), iso=J[i])
        m.add_on_site(m.atoms[i], matrix=h.np.eye(3) * J[i])
    dump_spinham_hdf5(m, filename=_file(h))
    _equal(h, m, load_spinham(_file(h)), "both")


def charge(h):
    """Charges of the atoms, where given."""
    from magnopy import SpinHamiltonian, dump_spinham_hdf5, load_spinham

    m = SpinHamiltonian(cell=h.np.eye(3))
    q = h.real("q")
    m.add_atom("Fe1", spin=(0, 0, 1), charge=q)
    m.add_atom("Fe2", spin=(0, 0, 1))
    dump_spinham_hdf5(m, filename=_file(h))
    n = load_spinham(_file(h))
    h.eq(n.atoms[0].charge, q, "charge")
    h.true(h.raises(lambda: n.atoms[1].charge, ValueError) is not None, "no charge is made up")


def groups(h):
    """Several models in one file."""
    from magnopy import SpinHamiltonian, dump_spinham_hdf5, load_spinham

    names = h.choice("names", [("spinham", "other"), ("a", "a2"), ("one/deep", "one/more"), ("x", "y/z")])
    first = _model(h, "both", True, False)
    second = SpinHamiltonian(cell=h.np.eye(3))
    second.add_atom("O", position=h.reals("r", 3), spin=(0, 0, 3))
    name = _file(h)
    with h.h5py.File(name, "a") as f:
        f.create_group("notes").attrs["type"] = "Notes"
        f.create_dataset("numbers", data=[1.0, 2.0])
    dump_spinham_hdf5(first, filename=name, groupname=names[0])
    # the only model of the file is found
    _equal(h, first, load_spinham(name), "both")
    dump_spinham_hdf5(second, filename=name, groupname=names[1])
    _equal(h, first, load_spinham(name, groupname=names[0]), "both")
    _equal(h, second, load_spinham(name, groupname=names[1]), "none")
    h.true(h.raises(lambda: load_spinham(name), RuntimeError) is not None, "ambiguous file is rejected")
    h.true(h.raises(lambda: load_spinham(name, groupname="absent"), Exception) is not None, "absent group is rejected")
    with h.h5py.File(name, "r") as f:
        h.same(f["notes"].attrs["type"], "Notes", "other content of the file is kept")
        h.eq(f["numbers"][:], h.np.array([1.0, 2.0]), "other content of the file is kept")


def empty(h):
    """A file without models."""
    from magnopy import load_spinham

    with h.h5py.File(_file(h), "a") as f:
        f.create_group("notes").attrs["type"] = "Notes"
    h.true(h.raises(lambda: load_spinham(_file(h)), RuntimeError) is not None, "file without a model is rejected")


def overwrite(h):
    """An existing model is replaced only on request, and then completely."""
    from magnopy import SpinHamiltonian, dump_spinham_hdf5, load_spinham

    first = _model(h, "both", True, False)
    first.cone_axis = (0, 0, 1)
    first.spiral_vector = (0, 0, h.real("q"))
    second = SpinHamiltonian(cell=h.np.eye(3) * h.real("a", positive=True))
    second.add_atom("O", position=h.reals("r", 3), spin=(0, 0, 3))
    name = _file(h)
    dump_spinham_hdf5(first, filename=name)
    e = h.raises(lambda: dump_spinham_hdf5(second, filename=name), FileExistsError)
    h.true(e is not None, "existing model is not replaced silently")
    n = load_spinham(name)
    _equal(h, first, n, "both")
    h.eq(h.np.array(n.spiral_vector), h.np.array(first.spiral_vector), "spiral vector of the kept model")
    e = None
    dump_spinham_hdf5(second, filename=name, overwrite=True)
    n = load_spinham(name)
    _equal(h, second, n, "none")
    h.true(n.spiral_vector is None, "spiral vector of the old model is gone")
    h.true(n.cone_axis is None, "cone axis of the old model is gone")


def _write(h, cell_units="Angstrom", exchange=None, on_site=None, spiral=None, axis=None, notation=(0, 1), skip=(), atoms=("Fe1", "Fe2"), bond=("Fe1", "Fe2"), site="Fe2"):
    """A file made by hand, along the specification of the format."""
    A = triangular(h)
    p = h.reals("p", 3)
    v = dict(A=A, p=p, J=h.matrix("J"), ex=h.real("ex", nonzero=True), on=h.real("on", nonzero=True))
    a = h.reals("K", 6)
    v["K"] = h.np.array([[a[0], a[3], a[4]], [a[3], a[1], a[5]], [a[4], a[5], a[2]]], dtype=float)
    f = h.h5py.File(_file(h), "w")
    g = f.create_group("model")
    if "type" not in skip:
        g.attrs["type"] = h.choice("type", ["SpinHamiltonian", "spinhamiltonian"]) if not skip else "SpinHamiltonian"
    if "cell" not in skip:
        x = g.create_group("cell")
        x.attrs["units"] = cell_units
        for i in range(3):
            x.create_dataset(f"a{i + 1}", data=A[i])
    if "atoms" not in skip:
        x = g.create_group("atoms")
        for i, n in enumerate(atoms):
            y = x.create_group(str(i + 1))
            y.create_dataset("name", data=n)
            y.create_dataset("position", data=h.np.array(p) if i == 0 else [0.5, 0.5, 0.0])
            y.create_dataset("spin", data=[0.0, 0.0, 1.5])
            y.create_dataset("g-factor", data=2.0)
    if "notation" not in skip:
        x = g.create_group("notation")
        x.create_dataset("double-counting", data=notation[0])
        x.create_dataset("spin-normalized", data=notation[1])
        x.create_dataset("exchange-factor", data=v["ex"])
        x.create_dataset("on-site-factor", data=v["on"])
    if exchange is not None:
        x = g.create_group("exchange")
        x.attrs["units"] = exchange
        y = x.create_group("1")
        y.create_dataset("atom-1", data=bond[0])
        y.create_dataset("atom-2", data=bond[1])
        y.create_dataset("ijk", data=[1, 0, -2])
        y.create_dataset("matrix", data=v["J"])
    if on_site is not None:
        x = g.create_group("on-site")
        x.attrs["units"] = on_site
        y = x.create_group("1")
        y.create_dataset("atom", data=site)
        y.create_dataset("matrix", data=v["K"])
    for n, t in (("spiral-vector", spiral), ("cone-axis", axis)):
        if t is not None:
            x = g.create_dataset(n, data=h.np.array(t[1]))
            x.attrs["units"] = t[0]
    f.close()
    return v


UNITS = [("milli-electron-Volt", "m"), ("Electron-Volt", "e"), ("joule", "j"), ("Kelvin", "k"), ("RYDBERG", "r")]


def units(h):
    """Units of every part of the file."""
    from magnopy import load_spinham

    cell, factor = h.choice("cell", [("Angstrom", 1), ("angstrom", 1), ("Bohr", BOHR), ("BOHR", BOHR)])
    ex, ek = h.choice("exchange", UNITS)
    on, ok = h.choice("on_site", UNITS)
    dc, norm = h.choice("notation", [(0, 0), (1, 1), (0, 1)])
    v = _write(h, cell, ex, on, notation=(dc, norm))
    m = load_spinham(_file(h))
    _close(h, m.cell, v["A"] * factor, "lattice vectors")
    h.same([a.name for a in m.atoms], ["Fe1", "Fe2"], "atoms")
    h.eq(h.np.array(m.atoms[0].position), h.np.array(v["p"]), "position")
    h.eq(h.np.array(m.atoms[1].position), h.np.array([0.5, 0.5, 0.0]), "position")
    for a in m.atoms:
        h.eq(h.np.array(a.spin_vector), h.np.array([0, 0, 1.5]), "spin")
        h.eq(a.g_factor, 2, "g factor")
    h.same(bool(m.double_counting), bool(dc), "double counting")
    h.same(bool(m.spin_normalized), bool(norm), "normalisation of spins")
    h.eq(m.exchange_factor, v["ex"], "exchange factor")
    h.eq(m.on_site_factor, v["on"], "on-site factor")
    bonds = list(m.exchange)
    h.same(len(bonds), 2 if dc else 1, "number of bonds")
    got = [q for a, b, R, q in bonds if (a.name, b.name) == ("Fe1", "Fe2")]
    h.same(len(got), 1, "bond")
    _close(h, got[0].matrix, v["J"] * ENERGY[ek], "exchange matrix")
    h.same([tuple(R) for a, b, R, q in bonds if a.name == "Fe1"], [(1, 0, -2)], "cell of the bond")
    sites = list(m.on_site)
    h.same([a.name for a, q in sites], ["Fe2"], "on-site atoms")
    _close(h, sites[0][1].matrix, v["K"] * ENERGY[ok], "on-site matrix")


def vectors(h):
    """Relative and absolute spiral vector and cone axis."""
    from magnopy import load_spinham

    q, n = h.reals("q", 3), h.reals("n", 3)
    sk = h.choice("spiral", ["Relative", "absolute", "Absolute"])
    ak = h.choice("axis", ["relative", "Relative", "absolute"])
    unit, factor = h.choice("cell", [("Angstrom", 1), ("Bohr", BOHR)])
    v = _write(h, unit, spiral=(sk, q), axis=(ak, n))
    w = n if ak == "absolute" else [sum(n[i] * v["A"][i][j] * factor for i in range(3)) for j in range(3)]
    # not a zero vector
    k = h.choice("component", [0, 1, 2])
    h.assume(h.lor(w[k] > 1e-3, w[k] < -1e-3))
    m = load_spinham(_file(h))
    A = h.np.array(m.cell)
    got = h.np.array(m.spiral_vector)
    if sk == "Relative":
        h.eq(got, h.np.array(q), "spiral vector")
    else:
        # q . a_i / (2 pi) are the relative coordinates
        for i in range(3):
            h.eq(got[i] * 2 * h.pi, q[0] * A[i][0] + q[1] * A[i][1] + q[2] * A[i][2], "spiral vector")
    d = h.np.array(m.cone_axis)
    h.eq(d[0] * d[0] + d[1] * d[1] + d[2] * d[2], 1, "cone axis is a unit vector")
    h.eq(h.np.array([d[1] * w[2] - d[2] * w[1], d[2] * w[0] - d[0] * w[2], d[0] * w[1] - d[1] * w[0]]), h.np.zeros(3), "direction of the cone axis")
    h.true(d[0] * w[0] + d[1] * w[1] + d[2] * w[2] > 0, "sign of the cone axis")


def malformed(h):
    """Files that break the rules are rejected."""
    from magnopy import load_spinham

    good = dict(exchange="Joule", on_site="Kelvin")
    bad = h.choice(
        "what",
        [
            dict(exchange="meters"),
            dict(on_site="meters"),
            dict(cell_units="meters"),
            dict(skip=("cell",)),
            dict(skip=("atoms",)),
            dict(skip=("notation",)),
            dict(skip=("type",)),
            dict(bond=("Fe1", "Fe3")),
            dict(bond=("Fe3", "Fe1")),
            dict(site="Fe3"),
            dict(spiral=("meters", (0, 0, 0.5))),
            dict(axis=("meters", (0, 0, 1.0))),
            dict(atoms=("Fe1", "Fe1")),
        ],
    )
    _write(h, **{**good, **bad})
    h.true(h.raises(lambda: load_spinham(_file(h)), Exception) is not None, "malformed file is rejected")


def interchange(h):
    """The same model in both formats."""
    from magnopy import dump_spinham_hdf5, dump_spinham_txt, load_spinham

    m = _model(h, "both", h.boolean("dc"), h.boolean("normalized"))
    m.spiral_vector = h.reals("q", 3)
    txt = _file(h, "a.txt")
    dump_spinham_txt(m, filename=txt)
    n = load_spinham(txt)
    dump_spinham_hdf5(n, filename=_file(h))
    k = load_spinham(_file(h))
    _compare(h, m, k, "both")
    _equal(h, n, k, "both")
    h.eq(h.np.array(k.spiral_vector), h.np.array(n.spiral_vector), "spiral vector")
    txt = _file(h, "b.txt")
    dump_spinham_txt(k, filename=txt)
    _compare(h, k, load_spinham(txt), "both")


def equal_names(h):
    """Atoms with the same name: the file can be read, the bonds connect the same atoms."""
    from magnopy import SpinHamiltonian, dump_spinham_hdf5, load_spinham

    np = h.np
    m = SpinHamiltonian(cell=np.eye(3) * 3)
    x = h.reals("x", 4)
    for i, name in enumerate(h.choice("names", [["Fe", "Fe", "Ni", "Ni"], ["Fe", "Ni", "Fe", "Fe1"], ["Fe", "Fe", "Fe", "Fe"]])):
        m.add_atom(name, position=(x[i], 0.5, 0.25), spin=(0, i, 1))
    m.notation = (True, False, 1, 1)
    a = m.atoms
    J = h.reals("J", 4)
    for i, j, R in ((0, 1, (0, 0, 0)), (2, 0, (1, 0, 0)), (3, 3, (0, 1, 0)), (1, 3, (0, 0, 0))):
        m.add_exchange(a[i], a[j], R, matrix=np.eye(3) * J[i])
        m.add_on_site(a[i], matrix=np.eye(3) * J[i])
    before = c.snapshot(h, m)
    name = _file(h)
    dump_spinham_hdf5(m, filename=name)
    n = load_spinham(name)
    c.unchanged(h, before, c.snapshot(h, m), "writing")
    h.same(len(n.atoms), 4, "all atoms")
    h.same(len({b.name for b in n.atoms}), 4, "different names")
    t8, t4 = 0, 0
    for p, q in zip(m.atoms, n.atoms):
        h.true(q.name.startswith(p.name), "name of the atom is kept in the name that is written")
        h.eq(np.array(q.position), np.array(p.position), "positions", tol=t8)
    got = {(n.atoms.index(p), n.atoms.index(q), tuple(int(r) for r in R)): J for p, q, R, J in n.exchange}
    want = {(a.index(p), a.index(q), tuple(R)): J for p, q, R, J in m.exchange}
    h.same(sorted(got), sorted(want), "bonds")
    for key in want:
        h.eq(np.array(got[key].matrix), np.array(want[key].matrix), "matrix of the bond", tol=t4)
    got = {n.atoms.index(p): J for p, J in n.on_site}
    for p, J in m.on_site:
        h.eq(np.array(got[a.index(p)].matrix), np.array(J.matrix), "on-site matrix", tol=t4)


HARNESSES = [
    H("round_trip", round_trip, bounds="2 atoms, 2 bonds, 1 on-site term, all notations, any triangular cell; any values"),
    H("ground", ground, bounds="any triangular cell, spiral vector and cone axis"),
    H("many", many, bounds="2, 12 and 21 atoms, as many bonds and on-site terms; any values"),
    H("charge", charge, bounds="2 atoms, any charge"),
    H("groups", groups, bounds="2 models, 4 pairs of group names; any values"),
    H("empty", empty, bounds="file without models"),
    H("overwrite", overwrite, bounds="2 models; any values"),
    H("units", units, bounds="all units of cell, exchange and on-site terms; any values"),
    H("vectors", vectors, bounds="all units of both vectors; any values"),
    H("malformed", malformed, bounds="13 kinds of malformed files; any values"),
    H("interchange", interchange, bounds="2 atoms, 2 bonds, 1 on-site term; any values"),
    H("equal_names", equal_names, bounds="4 atoms with 3 sets of names that are not unique, 4 bonds, 4 on-site terms"),
]
