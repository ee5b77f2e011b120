"""The Hamiltonian as a crystal: construction, ground-state description, change of the cell."""
from symex.runner import H
from checks import common as c

ASSUMPTIONS = [
    "standardization: the new lattice vectors are chosen by wulfric and only have to be a basis of the same lattice; "
    "the check replaces its choice by other ones (including families with symbolic integers)",
    "the cell is primitive (as wulfric assumes as well)",
]


def _basis(h):
    """Changes of the basis that keep the lattice."""
    s, t = h.int("s"), h.int("t")
    return h.choice(
        "basis",
        [
            [[0, -1, 0], [-1, 0, 0], [0, 0, -1]],
            [[0, 0, 1], [1, 0, 0], [0, 1, 0]],
            [[-1, 0, 0], [0, -1, 0], [0, 0, 1]],
            [[1, s, 0], [0, 1, 0], [0, t, 1]],
            [[1, 0, 0], [s, 1, t], [0, 0, 1]],
            [[2, 1, 1], [1, 1, 0], [1, 0, 2]],
            [[1, 1, 0], [0, 1, 1], [1, 2, 2]],
        ],
    )


class _standard_cell:
    """wulfric's choice of the standard cell, replaced by any other basis of the same lattice."""

    def __init__(self, np, S):
        self.S = np.array(S, dtype=float)

    def __enter__(self):
        from wulfric import Lattice

        self.old = Lattice.S_matrix
        Lattice.S_matrix = property(lambda lattice: self.S.copy())

    def __exit__(self, *a):
        from wulfric import Lattice

        Lattice.S_matrix = self.old


def standardize(h):
    np = h.np
    notation = (h.boolean("dc"), True, h.real("ex", nonzero=True), h.real("on", nonzero=True))
    x, y, z = (h.real(n, positive=True) for n in ("a", "b", "c"))
    m = c.model_of(h, [], cell=[[x, 0, 0], [y, x, 0], [0, y, z]], notation=notation)
    m.add_atom("A", position=h.vector("p"), spin=(0, 0, 1))
    m.add_atom("B", position=h.vector("r"), spin=(0, 0, 1))
    a, b = m.atoms
    R, Q = h.ints("R"), h.ints("Q")
    c.nonzero_R(h, Q)
    J, K, D = h.matrix("J"), h.matrix("K"), h.matrix("D")
    m.add_exchange(a, b, R, matrix=J)
    m.add_exchange(b, b, Q, matrix=K)
    m.add_on_site(a, matrix=D)
    spiral = h.boolean("spiral")
    if spiral:
        m.spiral_vector = h.vector("q")
        wave = m.spiral_vector @ np.array(m.reciprocal_cell)
    n = c.count_bonds(m)
    vectors = [(x.name, y.name, m.get_vector(x, y, S), np.array(M.matrix)) for x, y, S, M in m.exchange]
    places = [np.array(m.get_atom_coordinates(x, relative=False)) for x in (a, b)]
    with _standard_cell(np, _basis(h)):
        m.standardize()
    h.same(c.count_bonds(m), n, "number of bonds")
    h.same(m.notation[:2], notation[:2], "notation")
    h.eq(list(m.notation[2:]), list(notation[2:]), "factors")
    for x, place in zip((a, b), places):
        h.eq(m.get_atom_coordinates(x, relative=False), place, "atoms stay where they are")
    found = list(m.exchange)
    for x, y, v, M in vectors:
        same = [
            M2 for x2, y2, S, M2 in found
            if (x2.name, y2.name) == (x, y) and bool(c._eq_R(h, m.get_vector(x2, y2, S), v))
        ] if h.symbolic else [
            M2 for x2, y2, S, M2 in found
            if (x2.name, y2.name) == (x, y) and np.allclose(m.get_vector(x2, y2, S), v)
        ]
        h.same(len(same), 1, "bonds connect the same places")
        h.eq(same[0].matrix, M, "matrices of the bonds")
    for x, y, S, M in found:
        h.true((x, y, S) in m, "bonds are found")
        h.true(h.symbolic or all(isinstance(i, int) for i in S), "vectors of the cells are integers")
    h.eq(m[a].matrix, D, "on-site parameter")
    if m.spiral_vector is None:
        h.true(not spiral, "spiral vector is kept")
    else:
        h.eq(m.spiral_vector @ np.array(m.reciprocal_cell), wave, "spiral vector")


def construct(h):
    """All documented ways to create a Hamiltonian."""
    from magnopy import NotationError, SpinHamiltonian
    from wulfric import Atom, Crystal, Lattice

    np = h.np
    x, y, z = (h.real(n, positive=True) for n in ("a", "b", "c"))
    cell = np.array([[x, 0, 0], [y, x, 0], [0, y, z]], dtype=float)
    places = [h.vector("p"), h.vector("r")]
    spins = [h.vector("s"), h.vector("t")]
    g = h.real("g")

    def atoms():
        return [
            Atom("Cr", places[0], spin=spins[0], index=2, g_factor=g, charge=3),
            Atom("Br", places[1], spin=spins[1], index=1),
        ]

    given = {}
    kind = h.choice("notation", [None, "name", "list", "three"])
    ex, on = h.real("ex", nonzero=True), h.real("on", nonzero=True)
    if kind == "name":
        given["notation"] = h.choice("name", ["tb2j", "TB2J", "Tb2j"])
        want = (True, True, -1, -1)
    elif kind == "list":
        want = (h.boolean("dc"), h.boolean("normalized"), ex, on)
        given["notation"] = list(want)
    elif kind == "three":
        want = (h.boolean("dc"), h.boolean("normalized"), ex, ex)
        given["notation"] = want[:3]
    way = h.choice("way", ["crystal", "cell", "vectors", "lattice", "first", "empty", "positional"])
    if way == "crystal":
        m = SpinHamiltonian(crystal=Crystal(cell=cell, atoms=atoms()), **given)
    elif way == "positional":
        m = SpinHamiltonian(Crystal(cell=cell, atoms=atoms()), *given.values())
    elif way == "first":
        # the crystal wins over other descriptions
        m = SpinHamiltonian(Crystal(cell=cell, atoms=atoms()), cell=np.eye(3), atoms=[Atom("X", (0, 0, 0))], **given)
    elif way == "cell":
        m = SpinHamiltonian(cell=cell, atoms=atoms(), **given)
    elif way == "vectors":
        m = SpinHamiltonian(a1=cell[0], a2=cell[1], a3=cell[2], atoms=atoms(), **given)
    elif way == "lattice":
        m = SpinHamiltonian(lattice=Lattice(cell), atoms=atoms(), **given)
    else:
        m = SpinHamiltonian(**given)
    h.eq(m.cell, np.eye(3) if way == "empty" else cell, "cell")
    h.same([(i.name, i.index) for i in m.atoms], [] if way == "empty" else [("Cr", 2), ("Br", 1)], "atoms")
    for i, p, s in zip(m.atoms, places, spins):
        h.eq(i.position, p, "positions")
        h.eq(i.spin_vector, s, "spins")
    if way != "empty":
        h.eq(m.atoms[0].g_factor, g, "g factor")
        h.eq(m.atoms[0].charge, 3, "charge")
    if kind is None:
        for name in ("notation", "double_counting", "spin_normalized", "exchange_factor", "on_site_factor"):
            h.true(h.raises(lambda: getattr(m, name), NotationError) is not None, f"{name} is not defined")
    else:
        h.same(tuple(m.notation[:2]), tuple(want[:2]), "notation")
        h.eq(list(m.notation[2:]), list(want[2:]), "factors")
    h.same((len(m.exchange), len(m.on_site), len(m.magnetic_atoms), m.I), (0, 0, 0, 0), "there are no interactions")
    h.same((list(m.exchange), list(m.on_site)), ([], []), "there are no interactions")
    h.true(m.spiral_vector is None and m.cone_axis is None, "no ground state")


def ground_state(h):
    """Cone axis and spiral vector."""
    np = h.np
    m = c.model_of(h, [])
    v, q = h.vector("v"), h.vector("q")
    h.assume(h.lor(*[h.lor(t > 1e-4, t < -1e-4) for t in v]))
    given = h.choice("as", [np.array, list, tuple])
    w, r = given([x for x in v]), given([x for x in q])
    m.cone_axis = w
    m.spiral_vector = r
    n = m.cone_axis
    h.eq(n @ n, 1, "cone axis is a unit vector")
    h.eq(np.cross(n, v), np.zeros(3), "direction of the cone axis")
    h.true(n @ v > 0, "sense of the cone axis")
    h.eq(m.spiral_vector, q, "spiral vector is stored as given")
    h.eq(list(w), list(v), "given cone axis is not changed")
    if given is np.array:
        w[0] = 7
        r[1] = 7
    h.eq(m.cone_axis @ m.cone_axis, 1, "cone axis is not linked to the given array")
    h.eq(m.spiral_vector, q, "spiral vector is not linked to the given array")
    before = np.array(m.cone_axis)
    bad = h.choice("bad", [(1, 2), [[1, 2, 3]], 5, "abc", np.eye(3), [1, "x", 2], None, (0, 0, 0)])
    if not (isinstance(bad, tuple) and len(bad) == 3):
        h.true(h.raises(lambda: setattr(m, "spiral_vector", bad), ValueError) is not None, "malformed spiral vector is rejected")
    h.true(h.raises(lambda: setattr(m, "cone_axis", bad), ValueError) is not None, "malformed cone axis is rejected")
    h.eq(m.cone_axis, before, "cone axis is kept")
    h.eq(m.spiral_vector, q, "spiral vector is kept")


def magnetic(h):
    """Atoms that take part in interactions, ordered by their indices."""
    from wulfric import Atom

    np = h.np
    m = c.model_of(h, [])
    order = h.choice("order", [(1, 2, 3, 4), (4, 3, 2, 1), (2, 4, 1, 3)])
    for i, n in zip(order, "ABCD"):
        m.add_atom(Atom(n, (0.25 * i, 0, 0), index=i))
    used = set()
    R, Q = h.ints("R"), h.ints("Q")
    pair = h.choice("pair", [None, ("A", "B"), ("C", "A"), ("D", "D")])
    if pair:
        c.nonzero_R(h, R)
        m.add_exchange(*pair, R, matrix=h.matrix("J"))
        used |= set(pair)
    second = h.choice("second", [None, ("B", "C")])
    if second:
        m.add_exchange(*second, Q, matrix=h.matrix("K"))
        used |= set(second)
    site = h.choice("site", [None, "A", "D"])
    if site:
        m.add_on_site(site, matrix=h.matrix("L"))
        used.add(site)
    if h.boolean("declared"):
        m.notation = (h.boolean("dc"), False, 1, 1)

    def check(what):
        want = [n for i, n in sorted(zip(order, "ABCD")) if n in used]
        h.same([a.name for a in m.magnetic_atoms], want, f"{what}: magnetic atoms")
        h.same(m.I, len(want), f"{what}: number of magnetic atoms")
        h.same([a.name for a in m.atoms], list("ABCD"), f"{what}: atoms")

    check("start")
    if site:
        m.remove_on_site(site)
        used = set(pair or ()) | set(second or ())
        check("on-site removed")
    if second:
        m.remove_exchange(*_as_listed(m, second, Q))
        used = set(pair or ())
        check("bond removed")


def _as_listed(m, pair, Q):
    a, b = (m.get_atom(x) for x in pair)
    return (a, b, Q) if (a, b, Q) in m else (b, a, c.neg(Q))


def equal_index(h):
    """Magnetic atoms with equal indices (an atom was added after another one was removed)."""
    from magnopy import SpinHamiltonian
    from wulfric import Atom

    np = h.np
    m = SpinHamiltonian(cell=np.eye(3))
    names = ["Cr", "Fe", "Ni", "Co", "Mn", "V"]
    index = h.choice("index", [[1] * 6, [2, 1, 2, 1, 2, 1], [3, 3, 3, 1, 1, 1]])
    for name, i in zip(names, index):
        m.add_atom(Atom(name, (h.real(f"x{name}"), 0, 0), spin=(0, 0, 1), index=i))
    m.notation = (True, False, 1, 1)
    order = h.choice("order", [[5, 3, 1, 0, 2, 4], [1, 0, 5, 2, 4, 3]])
    for i in order:
        m.add_on_site(m.atoms[i], iso=1)
    expected = [name for i, name in sorted(zip(index, names), key=lambda x: x[0])]
    h.same([a.name for a in m.magnetic_atoms], expected, "order of the magnetic atoms")
    h.same([a.name for a in m.copy().magnetic_atoms], expected, "order of the magnetic atoms of a copy")


HARNESSES = [
    H("standardize", standardize, bounds="2 atoms anywhere in a skew cell of any size, 2 bonds and one on-site term, 5 changes of the basis and two families of them"),
    H("construct", construct, bounds="2 atoms, 7 ways to give the crystal, 4 kinds of notation"),
    H("ground_state", ground_state, bounds="all cone axes with a component above 1e-4, all spiral vectors, 8 malformed values"),
    H("magnetic", magnetic, bounds="4 atoms with 3 orders of indices, up to 2 bonds and one on-site term"),
    H("equal_index", equal_index, bounds="6 atoms, 3 lists of indices, 2 orders of terms"),
]
