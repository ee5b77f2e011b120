"""Shared pieces of the harnesses: model builders and oracles written against the public API."""


def atom(name, index=None, position=(0, 0, 0), spin=None, **kw):
    from wulfric import Atom

    if spin is None:
        return Atom(name, position, index=index, **kw)
    return Atom(name, position, spin=spin, index=index, **kw)


def neg(R):
    return tuple(-x for x in R)


def nonzero_R(h, R):
    h.assume(h.lor(*[x != 0 for x in R]))


def not_same_R(h, R, Q):
    h.assume(h.lor(*[a != b for a, b in zip(R, Q)]))


def model_of(h, atoms, cell=None, notation=None):
    from magnopy import SpinHamiltonian

    kw = {}
    if cell is not None:
        kw["cell"] = cell
    m = SpinHamiltonian(**kw)
    for a in atoms:
        m.add_atom(a)
    if notation is not None:
        m.notation = notation
    return m


def same_bond(b, a1, a2, R):
    return b[0] == a1 and b[1] == a2 and tuple(b[2]) == tuple(R)


def listed(model, a1, a2, R):
    """The matrices listed for one bond key."""
    return [b[3].matrix for b in model.exchange if same_bond(b, a1, a2, R)]


def spin_weight(model, atom):
    """Spins enter as unit vectors (spin-normalised) or with their length."""
    return 1 if model.spin_normalized else atom.spin


def effective_exchange(h, model, a1, a2, R):
    """Matrix M of the energy term e1 . M . e2 (unit vectors e1, e2) of the bond a1-a2-R,
    whichever way round and however often the model lists it."""
    total = h.np.zeros((3, 3))
    for x1, x2, Q, p in model.exchange:
        if x1 == a1 and x2 == a2 and tuple(Q) == tuple(R):
            total = total + h.np.array(p.matrix)
        elif x1 == a2 and x2 == a1 and tuple(Q) == neg(R):
            total = total + h.np.array(p.matrix).T
    return (
        total * model.exchange_factor * spin_weight(model, a1) * spin_weight(model, a2)
    )


def effective_on_site(h, model, a):
    total = h.np.zeros((3, 3))
    for x, p in model.on_site:
        if x == a:
            total = total + h.np.array(p.matrix)
    return total * model.on_site_factor * spin_weight(model, a) ** 2


def count_bonds(model):
    return len(list(model.exchange))


def snapshot(h, m):
    """Everything observable of a model, as plain values."""
    np = h.np
    try:
        notation = m.notation
    except Exception:
        notation = None
    return dict(
        notation=notation,
        cell=np.array(m.cell),
        atoms=[
            (a.name, a.index, np.array(a.position), np.array(a.spin_vector), a.g_factor) for a in m.atoms
        ],
        exchange=[((x.fullname, y.fullname), tuple(R), np.array(p.matrix)) for x, y, R, p in m.exchange],
        on_site=[(x.fullname, np.array(p.matrix)) for x, p in m.on_site],
        spiral=None if m.spiral_vector is None else np.array(m.spiral_vector),
        cone=None if m.cone_axis is None else np.array(m.cone_axis),
    )


def unchanged(h, s, t, what):
    h.same(t["notation"] is None, s["notation"] is None, f"{what}: notation is kept")
    if s["notation"] is not None:
        h.same(t["notation"][:2], s["notation"][:2], f"{what}: notation is kept")
        h.eq(
            h.np.array(list(t["notation"][2:]), dtype=float),
            h.np.array(list(s["notation"][2:]), dtype=float),
            f"{what}: notation is kept",
        )
    h.eq(t["cell"], s["cell"], f"{what}: cell is kept")
    h.same([x[:2] for x in t["atoms"]], [x[:2] for x in s["atoms"]], f"{what}: atoms are kept")
    for x, y in zip(s["atoms"], t["atoms"]):
        h.eq(y[2], x[2], f"{what}: positions are kept")
        h.eq(y[3], x[3], f"{what}: spins are kept")
        h.eq(y[4], x[4], f"{what}: g factors are kept")
    same_terms(h, s, t, what)
    for k in ("spiral", "cone"):
        h.same(t[k] is None, s[k] is None, f"{what}: {k} is kept")
        if s[k] is not None:
            h.eq(t[k], s[k], f"{what}: {k} is kept")


def same_terms(h, s, t, what):
    """The same bonds and on-site terms, in any order."""
    h.same(len(t["exchange"]), len(s["exchange"]), f"{what}: number of bonds is kept")
    for names, R, M in s["exchange"]:
        got = [N for n2, Q, N in t["exchange"] if n2 == names and bool(_eq_R(h, Q, R))]
        h.same(len(got), 1, f"{what}: bonds are kept")
        h.eq(got[0], M, f"{what}: exchange matrices are kept")
    h.same(len(t["on_site"]), len(s["on_site"]), f"{what}: number of on-site terms is kept")
    for name, M in s["on_site"]:
        got = [N for n2, N in t["on_site"] if n2 == name]
        h.same(len(got), 1, f"{what}: on-site terms are kept")
        h.eq(got[0], M, f"{what}: on-site matrices are kept")


def _eq_R(h, Q, R):
    return h.land(*[x == y for x, y in zip(Q, R)])


def same_interactions(h, s, t, what):
    """Same notation, geometry and interactions; without double counting a bond may be
    listed in the other direction (with the transposed matrix)."""
    h.same(t["notation"][:2], s["notation"][:2], f"{what}: notation is kept")
    h.eq(
        h.np.array(list(t["notation"][2:]), dtype=float),
        h.np.array(list(s["notation"][2:]), dtype=float),
        f"{what}: notation is kept",
    )
    h.eq(t["cell"], s["cell"], f"{what}: cell is kept")
    h.same([x[:2] for x in t["atoms"]], [x[:2] for x in s["atoms"]], f"{what}: atoms are kept")
    for x, y in zip(s["atoms"], t["atoms"]):
        h.eq(y[2], x[2], f"{what}: positions are kept")
        h.eq(y[3], x[3], f"{what}: spins are kept")
    u = dict(t)
    if not s["notation"][0]:
        u["exchange"] = []
        for names, R, M in t["exchange"]:
            keep = True
            for n2, Q, _ in s["exchange"]:
                if n2 == (names[1], names[0]) and bool(_eq_R(h, neg(Q), R)):
                    if not (names[0] == names[1] and bool(_eq_R(h, Q, R))):
                        keep = False
            if keep:
                u["exchange"].append((names, R, M))
            else:
                u["exchange"].append(((names[1], names[0]), neg(R), h.np.array(M).T))
    same_terms(h, s, u, what)


def command(module, *argv):
    """Runs the script of the module with a command line."""
    import sys

    old, sys.argv = sys.argv, ["magnopy-script", *argv]
    try:
        module.main()
    except SystemExit as e:
        if e.code not in (None, 0):
            raise ValueError("command line is not accepted")
    finally:
        sys.argv = old


# A model of more atoms and bonds than the other harnesses take: atoms without interactions
# first and in between, indices in no order, several bonds of one pair, distant cells.
LARGER_ATOMS = [
    # name, index, position, has spin interactions
    ("O1", 4, (0.5, 0.5, 0.5), False),
    ("Fe1", 7, (0, 0, 0), True),
    ("Fe2", 3, (0.5, 0, 0), True),
    ("O2", 9, (0, 0.5, 0.25), False),
    ("Mn", 12, (0.25, 0.5, 0.75), True),
    ("Co", 5, (0.25, 0.25, 0.5), True),
]
LARGER_BONDS = [
    ("Fe1", "Fe2", (0, 0, 0)),
    ("Fe1", "Fe2", (-1, 0, 0)),
    ("Fe2", "Fe1", (0, 0, 12)),
    ("Fe1", "Fe1", (0, 1, 0)),
    ("Mn", "Co", (0, 0, -1)),
    ("Co", "Fe1", (0, 0, 0)),
    ("Co", "Co", (-1, 1, 0)),
    ("Mn", "Fe2", (10, -11, 1)),
]
LARGER_ON_SITE = ["Mn", "Fe2", "Co"]


def larger(h, notation=None, cell=None, bonds=None, matrix=None, spins=None):
    """The model, its atoms by name, the bonds and on-site terms as they were given."""
    from magnopy import SpinHamiltonian

    cell = h.np.diag([3.0, 4.0, 7.0]) if cell is None else cell
    m = SpinHamiltonian(cell=cell)
    at = {}
    for name, index, position, _ in LARGER_ATOMS:
        spin = spins[name] if spins else h.real(f"s{name}", positive=True)
        at[name] = atom(name, index, position, spin=spin, g_factor=h.real(f"g{name}"))
        m.add_atom(at[name])
    m.notation = notation if notation is not None else (
        h.boolean("dc"), h.boolean("norm"), h.real("f", nonzero=True), h.real("g", nonzero=True)
    )
    matrix = matrix if matrix is not None else h.matrix
    given, on = [], []
    for i, (x, y, R) in enumerate(LARGER_BONDS if bonds is None else bonds):
        M = matrix(f"J{i}")
        m.add_exchange(at[x], at[y], R, matrix=M)
        given.append((at[x], at[y], R, M))
    for i, x in enumerate(LARGER_ON_SITE):
        M = matrix(f"A{i}")
        m.add_on_site(at[x], matrix=M)
        on.append((at[x], M))
    return m, at, given, on
