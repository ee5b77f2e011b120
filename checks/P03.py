"""The Hamiltonian is a map from bonds and atoms to parameters."""
from symex.runner import H
from checks import common as c

ASSUMPTIONS = ["no bond connects an atom with itself in the same unit cell"]


class Ref:
    """Reference map: association list with the documented semantics."""

    def __init__(self, dc):
        self.dc = dc
        self.ex = []
        self.on = []

    @staticmethod
    def same(k, q):
        return k[0] is q[0] and k[1] is q[1] and tuple(k[2]) == tuple(q[2])

    def drop(self, key):
        self.ex = [(k, v) for k, v in self.ex if not self.same(k, key)]

    def put(self, h, key, value):
        for k, M in [(key, value)] + (
            [((key[1], key[0], c.neg(key[2])), h.np.array(value).T)] if self.dc else []
        ):
            for i, (q, _) in enumerate(self.ex):
                if self.same(k, q):
                    self.ex[i] = (q, M)
                    break
            else:
                self.ex.append((k, M))

    def remove(self, key):
        n = len(self.ex)
        self.drop(key)
        found = len(self.ex) < n
        if self.dc:
            self.drop((key[1], key[0], c.neg(key[2])))
        return found

    def has(self, key):
        return any(self.same(k, key) for k, _ in self.ex)

    def put_on(self, a, M):
        for i, (x, _) in enumerate(self.on):
            if x is a:
                self.on[i] = (x, M)
                return
        self.on.append((a, M))

    def remove_on(self, a):
        n = len(self.on)
        self.on = [(x, M) for x, M in self.on if x is not a]
        return len(self.on) < n

    def atoms(self):
        out = []
        for k, _ in self.ex:
            out += [k[0], k[1]]
        out += [x for x, _ in self.on]
        return sorted({id(x): x for x in out}.values(), key=lambda x: x.index)


def _check(h, m, ref, what):
    bonds = list(m.exchange)
    h.same(len(bonds), len(ref.ex), f"{what}: number of bonds")
    h.same(len(m.exchange), len(ref.ex), f"{what}: length of the iterator")
    for key, M in ref.ex:
        h.true(key in m, f"{what}: stored bond is found")
        h.eq(m[key].matrix, M, f"{what}: matrix of a bond")
        n = 0
        for b in bonds:
            if ref.same(b, key):
                n += 1
                h.eq(b[3].matrix, M, f"{what}: matrix of an iterated bond")
        h.same(n, 1, f"{what}: each bond is iterated once")
    sites = list(m.on_site)
    h.same(len(sites), len(ref.on), f"{what}: number of on-site parameters")
    h.same(len(m.on_site), len(ref.on), f"{what}: length of the on-site iterator")
    for a, M in ref.on:
        h.true(a in m, f"{what}: stored on-site parameter is found")
        h.eq(m[a].matrix, M, f"{what}: on-site matrix")
        h.same(sum(1 for x, _ in sites if x is a), 1, f"{what}: each atom is iterated once")
    mag = m.magnetic_atoms
    want = ref.atoms()
    h.same(len(mag), len(want), f"{what}: number of magnetic atoms")
    h.same(all(x is y for x, y in zip(mag, want)), True, f"{what}: magnetic atoms by index")
    h.same(m.I, len(want), f"{what}: number of spins")


def ops(h, n):
    from magnopy import MatrixParameter

    dc = h.choice("dc", [None, False, True])
    a = c.atom("Cr", 2, (0.25, 0.5, 0))
    b = c.atom("Cr", 1)
    x = c.atom("Br", 3, (0.5, 0.5, 0.5))
    m = c.model_of(h, [a, b, x])
    if dc is not None:
        m.notation = (dc, False, 1, 1)
    ref = Ref(bool(dc))
    R = h.ints("R")
    J, A = h.matrix("J"), h.matrix("A")
    m.add_exchange(a, b, R, MatrixParameter(matrix=J))
    ref.put(h, (a, b, R), J)
    m[a] = MatrixParameter(matrix=A)
    ref.put_on(a, A)
    _check(h, m, ref, "initial")
    named = {id(a): "Cr__2", id(b): "Cr__1", id(x): "Br"}
    for i in range(n):
        op = h.choice(f"op{i}", ["add", "remove", "add site", "remove site", "remove atom"])
        if op in ("add", "remove"):
            p, q = h.choice(f"pair{i}", [(a, b), (b, a), (b, x), (b, b)])
            Q = h.ints(f"Q{i}")
            if p is q:
                c.nonzero_R(h, Q)
            if dc is False:
                # assumption: no mirrored duplicates without double counting
                h.assume(not ref.has((q, p, c.neg(Q))))
            if h.boolean(f"names{i}"):
                kp, kq = named[id(p)], named[id(q)]
            else:
                kp, kq = p, q
            if op == "add":
                M = h.matrix(f"M{i}")
                if h.boolean(f"item{i}"):
                    m[kp, kq, Q] = MatrixParameter(matrix=M)
                else:
                    m.add_exchange(kp, kq, Q, matrix=M)
                ref.put(h, (p, q, Q), M)
            else:
                present = ref.has((p, q, Q))
                h.same((kp, kq, Q) in m, present, "membership of a bond")
                if h.boolean(f"item{i}"):

                    def fn():
                        del m[kp, kq, Q]

                else:

                    def fn():
                        m.remove_exchange(kp, kq, Q)

                e = h.raises(fn, KeyError)
                h.same(e is None, present, "KeyError exactly for an absent bond")
                ref.remove((p, q, Q))
        elif op in ("add site", "remove site"):
            p = h.choice(f"site{i}", [a, b])
            kp = named[id(p)] if h.boolean(f"names{i}") else p
            if op == "add site":
                M = h.matrix(f"M{i}")
                if h.boolean(f"item{i}"):
                    m[kp] = MatrixParameter(matrix=M)
                else:
                    m.add_on_site(kp, matrix=M)
                ref.put_on(p, M)
            else:
                present = any(y is p for y, _ in ref.on)
                h.same(kp in m, present, "membership of an on-site parameter")

                def fn():
                    m.remove_on_site(kp)

                e = h.raises(fn, KeyError)
                h.same(e is None, present, "KeyError exactly for an absent on-site parameter")
                ref.remove_on(p)
        else:
            p = h.choice(f"gone{i}", [a, x])
            if not any(y is p for y in m.atoms):
                continue
            m.remove_atom(named[id(p)] if h.boolean(f"names{i}") else p)
            ref.ex = [(k, v) for k, v in ref.ex if k[0] is not p and k[1] is not p]
            ref.remove_on(p)
            h.true(not any(y is p for y in m.atoms), "removed atom is gone")
            if p is x:
                x = c.atom("Br", 4, (0.5, 0.5, 0.5))
                m.add_atom(x)
                named[id(x)] = "Br"
            else:
                return _check(h, m, ref, "atom removed")
        _check(h, m, ref, op)


def one(h):
    ops(h, 1)


def two(h):
    ops(h, 2)


def exchange_like(h):
    """On-site parameters in the exchange form carry the same energy."""
    from magnopy import MatrixParameter

    a, b = c.atom("A", 1), c.atom("B", 2, (0.25, 0.5, 0))
    m = c.model_of(h, [a, b])
    f, g = h.real("f", nonzero=True), h.real("g", nonzero=True)
    m.notation = (h.boolean("dc"), h.boolean("norm"), f, g)
    R = h.ints("R")
    J, A, B = h.matrix("J"), h.matrix("A"), h.matrix("B")
    m.add_exchange(a, b, R, matrix=J)
    m.add_on_site(b, matrix=B)
    m.add_on_site(a, matrix=A)
    items = list(m.exchange_like)
    h.same(len(items), 2 + (2 if m.double_counting else 1), "exchange-like: number of items")
    h.same(len(m.exchange_like), len(items), "exchange-like: length")
    # matched up by content: an in-cell A-A or B-B item is an on-site one
    on = [(x, p) for x, y, Q, p in items if x is y]
    ex = [(x, y, Q, p) for x, y, Q, p in items if x is not y]
    h.same(len(on), 2, "exchange-like: on-site items")
    for x, p in on:
        h.eq(
            h.np.array(p.matrix) * m.exchange_factor,
            h.np.array(B if x is b else A) * g,
            "exchange-like: on-site energy",
        )
    for x, y, Q, p in ex:
        if x is a:
            h.same(tuple(Q) == R, True, "exchange-like: bond vector")
            h.eq(p.matrix, J, "exchange-like: matrix")
        else:
            h.same(tuple(Q) == c.neg(R), True, "exchange-like: mirrored bond vector")
            h.eq(p.matrix, h.np.array(J).T, "exchange-like: mirrored matrix")
    h.eq(m[a].matrix, A, "exchange-like: the model is not changed")
    h.eq(m[b].matrix, B, "exchange-like: the model is not changed")


def new_atoms(h):
    """Bonds of atoms that are not in the crystal yet add them."""
    a, b = c.atom("A"), c.atom("B", position=(0.25, 0.5, 0))
    m = c.model_of(h, [])
    if h.boolean("declared"):
        m.notation = "magnopy"
    R = h.ints("R")
    J = h.matrix("J")
    m.add_exchange(a, b, R, matrix=J)
    h.same([x.name for x in m.atoms], ["A", "B"], "new atoms are added")
    h.same([x.index for x in m.atoms], [1, 2], "new atoms are numbered")
    h.eq(m["A", "B", R].matrix, J, "names of the new atoms work as keys")
    d = c.atom("D")
    m.add_on_site(d, matrix=J)
    h.same(m.I, 3, "three magnetic atoms")
    h.eq(m["D"].matrix, J, "on-site of the new atom")


def ambiguous(h):
    """A name that two atoms share, or that no atom has, is refused and changes nothing."""
    a, b = c.atom("Cr", 1), c.atom("Cr", 2, (0.25, 0.5, 0))
    m = c.model_of(h, [a, b])
    if h.boolean("declared"):
        m.notation = (h.boolean("dc"), False, 1, 1)
    R, Q = h.ints("R"), h.ints("Q")
    J, A = h.matrix("J"), h.matrix("A")
    m.add_exchange(a, b, R, matrix=J)
    m.add_on_site(a, matrix=A)
    s = c.snapshot(h, m)
    name = h.choice("name", ["Cr", "Fe"])
    other = h.choice("other", [a, b])
    first = h.boolean("first")
    pair = (name, other) if first else (other, name)

    def delete():
        del m[pair[0], pair[1], Q]

    ops = dict(
        add=lambda: m.add_exchange(*pair, Q, matrix=J),
        remove=lambda: m.remove_exchange(*pair, Q),
        get=lambda: m[pair[0], pair[1], Q],
        delete=delete,
        contains=lambda: (pair[0], pair[1], Q) in m,
        add_on_site=lambda: m.add_on_site(name, matrix=J),
        remove_on_site=lambda: m.remove_on_site(name),
        contains_on_site=lambda: name in m,
    )
    op = h.choice("op", sorted(ops))
    h.true(h.raises(ops[op], ValueError, KeyError) is not None, f"{op}: unknown or ambiguous name is refused")
    c.unchanged(h, s, c.snapshot(h, m), f"{op}: refused")


def bad_keys(h):
    a, b = c.atom("A", 1), c.atom("B", 2, (0.25, 0.5, 0))
    m = c.model_of(h, [a, b], notation=(h.boolean("dc"), False, 1, 1))
    m.add_exchange(a, b, h.ints("R"), matrix=h.matrix("J"))
    s = c.snapshot(h, m)
    key = h.choice("key", [5, (a, b), (a, b, (0, 0, 0), 1), ()])

    def put():
        m[key] = 3

    def drop():
        del m[key]

    op = h.choice("op", [lambda: m[key], lambda: key in m, put, drop])
    h.true(h.raises(op, KeyError) is not None, "malformed key is refused")
    c.unchanged(h, s, c.snapshot(h, m), "malformed key")
    # refusing to fail on request
    gone = h.ints("Q")
    h.assume(not bool((a, b, gone) in m))
    m.remove_exchange(a, b, gone, raise_if_no_bond=False)
    m.remove_on_site(a, raise_if_no_bond=False)
    if m.double_counting:
        h.assume(not bool((b, a, c.neg(gone)) in m))
    c.unchanged(h, s, c.snapshot(h, m), "absent terms removed without an error")


def ground_state(h):
    """Spiral vector and cone axis of the Hamiltonian."""
    a = c.atom("A", 1)
    m = c.model_of(h, [a])
    h.true(m.cone_axis is None and m.spiral_vector is None, "nothing is assumed about the ground state")
    q, n, r = h.vector("q"), h.unit("n"), h.real("r", positive=True, lo=0.01)
    m.spiral_vector = q if h.boolean("array") else list(q)
    h.eq(m.spiral_vector, q, "spiral vector is stored")
    m.cone_axis = r * n
    h.eq(m.cone_axis, n, "cone axis is normalised")
    bad = h.choice("bad", [[1, 2], [[1, 2, 3]], "text", [1, 2, 3, 4]])

    def axis():
        m.cone_axis = bad

    def vector():
        m.spiral_vector = bad

    def zero():
        m.cone_axis = [0, 0, 0]

    for fn in (axis, vector, zero):
        h.true(h.raises(fn, ValueError) is not None, "malformed vector is refused")
    h.eq(m.spiral_vector, q, "spiral vector is kept")
    h.eq(m.cone_axis, n, "cone axis is kept")


def larger(h):
    """Every bond and atom of a larger model, before and after one of them is taken out."""
    np = h.np
    m, at, given, on = c.larger(h, notation=(h.boolean("dc"), True, 1, 1))
    gone = h.choice("gone", [0, 1, 2, 6, 7])
    atom = h.choice("atom", [None, 0, 2])

    def look(bonds, sites, what):
        two = 2 if m.double_counting else 1
        h.same(c.count_bonds(m), two * len(bonds), f"{what}: number of bonds")
        h.same(len(list(m.on_site)), len(sites), f"{what}: number of on-site terms")
        for x, y, R, M in bonds:
            h.true((x, y, R) in m, f"{what}: bond is there")
            h.eq(m[x, y, R].matrix, M, f"{what}: matrix of the bond")
            h.same(len(c.listed(m, x, y, R)), 1, f"{what}: bond is listed once")
        for x, M in sites:
            h.true(x in m, f"{what}: on-site term is there")
            h.eq(m[x].matrix, M, f"{what}: on-site matrix")
        used = {x.name for b in bonds for x in b[:2]} | {x.name for x, _ in sites}
        h.same({x.name for x in m.magnetic_atoms}, used, f"{what}: magnetic atoms")

    look(given, on, "made")
    x, y, R, M = given.pop(gone)
    m.remove_exchange(x, y, R)
    h.true((x, y, R) not in m, "bond is removed")
    if atom is not None:
        x, M = on.pop(atom)
        m.remove_on_site(x)
        h.true(x not in m, "on-site term is removed")
    look(given, on, "removed")


def equal_atoms(h):
    """Atoms given by objects of their own: atoms are equal when their names and indices are."""
    from wulfric import Atom

    m, at, given, on = c.larger(h, notation=(h.boolean("dc"), True, 1, 1))
    # other objects, other places
    twin = {a.name: Atom(a.name, (0.9, 0.9, 0.9), index=a.index) for a in m.atoms}
    x, y, R, M = given[h.choice("bond", [0, 2, 6])]
    p, q = twin[x.name], twin[y.name]
    s, A = on[h.choice("site", [0, 2])]
    h.true((p, q, R) in m, "bond of equal atoms is there")
    h.eq(m[p, q, R].matrix, M, "matrix of the bond of equal atoms")
    h.true(twin[s.name] in m, "on-site term of an equal atom is there")
    h.eq(m[twin[s.name]].matrix, A, "on-site matrix of an equal atom")
    op = h.choice("op", ["remove", "del", "atom", "add"])
    two = 2 if m.double_counting else 1
    gone = [b for b in given if b[0].name == x.name and b[1].name == y.name and tuple(b[2]) == tuple(R)]
    left = on
    if op == "remove":
        m.remove_exchange(p, q, R)
    elif op == "del":
        del m[p, q, R]
        del m[twin[s.name]]
        left = [t for t in on if t[0].name != s.name]
    elif op == "atom":
        m.remove_atom(p)
        gone = [b for b in given if x.name in (b[0].name, b[1].name)]
        left = [t for t in on if t[0].name != x.name]
        h.true(x.name not in [a.name for a in m.atoms], "atom is removed")
    else:
        m.add_exchange(p, q, R, iso=3)
        gone = []
        h.eq(m[x, y, R].matrix, 3 * h.np.eye(3), "interaction is replaced")
    h.same(c.count_bonds(m), two * (len(given) - len(gone)), "number of bonds that are left")
    h.same(len(list(m.on_site)), len(left), "number of on-site terms that are left")
    for b in given:
        if op != "add":
            h.same(len(c.listed(m, *b[:3])), 0 if any(b is g for g in gone) else 1, "only the bonds of the equal atoms are removed")


B = "3 atoms (two of one name), all real matrices, all integer R; "
HARNESSES = [
    H("one", one, bounds=B + "1 bond, 1 on-site, one operation", max_paths=4000),
    H("two", two, tiers=("thorough",), bounds=B + "1 bond, 1 on-site, all sequences of 2 operations", max_paths=60000),
    H("exchange_like", exchange_like, bounds="2 atoms, 1 bond, 2 on-site; any nonzero factors"),
    H("ambiguous", ambiguous, bounds="2 atoms of one name, 1 bond, 1 on-site, 8 operations by a bare or unknown name"),
    H("bad_keys", bad_keys, bounds="2 atoms, 1 bond, 4 malformed keys, absent bonds"),
    H("ground_state", ground_state, bounds="any spiral vector, any cone axis of length above 0.01"),
    H("new_atoms", new_atoms, bounds="atoms outside of the crystal"),
    H("equal_atoms", equal_atoms, bounds="6 atoms, 8 bonds, 3 on-site terms; 3 bonds and 2 sites given by equal objects, 4 operations"),
    H("larger", larger, bounds="6 atoms, 8 bonds, 3 on-site terms; 5 bonds and 2 on-site terms taken out"),
]
