"""Steps of the energy optimization: constraints are kept, energy never rises."""
from symex.runner import H
from checks import common as c

ASSUMPTIONS = [
    "the optimizer is given a polynomial energy of the spin directions in place of the energy of the "
    "Hamiltonian (which P08/P09 decide), so that its finite differences are exact",
    "one iteration, and line searches that end within the stated number of trials",
]


class Cut(Exception):
    pass


def _energy(h, n=1):
    from magnopy import Energy

    atoms = [c.atom(f"A{i}", i + 1, (i / 4, 0, 0), spin=1) for i in range(n)]
    m = c.model_of(h, atoms, cell=h.np.eye(3), notation=(True, False, h.frac(1, 2), 1))
    return Energy, m, atoms


def _dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def _cross(h, a, b):
    return h.np.array(
        [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]], dtype=float
    )


def _limited(h, fn, trials, per_trial):
    """fn, refusing to be called more often than the given number of line-search trials need."""
    left = [trials * per_trial if h.symbolic else 2000]

    def wrapped(*args):
        left[0] -= 1
        if left[0] < 0:
            h.assume(False)
        return fn(*args)

    return wrapped


def _step(h, E, case, guess, value, trials, calls, start, **kw):
    """One iteration of the optimization; returns the new state."""
    E.wolfe_c1 = h.frac(1, 4)
    setattr(E, case, _limited(h, value, trials, calls))
    got = E.optimize(case, initial_guess=guess, max_iterations=1, **kw)
    return got


def ferro(h):
    """One spin in an arbitrary linear energy."""
    Energy, m, (a,) = _energy(h)
    m.add_on_site(a, iso=1)
    E = Energy(m)
    b = h.vector("b")
    value = lambda s: _dot(b, s[0])
    x, length = h.choice("x", [((0, 0, 1), 1), ((0.6, 0, -0.8), 2)])
    x = h.np.array(x, dtype=float)
    guess = h.np.array([length * x], dtype=float)
    (y,) = _step(h, E, "ferro", guess, value, 1, 40, x)
    h.eq(guess[0], length * x, "initial guess is not changed")
    h.eq(_dot(y[0], y[0]), 1, "spins stay unit vectors")
    h.eq(_dot(y[0], _cross(h, x, b)), 0, "spin turns about its torque")
    h.le(value(y), value([x]), "energy does not rise")


def pair(h):
    """Two spins."""
    Energy, m, (a, b) = _energy(h, 2)
    m.add_on_site(a, iso=1)
    m.add_on_site(b, iso=1)
    E = Energy(m)
    which = h.choice("which", [0, 1, 2, 3])
    u = h.real("u") if which != 0 else 0
    v = {0: h.real("v"), 1: 0, 2: -u, 3: 2 * u}[which]
    value = lambda s: u * s[0][0] + v * s[1][2]
    start = h.np.array([[0, 0, 1], [0.6, 0.8, 0]], dtype=float)
    (y,) = _step(h, E, "ferro", h.np.array(start), value, 1, 80, start)
    for i in range(2):
        h.eq(_dot(y[i], y[i]), 1, "spins stay unit vectors")
    h.eq(y[0][1], 0, "first spin turns about its torque")
    h.eq(y[1][0] * start[1][1], y[1][1] * start[1][0], "second spin turns about its torque")
    if which == 0:
        h.eq(y[0], start[0], "spin without a torque stays")
    if which == 1:
        h.eq(y[1], start[1], "spin without a torque stays")
    h.le(value(y), value(start), "energy does not rise")


def cone(h):
    """Antiferromagnetic and spiral states: spin and cone axis."""
    Energy, m, (a,) = _energy(h)
    m.add_on_site(a, iso=1)
    E = Energy(m)
    u, v = h.real("u"), h.real("v")
    value = lambda s, n, q: u * s[0][0] + v * n[2]
    which = h.choice("which", [0, 1])
    h.assume(u == 0 if which == 0 else v == 0)
    spin = h.np.array([[0, 0, 1]], dtype=float)
    axis = h.np.array([1, 0, 0], dtype=float)
    length = h.choice("length", [1, 2])
    given = length * axis
    q = h.np.array([h.real("q"), 0, 1], dtype=float)
    case = h.choice("case", ["antiferro", "spiral"])
    if case == "antiferro":
        y = _step(h, E, case, (length * spin, given), value, 1, 60, None, antiferro_q=q)
    else:
        y = _step(h, E, case, (length * spin, given, q), value, 1, 60, None)
    s, n, p = y
    h.eq(_dot(s[0], s[0]), 1, "spins stay unit vectors")
    h.eq(_dot(n, n), 1, "cone axis stays a unit vector")
    h.eq(p, q, "spiral vector without a force stays")
    h.le(value(s, n, p), value(spin, axis, q), "energy does not rise")
    if which == 0:
        h.eq(s[0], spin[0], "spin without a torque stays")
        h.eq(n[1], 0, "cone axis turns about its torque")
        h.true(h.lor(v == 0, value(s, n, p) < value(spin, axis, q)), "torque on the axis is followed")
    else:
        h.eq(n, axis, "cone axis without a torque stays")
        h.eq(s[0][1], 0, "spin turns about its torque")
        h.true(h.lor(u == 0, value(s, n, p) < value(spin, axis, q)), "torque on the spin is followed")
    h.eq(given, length * axis, "initial guess is not changed")


def wave(h):
    """Spiral vector: one bond along x between equivalent spins perpendicular to the axis."""
    Energy, m, (a,) = _energy(h)
    first = h.choice("start", [None, "D", 0, h.pi / 2])
    # with an arbitrary spiral vector one of the parameters at a time
    J = 0 if isinstance(first, str) else h.real("J")
    D = 0 if first is None else h.real("D")
    first = None if isinstance(first, str) else first
    m.add_exchange(a, a, (1, 0, 0), iso=J, dmi=(0, 0, D))
    E = Energy(m)
    q = h.np.array([h.real("q") if first is None else first, h.real("r"), 0], dtype=float)
    spin = h.np.array([[1, 0, 0]], dtype=float)
    axis = h.np.array([0, 0, 1], dtype=float)
    real = E.spiral
    # energy of the spiral as a function of the spiral vector; spins and axis are at rest
    value = lambda s, n, p: real(spin, axis, p)
    slope = -J * h.sin(q[0]) + D * h.cos(q[0])
    s, n, p = _step(h, E, "spiral", (spin, axis, q), value, 1, 60, None)
    h.eq(s, spin, "spin without a torque stays")
    h.eq(n, axis, "cone axis without a torque stays")
    h.eq(p[1], q[1], "no force, no change")
    h.eq(p[2], q[2], "no force, no change")
    h.le((p[0] - q[0]) * slope, 0, "spiral vector moves against the slope of the energy")
    h.true(h.lor(slope == 0, p[0] != q[0]), "slope of the energy is followed")
    h.le(value(s, n, p), value(spin, axis, q), "energy does not rise")


def start(h):
    """Without iterations the normalised initial guess is returned."""
    Energy, m, atoms = _energy(h, 2)
    for a in atoms:
        m.add_on_site(a, iso=1)
    E = Energy(m)
    case = h.choice("case", ["ferro", "antiferro", "spiral", 0, 1, 2])
    guess = h.np.array([h.vector("s"), h.vector("t")], dtype=float)
    axis, q = h.vector("n"), h.vector("q")
    for v in (guess[0], guess[1], axis):
        h.assume(_dot(v, v) > 0)
    before = guess.copy()
    value = lambda *a: 0
    setattr(E, {0: "ferro", 1: "antiferro", 2: "spiral"}.get(case, case), value)
    kw = {}
    if case in ("ferro", 0):
        first = guess
    elif case in ("antiferro", 1):
        first, kw["antiferro_q"] = (guess, axis), q
    else:
        first = (guess, axis, q)
    got = E.optimize(case, initial_guess=first, max_iterations=0, **kw)
    h.eq(guess, before, "initial guess is not changed")
    for i in range(2):
        h.eq(_dot(got[0][i], got[0][i]), 1, "spins are unit vectors")
        h.eq(_cross(h, got[0][i], guess[i]), h.np.zeros(3), "direction of the guess")
        h.true(_dot(got[0][i], guess[i]) > 0, "direction of the guess")
    if len(got) > 1:
        h.eq(_dot(got[1], got[1]), 1, "cone axis is a unit vector")
        h.eq(_cross(h, got[1], axis), h.np.zeros(3), "axis of the guess")
        h.true(_dot(got[1], axis) > 0, "axis of the guess")
        h.eq(got[2], q, "spiral vector of the guess")
    h.same(len(got), 1 if case in ("ferro", 0) else 3, "number of results")


def reject(h):
    """Malformed guesses, cases and tolerances are reported, nothing is optimized."""
    Energy, m, atoms = _energy(h, 2)
    for a in atoms:
        m.add_on_site(a, iso=1)
    E = Energy(m)
    good = h.np.array([h.vector("s"), h.vector("t")], dtype=float)
    n, q = h.vector("n"), h.vector("q")
    for v in (good[0], good[1], n):
        h.assume(_dot(v, v) > 0)
    kw = {}
    case, first = h.choice(
        "what",
        [
            ("conical", good),
            (3, good),
            ("ferro", good[0]),
            ("ferro", good[:, :2]),
            ("ferro", h.np.array([good[0], good[1], good[1]], dtype=float)),
            ("ferro", "up"),
            ("antiferro", good),
            ("antiferro", (good, n, q)),
            ("antiferro", (good, n[:2])),
            ("antiferro", (good[0], n)),
            ("antiferro", (good, "z")),
            ("antiferro q", (good, n)),
            ("spiral", (good, n)),
            ("spiral", (good, n, q[:2])),
            ("spiral", (good, n[:2], q)),
            ("spiral", (good[:1], n, q)),
            ("ferro tolerance", good),
            ("spiral tolerance", (good, n, q)),
        ],
    )
    if isinstance(case, str) and " " in case:
        case, what = case.split()
        if what == "tolerance":
            kw["tolerance"] = (1e-5,) if case == "spiral" else (1e-5, 1e-5, 1e-5)
        else:
            kw["antiferro_q"] = q[:2]
    if case == "antiferro":
        kw.setdefault("antiferro_q", q)
    for k in ("ferro", "antiferro", "spiral"):
        setattr(E, k, lambda *a: 0)
    e = h.raises(lambda: E.optimize(case, initial_guess=first, max_iterations=0, **kw), ValueError)
    h.true(e is not None, "malformed request is rejected")


def history(h):
    """Saved history: the start and every step, with their energies."""
    Energy, m, (a,) = _energy(h)
    m.add_on_site(a, iso=1)
    E = Energy(m)
    case = h.choice("case", ["ferro", "antiferro", "spiral"])
    b = h.real("b")
    spin = h.np.array([[0, 0, 1]], dtype=float)
    axis, q = h.np.array([1, 0, 0], dtype=float), h.np.array([0, 0, 1], dtype=float)
    value = lambda s, n=None, p=None: b * s[0][0]
    guess = {"ferro": spin, "antiferro": (spin, axis), "spiral": (spin, axis, q)}[case]
    name = h.scratch() + "/history.txt"
    kw = dict(antiferro_q=q) if case == "antiferro" else {}
    got = _step(
        h, E, case, guess, value, 1, 60, None, **kw,
        save_history=True, history_filename=name, history_step=h.choice("step", [1, 100]),
    )
    with open(name) as f:
        lines = [x.split() for x in f.read().split("\n")]
    lines = [x for x in lines if x]
    h.same(len(lines), 3, "header, start and one step are saved")
    if len(lines) != 3:
        return
    small = h.frac(1, 10**6)
    for line, state in ((lines[1], (spin,) if case == "ferro" else (spin, axis, q)), (lines[2], got)):
        numbers = [h.parse(x) for x in line]
        k = 2 if case == "ferro" else 3
        flat = [x for v in [*state[0], *state[1:]] for x in v]
        h.same(len(line), len(lines[0]), "columns of the header")
        h.same(len(numbers), k + len(flat), "columns of the state")
        h.eq(numbers[0], value(*state), "energy of the state", tol=small * (abs(b) + 1))
        for x, y in zip(numbers[k:], flat):
            h.eq(x, y, "state", tol=small)


def stop(h):
    """The run goes on exactly as long as the energy or a torque change by more than the tolerance."""
    Energy, m, (a,) = _energy(h)
    m.add_on_site(a, iso=1)
    E = Energy(m)
    E.wolfe_c1 = h.frac(1, 4)
    case, on_axis = h.choice("case", [("ferro", False), ("antiferro", False), ("antiferro", True), ("spiral", False), ("spiral", True)])
    b = h.real("b", lo=-2, hi=2)
    given = h.boolean("given")
    tol = h.reals("tol", 2 if case == "ferro" else 3, lo=1e-7, hi=3) if given else [h.frac(1, 10**5)] * 3
    spin = h.np.array([[0, 0, 1]], dtype=float)
    axis, q = h.np.array([0, 1, 0], dtype=float), h.np.array([0.25, 0, 0], dtype=float)
    guess = {"ferro": spin, "antiferro": (spin, axis), "spiral": (spin, axis, q)}[case]
    kw = dict(antiferro_q=q) if case == "antiferro" else {}
    if given:
        kw["tolerance"] = tuple(tol)
    at = 1 if on_axis else 0
    name = h.scratch() + "/history.txt"
    force = lambda *x: b * (x[1][0] if on_axis else x[0][0][0])

    def second():
        """Whether the first step is over."""
        try:
            with open(name) as f:
                return len([x for x in f.read().splitlines() if x.strip()]) > 2
        except FileNotFoundError:
            return False

    def value(*x):
        if second():
            raise Cut
        return force(*x)

    setattr(E, case, _limited(h, value, 1, 60))
    try:
        got = E.optimize(
            case, initial_guess=guess, max_iterations=2, save_history=True, history_filename=name, history_step=1, **kw
        )
        ended = True
    except Cut:
        ended = False
        with open(name) as f:
            line = [x.split() for x in f.read().splitlines() if x.strip()][2]
        x = [h.parse(x) for x in line]
        got = ([x[2:5]],) if case == "ferro" else ([x[3:6]], x[6:9], x[9:12])
    down = force(spin, axis, q) - force(*got)
    if not ended:
        down = b * 0 + force(spin, axis, q) - x[0]
    small = [abs(down) <= tol[0]] if ended else [abs(down) <= tol[0] - h.frac(1, 10**4)]
    v = h.np.array([b, 0, 0], dtype=float)
    slack = 0 if ended else h.frac(1, 10**4)
    for state in ((spin, axis, q), got):
        t = _cross(h, state[1] if on_axis else state[0][0], v)
        limit = tol[1 + at] - slack
        small.append(h.land(limit >= 0, _dot(t, t) <= limit * limit))
    if ended:
        h.true(h.land(small[0], h.lor(small[1], small[2])), "run ends when energy and torques have converged")
    else:
        h.true(h.lnot(h.land(*small)), "run goes on while energy or torques have not converged")


def _taylor(h, x):
    """True bounds of cos(x) and sin(x) for x >= 0."""
    co, si = h.cos(x), h.sin(x)
    h.assume(co >= 1 - x * x / 2)
    h.assume(co <= 1 - x * x / 2 + x**4 / 24)
    h.assume(si <= x)
    h.assume(si >= x - x**3 / 6)
    h.assume(si <= x - x**3 / 6 + x**5 / 120)


def found(h):
    """A good step is found for weak forces as well."""
    Energy, m, (a,) = _energy(h)
    m.add_on_site(a, iso=1)
    E = Energy(m)
    u = h.real("u", lo=0.0625, hi=2)
    for t in (1, 2, 4, 8, 16):
        _taylor(h, u * t)
    case = h.choice("case", ["ferro", "antiferro", "spiral"])
    sign = h.choice("sign", [1, -1])
    spin = h.np.array([[0, 0, 1]], dtype=float)
    axis, q = h.np.array([0, 1, 0], dtype=float), h.np.array([0.25, 0, 0], dtype=float)
    value = lambda s, n=None, p=None: sign * u * s[0][0]
    guess = {"ferro": spin, "antiferro": (spin, axis), "spiral": (spin, axis, q)}[case]
    kw = dict(antiferro_q=q) if case == "antiferro" else {}
    left = [70 if case == "ferro" else 120]

    def counted(*args):
        # more trials than any of these forces should need: decided on the real code
        left[0] -= 1
        if h.symbolic and left[0] < 0:
            h.true(False, "step is found")
        return value(*args)

    setattr(E, case, counted)
    y = E.optimize(case, initial_guess=guess, max_iterations=1, **kw)
    h.eq(_dot(y[0][0], y[0][0]), 1, "spins stay unit vectors")
    # default parameters of the Wolfe conditions
    h.le(value(*y) + h.frac(1, 10**4) * u * u / 16, 0, "energy goes down")
    h.le(abs(y[0][0][2]), h.frac(9, 10), "slope of the energy is reduced")


def twice(h):
    """Two steps, one after another."""
    Energy, m, (a,) = _energy(h)
    m.add_on_site(a, iso=1)
    E = Energy(m)
    E.wolfe_c1 = h.frac(1, 4)
    u = h.choice("u", [1, -1, 2])
    _taylor(h, abs(u))
    value = lambda s: u * s[0][0]
    start = h.np.array([[0, 0, 1]], dtype=float)
    E.ferro = _limited(h, value, 1, 26)
    (one,) = E.optimize("ferro", initial_guess=h.np.array(start), max_iterations=1)
    E.ferro = _limited(h, value, 2, 23)
    (two,) = E.optimize("ferro", initial_guess=h.np.array(start), max_iterations=2)
    for s in (one, two):
        h.eq(_dot(s[0], s[0]), 1, "spins stay unit vectors")
    h.true(value(one) < value(start), "first step lowers the energy")
    h.le(value(two), value(one), "energy does not rise")
    # torques are left after the first step: the second one follows them
    h.true(h.lor(value(two) < value(one), one[0][2] == 0), "second step lowers the energy")


def again(h):
    """Runs of one object do not depend on the runs before."""
    Energy, m, (a,) = _energy(h)
    m.add_on_site(a, iso=1)
    u = h.frac(1, 2)
    for t in (1, 2, 4):
        _taylor(h, u * t)
    cases = ["ferro", "antiferro", "spiral"]
    before, case = h.choice("before", cases), h.choice("case", cases)
    spin = h.np.array([[0, 0, 1]], dtype=float)
    axis, q = h.np.array([0, 1, 0], dtype=float), h.np.array([0.25, 0, 0], dtype=float)
    value = lambda s, n=None, p=None: u * s[0][0]

    def run(E, case):
        guess = {"ferro": spin, "antiferro": (spin, axis), "spiral": (spin, axis, q)}[case]
        kw = dict(antiferro_q=q) if case == "antiferro" else {}
        return E.optimize(case, initial_guess=guess, max_iterations=1, **kw)

    used, fresh = Energy(m), Energy(m)
    for E in (used, fresh):
        for name in cases:
            setattr(E, name, value)
    run(used, before)
    y, z = run(used, case), run(fresh, case)
    h.eq(len(y), len(z), "same parts of the state")
    for p, r in zip(y, z):
        h.eq(p, r, "state does not depend on the runs before")


HARNESSES = [
    H("ferro", ferro, bounds="1 spin, any linear energy, 2 starts of different lengths, first step of the line search accepted"),
    H("pair", pair, bounds="2 spins, linear energies, 1 start, first step of the line search accepted"),
    H("cone", cone, bounds="1 spin and the cone axis, linear energies, first step of the line search accepted"),
    H("wave", wave, bounds="1 bond of isotropic and DM exchange, any spiral vector, first step of the line search accepted"),
    H("start", start, bounds="2 spins, any guess, no iteration"),
    H("reject", reject, bounds="18 kinds of malformed requests, 2 spins"),
    H("history", history, bounds="1 spin, linear energy, three types of states, one iteration"),
    H("stop", stop, bounds="1 spin and the cone axis, linear energy, end or going on after the first iteration, any tolerances"),
    H("found", found, bounds="1 spin, linear energy of the strength from 1/16 to 2, three types of states, one step"),
    H("again", again, bounds="1 spin, linear energy, one step after another run of any type"),
    H("twice", twice, bounds="1 spin, linear energy, two steps, first trials of the line search accepted"),
]
