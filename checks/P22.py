"""magnopy-magnon-dispersion: table and plot of the dispersion of the model in the file."""
import os

from symex.runner import H
from checks import common as c
from checks.P11 import SEP, SUB, notation_section, cell_section

ASSUMPTIONS = [
    "matplotlib is replaced by a recorder of the plotted curves",
    "wulfric's choice of the lattice type and of the standard cell is replaced by a fixed one (orthorhombic; any of the listed bases of the lattice)",
    "the script takes 1 intermediate k-point instead of 100 (attribute of wulfric's k-path)",
    "numbers in the files are read exactly; a printed number is any value within half a unit of its last printed digit",
    "harness report: energies of the magnons (decided by P16) are replaced by an arbitrary linear function of the wave vector",
]


class _Plot:
    """Stands for matplotlib.pyplot, the figure and the axes."""

    def __init__(self):
        self.curves, self.saved, self.shown = [], [], 0
        self.ticks = None

    def plot(self, x, y, *a, **k):
        self.curves.append((x, y))

    def subplots(self, *a, **k):
        return self, self

    def set_xticks(self, ticks, labels=None, *a, **k):
        self.ticks = list(ticks), list(labels)

    def savefig(self, name, *a, **k):
        self.saved.append(name)

    def show(self, *a, **k):
        self.shown += 1

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: None


class _Lattices:
    """Orthorhombic lattice whose standard cell is given by S."""

    def __init__(self, np, S):
        self.S, self.one = np.array(S, dtype=float), np.eye(3)

    def __enter__(self):
        from wulfric import Kpoints, Lattice

        self.old = Lattice.S_matrix, Lattice.type, Kpoints.__init__
        Lattice.S_matrix = property(lambda x: (self.one if x._standardized else self.S).copy())
        Lattice.type = lambda x, *a, **k: "ORC"
        init = Kpoints.__init__

        def with_few_points(kp, *a, **k):
            init(kp, *a, **k)
            kp._n = 1

        Kpoints.__init__ = with_few_points

    def __exit__(self, *a):
        from wulfric import Kpoints, Lattice

        Lattice.S_matrix, Lattice.type, Kpoints.__init__ = self.old


BASES = [
    [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
    [[0, -1, 0], [-1, 0, 0], [0, 0, -1]],
    [[0, 0, 1], [1, 0, 0], [0, 1, 0]],
    [[1, 2, 0], [0, 1, 0], [0, -1, 1]],
]


def _run(h, text, basis, **options):
    from magnopy.score import magnon_dispersion as md

    here, old = os.getcwd(), md.plt
    plot = _Plot()
    os.chdir(h.scratch())
    try:
        os.makedirs("in", exist_ok=True)
        with open("in/model.txt", "w", encoding="utf-8") as f:
            f.write(text)
        md.plt = plot
        with _Lattices(h.np, basis):
            if options.pop("command", False):
                _command(md, "in/model.txt", **options)
            else:
                md.manager("in/model.txt", **options)
        files = {}
        for place, _, names in os.walk("."):
            for n in names:
                if n.endswith(".txt"):
                    with open(os.path.join(place, n), encoding="utf-8") as f:
                        files[os.path.normpath(os.path.join(place, n))] = f.read().splitlines()
    finally:
        md.plt = old
        os.chdir(here)
    with open(h.scratch() + "/in/model.txt", encoding="utf-8") as f:
        h.same(f.read(), text, "input file is not changed")
    return plot, files


def _command(md, name, k_path, k_points=None, output_seedname=None, save_txt=False, join_output=False, interactive=False):
    """The same as a command line."""
    argv = ["-sh", name, "--k-path", k_path]
    if k_points:
        argv += ["-kps", *k_points]
    if output_seedname:
        argv += ["--output-seedname", output_seedname]
    argv += ["-st"] * save_txt + ["--join-output"] * join_output + ["-i"] * interactive
    c.command(md, *argv)


def _table(h, lines, width):
    rows = []
    for line in lines:
        w = line.split()
        if len(w) != width or line.startswith("#"):
            continue
        try:
            rows.append([h.parse(x) for x in w])
        except ValueError:
            pass
    return rows


def _model(h, cell, J, K, A, two, more=0):
    lines = cell_section(h, cell)
    lines += [SEP, "Atoms", "name r1 r2 r3 sx sy sz", "Fe1 0 0 0 0 0 1"]
    if two:
        lines += ["Fe2 0.5 0.25 0.5 0 0 1"]
    names = [f"Mn{i + 1}" for i in range(more)]
    lines += [f"{x} 0.25 0.25 0.{i + 1} 0 0 1" for i, x in enumerate(names)]
    lines += notation_section(h, False, True, -1, -1)
    lines += [SEP, "Exchange", SUB]
    if two:
        lines += ["Fe1 Fe2 0 0 0", f"Isotropic {h.num(J)}", SUB]
    lines += ["Fe1 Fe1 1 0 0", f"Isotropic {h.num(J)}", SUB, "Fe1 Fe1 0 1 0", f"Isotropic {h.num(K)}", SUB]
    lines += [SEP, "On-site", SUB, "Fe1", f"0 0 {h.num(A)} 0 0 0", SUB]
    for x in names:
        lines += [x, "0 0 1 0 0 0", SUB]
    lines += [SEP]
    return "\n".join(lines) + "\n"


HIGH = {"G": (0, 0, 0), "X": (0.5, 0, 0), "Y": (0, 0.5, 0), "Z": (0, 0, 0.5), "S": (0.5, 0.5, 0), "R": (0.5, 0.5, 0.5)}


def _middle(p, q):
    return [p, tuple((x + y) / 2 for x, y in zip(p, q)), q]


def report(h):
    """Every line of the table and every curve belongs to the spectrum at its k-point."""
    from magnopy import MagnonDispersion

    np = h.np
    cell = np.diag([3.0, 4.0, 5.0])
    n = h.choice("atoms", [1, 2, 8])
    two = n > 1
    w, v = h.reals("w", 2, lo=-50, hi=50), [h.reals("v", 3, lo=-9, hi=9), h.reals("u", 3, lo=-9, hi=9)]
    h.assume(h.land(*[h.lor(x > 0.01, x < -0.01) for x in w + v[0] + v[1]]))
    w, v = w + [w[0] + i for i in range(1, 7)], v + [v[0]] * 6

    def omega(self, k, *a, **kw):
        return np.array([w[i] + v[i][0] * k[0] + v[i][1] * k[1] + v[i][2] * k[2] for i in range(n)])

    def omegas(self, kp, *a, **kw):
        points = kp.points() if hasattr(kp, "points") else kp
        return np.array([omega(self, k) for k in points]).T

    basis = h.choice("basis", BASES)
    path, points = h.choice(
        "path",
        [
            ("G-X", _middle(HIGH["G"], HIGH["X"])),
            ("R-Y-Z", _middle(HIGH["R"], HIGH["Y"]) + _middle(HIGH["Y"], HIGH["Z"])),
            ("G-P|S-X", "P"),
            ("Q-P|S-X", "P"),
        ],
    )
    join, interactive, out, command = h.choice(
        "output",
        [
            (False, False, None, False),
            (True, True, None, True),
            (False, True, "res", True),
            (True, False, "some/where/res", False),
            (False, False, "some/where/res", True),
        ],
    )
    if n == 8 and (out == "res" or basis is not BASES[3]):
        return
    options = dict(k_path=path, save_txt=True, join_output=join, interactive=interactive, command=command)
    new = h.reals("P", 3, lo=0, hi=1)
    if points == "P":
        h.assume(h.land(*[x > 0.01 for x in new]))
        options["k_points"] = ["P", "$P$"] + [h.num(x) for x in new]
        start = HIGH["G"]
        if path[0] == "Q":
            start = (0.125, 0.5, 0.25)
            # also given, before and after the first one
            options["k_points"] = ["Q", "Q1", "0.125", "0.5", "0.25"] + options["k_points"] + ["P1", "P1", "0", "1", "0.75"]
        points = _middle(start, tuple(new)) + _middle(HIGH["S"], HIGH["X"])
    if out:
        options["output_seedname"] = out
    old = {k: getattr(MagnonDispersion, k) for k in ("omega", "omegas", "__call__")}
    try:
        MagnonDispersion.omega, MagnonDispersion.omegas, MagnonDispersion.__call__ = omega, omegas, omegas
        plot, files = _run(h, _model(h, cell, 1, 2, 3, two, n - 2 if two else 0), basis, **options)
    finally:
        for k, f in old.items():
            setattr(MagnonDispersion, k, f)
    stem = {None: "in/dispersion", "res": "in/res", "some/where/res": "some/where/res"}[out]
    name = stem + (".txt" if options["join_output"] else "_data.txt")
    h.true(name in files, "table is written to the documented file")
    h.same(sorted(files), sorted(["in/model.txt", name] + ([] if options["join_output"] else [stem + "_info.txt"])), "files")
    if options["interactive"]:
        h.same((plot.shown, plot.saved), (1, []), "plot is shown")
    else:
        h.same((plot.shown, [os.path.normpath(x) for x in plot.saved]), (0, [stem + ".png"]), "plot is saved")
    rows = _table(h, files[name], n + 7)
    h.same(len(rows), len(points), "one line for every k-point of the path")
    # new lattice vectors and their reciprocals
    A = np.array(basis, dtype=float)
    A = np.linalg.inv(A.T) @ cell
    B = 2 * h.pi * np.linalg.inv(A).T
    tol = h.frac(1, 10**8)
    at = 0
    for i, (r, p) in enumerate(zip(rows, points)):
        k = np.array(p, dtype=float) @ B
        h.eq(r[n + 1 : n + 4], list(p), "relative coordinates", tol=tol)
        h.eq(r[n + 4 :], list(k), "absolute coordinates", tol=tol)
        want = omega(None, k)
        for j in range(n):
            h.eq(r[1 + j], want[j], "energy at the k-point of the line", tol=abs(want[j]) * h.frac(1, 10**8) + h.frac(1, 10**8))
        if i % 3 == 0:
            start, base = k, at
        at = base + np.linalg.norm(k - start)
        h.eq(r[0], at, "distance along the path", tol=tol)
    h.same(len(plot.curves), n, "number of the plotted curves")
    # ticks: every high-symmetry point of the path once, with its label
    ends = [r[0] for i, r in enumerate(rows) if i % 3 == 0] + [rows[-1][0]]
    sections = [x.split("-") for x in path.split("|")]
    if len(sections) == 1:
        ends = [r[0] for i, r in enumerate(rows) if i % 3 != 1]
        keep = [x for i, x in enumerate(ends) if i == 0 or i == len(ends) - 1 or i % 2 == 1]
        ends = keep
    else:
        ends = [rows[0][0], rows[2][0], rows[5][0]]
    h.same((len(plot.ticks[0]), len(plot.ticks[1])), (len(ends), len(ends)), "ticks")
    for x, y in zip(plot.ticks[0], ends):
        h.eq(x, y, "position of the tick", tol=tol)
    if points_given := options.get("k_points"):
        labels = {points_given[5 * i]: points_given[5 * i + 1] for i in range(len(points_given) // 5)}
        for i, x in enumerate(sections[0]):
            if x in labels:
                h.true(labels[x] in plot.ticks[1][i], "label of the additional point")
    # names and description of the columns
    told = "\n".join(files[name] if options["join_output"] else files[stem + "_info.txt"])
    here = h.scratch()
    h.true(os.path.join(here, "in/model.txt") in told, "the input file is named")
    h.true(path in told, "the path is given")
    if not options["join_output"]:
        h.true(os.path.join(here, name) in told, "the file with the data is named")
    heads = [x.replace("(rel)", "").replace("(abs)", "").split() for x in told.splitlines() if "omega_0" in x]
    h.same(heads, [["Coordinate"] + [f"omega_{i}" for i in range(n)] + ["b1", "b2", "b3", "k_x", "k_y", "k_z"]], "names of the columns")
    for j, (x, y) in enumerate(plot.curves):
        h.same((len(x), len(y)), (len(rows), len(rows)), "length of the curve")
        for i, p in enumerate(points):
            want = omega(None, np.array(p, dtype=float) @ B)[j]
            h.eq(y[i], want, "plotted energy")
            h.eq(x[i], rows[i][0], "plotted coordinate", tol=tol)


def energies(h):
    """Dispersion of a ferromagnet in any choice of the standard cell."""
    np = h.np
    basis = h.choice("basis", BASES)
    J, K, A = h.real("J", lo=0, hi=50), h.real("K", lo=0, hi=50), h.real("A", lo=0.1, hi=50)
    points = {"X": (0.5, 0, 0), "Y": (0, 0.5, 0), "S": (0.5, 0.5, 0)}
    first, second = h.choice("path", [("X", "S"), ("Y", "X")])
    plot, files = _run(h, _model(h, np.diag([3.0, 4.0, 5.0]), J, K, A, False), basis, k_path=f"{first}-{second}", save_txt=True, output_seedname="run")
    rows = _table(h, files["in/run_data.txt"], 8)
    h.same(len(rows), 3, "one line for every k-point of the path")
    for i in (0, 2):
        p = points[first if i == 0 else second]
        # relative to the new reciprocal cell -> phases of the original lattice vectors
        k = np.array(p, dtype=float) @ np.array(basis, dtype=float)
        s = [1 if h.exact(2 * x) % 2 == 0 else -1 for x in k]
        want = 2 * A + 2 * J * (1 - s[0]) + 2 * K * (1 - s[1])
        h.eq(rows[i][1], want, "energy of the magnon", tol=abs(want) * h.frac(1, 10**7))


HARNESSES = [
    H("report", report, bounds="1, 2 or 8 atoms, 4 paths (two with additional points anywhere), 4 bases, all output options"),
    H("energies", energies, bounds="one atom, 2 bonds and anisotropy of any strength, 4 bases, 2 paths"),
]
