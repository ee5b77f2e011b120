"""Verification of .txt model files: what is accepted, what is rejected and how."""
import os

from symex.runner import H
from checks import common as c
from checks.P11 import SEP, SUB, row

ASSUMPTIONS = ["numbers in the file are read exactly (the text of a number is a symbol that stands for any value)"]


class Doc:
    """A correct file: sections as lists of lines, every line a list of words; the numbers are symbols."""

    def __init__(self, h, scale=True):
        self.h = h
        n = 0

        def num():
            nonlocal n
            n += 1
            return h.num(h.real(f"v{n}"))

        def nums(k):
            return [num() for _ in range(k)]

        def ints(k):
            nonlocal n
            n += 1
            return [h.num(x) for x in h.ints(f"i{n}", k)]

        cell = [["Cell", "Angstrom"], [h.num(x) for x in h.reals("s", 3, positive=True)]]
        a = h.reals("a", 3, positive=True)
        for i in range(3):
            cell.append([h.num(a[i]) if i == j else "0" for j in range(3)])
        self.cell = cell
        self.atoms = [
            ["Atoms"],
            ["r1", "r2", "Sz", "r3", "Sx", "Sy", "name"],
            [*nums(6), "Fe1"],
            [*nums(6), "Fe2"],
        ]
        self.notation = [
            ["Notation"],
            ["double-counting", "true"],
            ["spin-normalized", "false"],
            ["exchange-factor", h.num(h.real("ex", nonzero=True))],
            ["on-site-factor", h.num(h.real("on", nonzero=True))],
        ]
        self.exchange = [
            ["Exchange", "meV"],
            [SUB],
            ["Fe1", "Fe2", *ints(3)],
            ["Isotropic", num()],
            ["DMI", *nums(3)],
            ["Matrix"],
            nums(3),
            nums(3),
            nums(3),
            ["Symmetric-anisotropy", *nums(5)],
            [SUB],
            ["Fe2", "Fe2", "0", "0", "1"],
            ["Isotropic", num()],
            [SUB],
        ]
        self.on_site = [["On-site"], [SUB], ["Fe1"], nums(6), [SUB], ["Fe2"], nums(6), [SUB]]
        self.cone_axis = [["Cone-axis"], ["0", "0", h.num(h.real("n", positive=True))]]
        self.spiral_vector = [["Spiral-vector", "relative"], nums(3)]

    NAMES = ["cell", "atoms", "notation", "exchange", "on_site", "cone_axis", "spiral_vector"]

    def text(self, names=None, first=SEP, between=SEP):
        out = [first]
        for name in names or self.NAMES:
            out += [" ".join(x) for x in getattr(self, name)]
            out.append(between)
        return "\n".join(out) + "\n"


def _try(h, text):
    """What load_spinham does with the file: a model, or the error of the verification."""
    from magnopy import load_spinham
    from magnopy.exceptions import FailedToVerifyTxtModelFile

    name = os.path.join(h.scratch(), "model.txt")
    with open(name, "w", encoding="utf-8") as f:
        f.write(text)
    try:
        return load_spinham(name)
    except FailedToVerifyTxtModelFile:
        return None


def _rejected(h, text, label):
    h.true(_try(h, text) is None, f"{label}: rejected by the verification")


def accepted(h):
    """The full file, and any subset of sections that the rules allow, in any case of the letters."""
    d = Doc(h)
    sections = [x for x in Doc.NAMES if x == "atoms" or h.boolean(x)]
    if h.boolean("reversed"):
        sections = sections[::-1]
    text = d.text(sections)
    ok = "cell" in sections and ("notation" in sections or not {"exchange", "on_site"} & set(sections))
    m = _try(h, text)
    if not ok:
        h.true(m is None, "missing sections: rejected by the verification")
        return
    h.true(m is not None, "allowed set of sections: accepted")
    if m is None:
        return
    h.same([a.name for a in m.atoms], ["Fe1", "Fe2"], "atoms")
    h.same(c.count_bonds(m) > 0, "exchange" in sections, "bonds")


def no_atoms(h):
    """Missing sections with other ones present."""
    d = Doc(h)
    sections = h.choice(
        "sections",
        [["cell"], ["cell", "notation", "exchange"], ["cell", "notation", "on_site"], ["notation"], ["cell", "spiral_vector"]],
    )
    _rejected(h, d.text(sections), "no atoms")


def empty(h):
    _rejected(h, h.choice("text", ["", "\n\n", "# nothing\n", SEP + "\n", SEP + "\n" + SEP]), "empty file")


def scale(h):
    """Scale of the cell: one number that is not zero or three positive numbers."""
    d = Doc(h)
    if h.choice("three", [False, True]):
        s = h.reals("t", 3)
        ok = h.land(*[x > 0 for x in s])
    else:
        s = [h.real("t")]
        ok = h.lor(s[0] > 0, s[0] < 0)
    d.cell[1] = [h.num(x) for x in s]
    m = _try(h, d.text())
    h.true(ok if m is not None else h.lnot(ok), "scale: accepted if and only if allowed")


def cell_index(h):
    """Unit cell of the second atom of a bond: any integers, nothing else."""
    d = Doc(h)
    i = h.choice("place", [2, 3, 4])
    kind = h.choice("kind", ["integer", "real", "word"])
    if kind == "integer":
        d.exchange[2][i] = h.num(h.int("R"))
        h.true(_try(h, d.text()) is not None, "integer: accepted")
    elif kind == "real":
        d.exchange[2][i] = h.num(h.real("x"))
        _rejected(h, d.text(), "cell index that is not an integer")
    else:
        d.exchange[2][i] = "a"
        _rejected(h, d.text(), "cell index that is a word")


def _numbers(d):
    """All places of the file where a number is expected."""
    out = [("cell", i, j) for i in (1, 2, 3, 4) for j in range(3)]
    out += [("atoms", i, j) for i in (2, 3) for j in range(6)]
    out += [("notation", 3, 1), ("notation", 4, 1)]
    out += [("exchange", 3, 1), *[("exchange", 4, j) for j in (1, 2, 3)]]
    out += [("exchange", i, j) for i in (6, 7, 8) for j in range(3)]
    out += [("exchange", 9, j) for j in range(1, 6)] + [("exchange", 12, 1)]
    out += [("on_site", i, j) for i in (3, 6) for j in range(6)]
    out += [("cone_axis", 1, j) for j in range(3)] + [("spiral_vector", 1, j) for j in range(3)]
    return out


def not_number(h):
    """A word in the place of any number of the file."""
    d = Doc(h)
    s, i, j = h.choice("place", _numbers(d))
    getattr(d, s)[i][j] = h.choice("word", ["zero", "1..2", "1e"])
    _rejected(h, d.text(), f"word in place of a number ({s})")


def amount(h):
    """One number too few or too many in any line of numbers."""
    d = Doc(h)
    places = sorted({(s, i) for s, i, _ in _numbers(d)})
    s, i = h.choice("place", places)
    line = getattr(d, s)[i]
    if h.choice("more", [False, True]):
        line.insert(-1 if s == "atoms" else len(line), h.num(h.real("extra")))
        _rejected(h, d.text(), f"one number too many ({s})")
    else:
        keep = line.pop(-2 if s == "atoms" else -1)
        if not line:
            line.append("#")
        if s == "cone_axis":
            h.true(_try(h, d.text()) is not None, "two angles of the cone axis: accepted")
        else:
            _rejected(h, d.text(), f"one number too few ({s})")


def lines(h):
    """A line that is missing or doubled."""
    d = Doc(h)
    places = [("cell", 2), ("cell", 3), ("cell", 4)]
    places += [("notation", i) for i in (1, 2, 3, 4)]
    places += [("exchange", i) for i in (2, 6, 7, 8)]
    places += [("on_site", i) for i in (2, 3, 5, 6)]
    places += [("cone_axis", 1), ("spiral_vector", 1)]
    doubled = h.choice("doubled", [False, True])
    if doubled:
        places = [p for p in places if p not in (("exchange", 2), ("exchange", 8), ("exchange", 7), ("exchange", 6))]
        places += [("exchange", i) for i in (3, 4, 9, 12)] + [("atoms", 2), ("atoms", 3)]
        # two lines of a scale and lattice vectors
        places.append(("cell", 1))
    s, i = h.choice("place", places)
    section = getattr(d, s)
    if doubled:
        section.insert(i, list(section[i]))
    elif s == "cell":
        del section[i]
        del section[1 if h.choice("no scale", [False, True]) else 2]
    else:
        del section[i]
    _rejected(h, d.text(), f"{'doubled' if doubled else 'missing'} line ({s})")


def needed(h):
    """Lines of the notation that are needed with one kind of parameters only; a section without atoms."""
    d = Doc(h)
    kind = h.choice("kind", ["exchange", "on_site", "atoms"])
    if kind == "atoms":
        del d.atoms[h.choice("left", [1, 2]) :]
        _rejected(h, d.text(h.choice("names", [["cell", "atoms"], ["atoms", "cell", "cone_axis"]])), "no atoms in the section")
        return
    del d.notation[h.choice("place", [1, 2, 3] if kind == "exchange" else [2, 4])]
    _rejected(h, d.text(["cell", "atoms", "notation", kind]), f"missing line of the notation ({kind})")


def optional(h):
    """Lines that may be left out."""
    d = Doc(h)
    what = h.choice("what", ["scale", "iso", "dmi", "symmetric", "matrix", "subseparator", "only matrix", "factor of on-site", "only on-site"])
    names = None
    if what == "scale":
        del d.cell[1]
    elif what == "iso":
        del d.exchange[3]
    elif what == "dmi":
        del d.exchange[4]
    elif what == "symmetric":
        del d.exchange[9]
    elif what == "matrix":
        del d.exchange[5:9]
    elif what == "subseparator":
        del d.exchange[-1], d.on_site[-1]
    elif what == "only matrix":
        del d.exchange[9], d.exchange[3:5]
    elif what == "factor of on-site":
        del d.notation[4]
        names = ["cell", "atoms", "notation", "exchange"]
    else:
        del d.notation[3], d.notation[1]
        names = ["cell", "atoms", "notation", "on_site"]
    h.true(_try(h, d.text(names)) is not None, f"file without optional lines ({what}): accepted")


def no_value(h):
    """A bond without any value."""
    d = Doc(h)
    if h.choice("first", [False, True]):
        del d.exchange[3:10]
    else:
        del d.exchange[12]
    _rejected(h, d.text(), "bond without a value")


def names(h):
    """Names of atoms: unknown, doubled, not allowed."""
    d = Doc(h)
    what = h.choice("what", ["bond 1", "bond 2", "case", "on-site", "doubled", "start", "hidden", "hidden end", "fine"])
    if what == "bond 1":
        d.exchange[2][0] = "Fe3"
    elif what == "bond 2":
        d.exchange[11][1] = "Fe3"
    elif what == "case":
        d.exchange[2][1] = "fe2"
    elif what == "on-site":
        d.on_site[5][0] = "Fe3"
    elif what == "doubled":
        d.atoms[3][6] = "Fe1"
        d.exchange[2][1] = d.exchange[11][0] = d.exchange[11][1] = "Fe1"
        d.on_site[5][0] = "Fe1"
    else:
        new = {"start": "_Fe", "hidden": "__Fe", "hidden end": "Fe__", "fine": "1_Fe-2"}[what]
        d.atoms[3][6] = new
        d.exchange[2][1] = d.exchange[11][0] = d.exchange[11][1] = new
        d.on_site[5][0] = new
    if what == "fine":
        m = _try(h, d.text())
        h.true(m is not None, "allowed name: accepted")
        h.same(m and m.atoms[1].name, "1_Fe-2", "name of the atom")
    else:
        _rejected(h, d.text(), f"name of an atom ({what})")


def columns(h):
    """Header of the atoms."""
    d = Doc(h)
    head = d.atoms[1]
    what = h.choice("what", ["no name", "no position", "part of position", "part of spin", "twice", "short", "long", "unknown", "both", "skip"])
    ok = False
    if what == "no name":
        head[6] = "q"
        d.atoms[2][6], d.atoms[3][6] = "1", "2"
    elif what == "no position":
        head[0], head[1], head[3] = "q", "g", "foo"
    elif what == "part of position":
        head[h.choice("place", [0, 1, 3])] = "q"
    elif what == "part of spin":
        head[h.choice("place", [2, 4, 5])] = "q"
    elif what == "twice":
        head[0] = "r2"
    elif what == "short":
        d.atoms[3] = d.atoms[3][: h.choice("left", [1, 3, 6])]
    elif what == "long":
        d.atoms[2].append("1")
    elif what == "unknown":
        ok = True
        head.append("foo")
        d.atoms[2].append(h.num(h.real("w")))
        d.atoms[3].append("-")
    elif what == "both":
        ok = True
        head += ["x", "y", "z", "q"]
        d.atoms[2] += [h.num(x) for x in h.reals("w", 4)]
        d.atoms[3] += ["1", "2", "3", "4"]
    else:
        ok = True
        head += ["g"]
        d.atoms[2] += [h.num(h.real("w"))]
        d.atoms[3] += ["-"]
    if ok:
        h.true(_try(h, d.text()) is not None, f"columns of the atoms ({what}): accepted")
    else:
        _rejected(h, d.text(), f"columns of the atoms ({what})")


def ignored(h):
    """Columns with other keywords, whatever their names are."""
    d = Doc(h)
    word = h.choice("word", ["label", "radius", "Species", "site", "r4", "yz", "sxx", "J1", "names", "gg"])
    place = h.choice("place", [0, 7])
    d.atoms[1].insert(place, word)
    for i in (2, 3):
        d.atoms[i].insert(place, h.num(h.real(f"w{i}")) if i == 2 else "-")
    m = _try(h, d.text())
    h.true(m is not None, "column with another keyword: accepted")
    h.same(m and [a.name for a in m.atoms], ["Fe1", "Fe2"], "atoms")


def skipped(h):
    """Blocks that are skipped: positions are needed, spins are not."""
    d = Doc(h)
    both = h.choice("both", [False, True])
    if both:
        d.atoms[1] += ["z", "x", "y"]
        for i in (2, 3):
            d.atoms[i] += [h.num(x) for x in h.reals(f"w{i}", 3)]
    i, j = h.choice("line", [2, 3]), h.choice("place", range(6))
    k = h.choice("second", [-1, -2, -3]) if both and h.choice("two", [False, True]) else None
    d.atoms[i][j] = "-"
    if k:
        d.atoms[i][k] = "-"
    ok = j in (2, 4, 5) or (both and not k)
    if ok:
        h.true(_try(h, d.text()) is not None, "skipped block: accepted")
    else:
        _rejected(h, d.text(), "skipped position")


def axis(h):
    """Cone axis: any vector but zero."""
    d = Doc(h)
    n = h.reals("axis", 3)
    d.cone_axis = [["Cone-axis", h.choice("units", ["A", "relative"])], [h.num(x) for x in n]]
    ok = h.lor(*[x != 0 for x in n])
    m = _try(h, d.text())
    h.true(ok if m is not None else h.lnot(ok), "cone axis: accepted if and only if it is not zero")


UNITS = {
    "cell": ["", "Angstrom", "bohr", "A", "b"],
    "atoms": ["", "Angstrom", "BOHR", "Relative", "a"],
    "notation": [""],
    "exchange": ["", "meV", "EV", "j", "Kelvin", "Ry"],
    "on_site": ["", "mev", "eV", "J", "K", "rydberg"],
    "cone_axis": ["", "absolute", "Relative"],
    "spiral_vector": ["", "Absolute", "r"],
}


def units(h):
    """Headers of the sections: units that are known and unknown, superfluous words."""
    d = Doc(h)
    s = h.choice("section", Doc.NAMES)
    fault = h.choice("fault", [None, "unknown", "two"])
    head = getattr(d, s)[0]
    del head[1:]
    if fault is None:
        u = h.choice("unit", UNITS[s])
        if u:
            head.append(u)
        h.true(_try(h, d.text()) is not None, f"units: accepted ({s})")
    else:
        head += ["Zoll"] if fault == "unknown" else [next((x for x in UNITS[s] if x), "true"), "more"]
        _rejected(h, d.text(), f"{fault} units ({s})")


def booleans(h):
    """Keywords of the notation."""
    d = Doc(h)
    i = h.choice("line", [1, 2])
    word = h.choice("word", ["true", "T", "1", "Yes", "y", "FALSE", "f", "0", "no", "N", "2", "tr", "none", "-1"])
    d.notation[i] = [h.choice("key", [d.notation[i][0], d.notation[i][0][0].upper()]), word]
    good = word.lower() in ("true", "t", "1", "yes", "y", "false", "f", "0", "no", "n")
    m = _try(h, d.text())
    h.same(m is not None, good, f"value of the notation ({word}): accepted if and only if allowed")
    if m is not None and good:
        yes = word.lower() in ("true", "t", "1", "yes", "y")
        n = m.notation
        h.same(bool(n[i - 1]), yes, "meaning of the keyword")


def separators(h):
    """Separators of ten or more symbols; shorter ones are errors."""
    d = Doc(h)
    k = h.choice("length", [1, 5, 9, 10, 11, 80])
    where = h.choice("where", ["sections", "first", "bonds", "on-site"])
    kw = {}
    if where == "sections":
        kw["between"] = "=" * k
    elif where == "first":
        kw["first"] = "=" * k
    elif where == "bonds":
        d.exchange[10] = ["-" * k]
    else:
        d.on_site[4] = ["-" * k]
    m = _try(h, d.text(**kw))
    h.same(m is not None, k >= 10, f"separator of {k} symbols ({where}): accepted if and only if long enough")
    if m is not None and k >= 10:
        h.same(len(m.atoms), 2, "atoms")
        h.same(len(list(m.on_site)), 2, "on-site terms")


def short(h):
    """A separator that is too short after any line of the file; sections without parameters."""
    d = Doc(h)
    kind = h.choice("kind", ["short", "empty"])
    if kind == "empty":
        name = h.choice("name", ["exchange", "on_site"])
        del getattr(d, name)[h.choice("left", [1, 2]) :]
        _rejected(h, d.text(["cell", "atoms", "notation", name]), f"no parameters in the section ({name})")
        return
    places = [(s, i) for s in Doc.NAMES for i in range(1, len(getattr(d, s)) + 1)]
    s, i = h.choice("place", places)
    mark = h.choice("mark", ["=", "-"] if s in ("exchange", "on_site") else ["="])
    getattr(d, s).insert(i, [mark * h.choice("length", [2, 9])])
    _rejected(h, d.text(), f"short separator ({s})")


def filtered(h):
    """save_filtered: the saved file is the same model; the file itself is not changed."""
    from magnopy import load_spinham

    d = Doc(h)
    text = "# comment\n" + d.text().replace("Isotropic", "# inside\nIsotropic").replace("\n", " # note\n")
    name = os.path.join(h.scratch(), "model.txt")
    with open(name, "w", encoding="utf-8") as f:
        f.write(text)
    one = load_spinham(name, save_filtered=True)
    two = load_spinham(os.path.join(os.path.dirname(name), "filtered_model.txt"))
    with open(name, encoding="utf-8") as f:
        h.same(f.read(), text, "the file is not changed")
    c.unchanged(h, c.snapshot(h, one), c.snapshot(h, two), "filtered file")


HARNESSES = [
    H("accepted", accepted, bounds="all sets of sections in 2 orders; any numbers"),
    H("no_atoms", no_atoms, bounds="5 sets of sections; any numbers"),
    H("empty", empty, bounds="5 empty files"),
    H("scale", scale, bounds="any one or three numbers"),
    H("cell_index", cell_index, bounds="any integer, any real, a word"),
    H("not_number", not_number, bounds="every number of the file; 3 words"),
    H("amount", amount, bounds="every line of numbers; any numbers"),
    H("lines", lines, bounds="every line; any numbers"),
    H("needed", needed, bounds="every needed line of the notation with exchange or on-site only; no atoms"),
    H("optional", optional, bounds="9 allowed forms; any numbers"),
    H("no_value", no_value, bounds="2 bonds; any numbers"),
    H("names", names, bounds="9 cases; any numbers"),
    H("columns", columns, bounds="10 cases of the columns; any numbers"),
    H("ignored", ignored, bounds="10 keywords in 2 places; any numbers"),
    H("skipped", skipped, bounds="every block of the position and spin, also in two columns; any numbers"),
    H("axis", axis, bounds="any three numbers"),
    H("units", units, bounds="every section, every unit; any numbers"),
    H("booleans", booleans, bounds="14 words, 2 keys"),
    H("separators", separators, bounds="6 lengths, 4 places"),
    H("short", short, bounds="after every line, 2 lengths, 2 symbols; 2 sections without parameters; any numbers"),
    H("filtered", filtered, bounds="1 file; any numbers"),
]
