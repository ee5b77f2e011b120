"""Writes properties.jsonl and MANIFEST.json (run by hand after a change of the list)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HAM = "src/magnopy/spinham/hamiltonian.py"
PAR = "src/magnopy/spinham/parameter.py"
EN = "src/magnopy/spinham/energy.py"
DISP = "src/magnopy/magnons/dispersion.py"
DIAG = "src/magnopy/magnons/diagonalization.py"
TXT = "src/magnopy/io/txt/internal.py"
VER = "src/magnopy/io/txt/verify.py"
TB = "src/magnopy/io/txt/tb2j.py"
CONV = "src/magnopy/score/convert_tb2j.py"
MINI = "src/magnopy/score/minimize_energy.py"
MDISP = "src/magnopy/score/magnon_dispersion.py"
VAMP = "src/magnopy/io/txt/vampire.py"
HD = "src/magnopy/io/hdf5/internal.py"
UNI = "src/magnopy/units/inside.py"
GEO = "src/magnopy/geometry.py"
NA = []

PROPS = []


def P(id, title, statement, over, text, why, files, mech, observe=None):
    anchors = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe:
        anchors["observe_at"] = observe
    PROPS.append(
        dict(
            id=id, title=title, statement=statement,
            quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=anchors,
        )
    )


P("P01", "Notation changes keep the physics of every interaction",
  "Changing the notation of a Hamiltonian (double counting, spin normalisation, numeric factors, a named notation), in one step or any sequence of steps, leaves the energy contributed by every exchange and on-site term unchanged for all spin directions, and the notation that was asked for is the one reported afterwards. "
  "Converting there and back restores every parameter, and declaring a notation for the first time only interprets the stored numbers without changing them.",
  ["inputs", "histories", "configurations"],
  "all real exchange/on-site matrices, positive spins, nonzero factors, bond vectors, all pairs of notations and sequences of setters",
  "tests convert a few numeric matrices between a few notations; the conversion is a multi-branch algebraic identity over real matrices, spins and factors",
  [HAM], [("notation setters", HAM + ":notation, double_counting, spin_normalized, exchange_factor, on_site_factor, factor")])

P("P02", "Double counting is kept consistent by every operation",
  "While double counting is declared, every bond is listed in both directions with mutually transposed matrices, after any sequence of additions, redefinitions and removals of bonds and atoms. "
  "While it is declared off, every bond is listed exactly once; switching it on and off loses or duplicates no bond.",
  ["inputs", "histories"],
  "all bonds (atoms, integer vectors, matrices), one operation from any state that satisfies the invariant, and sequences of switches",
  "tests add and remove a handful of fixed bonds; the invariant is over operation histories",
  [HAM], [("mirror bookkeeping", HAM + ":add_exchange, remove_exchange, _ensure_double_counting, _ensure_no_double_counting, __setitem__")])

P("P03", "The Hamiltonian behaves as a map from bonds and atoms to parameters",
  "Adding, replacing, reading, testing, removing and iterating exchange and on-site parameters, by atom or by name, with any integer bond vector, acts as on a map: exactly the addressed term (and its mirror with double counting) changes, removal of an atom removes exactly its terms, missing keys are reported. "
  "The combined exchange-like view lists every exchange bond and every on-site term once, with the on-site terms rescaled so that one common factor applies.",
  ["inputs", "histories"],
  "all operations and arguments from a model with symbolic bonds and matrices; sequences of two in the thorough tier",
  "tests touch a few keys; collisions of keys, names and mirrored bonds need all of them",
  [HAM], [("container interface", HAM + ":__setitem__, __getitem__, __delitem__, __contains__, add_*/remove_*, iterators")])

P("P04", "Exchange matrix decomposition is exact and setters touch one part",
  "For every 3x3 exchange matrix the isotropic, symmetric-anisotropic and antisymmetric (DMI) parts are the documented ones and add up to the matrix; the DMI vector gives the energy D.(S1xS2). "
  "Setting one part, or a single component, changes that part only, and malformed values are rejected without changing the parameter.",
  ["inputs"],
  "all real 3x3 matrices, vectors and scalars; all combinations of constructor arguments; sequences of two setters",
  "tests check listed numbers; the identities are over all real matrices",
  [PAR], [("decomposition", PAR + ":iso, aniso, dmi, their setters, the constructor and the component attributes")])

P("P05", "Parameter arithmetic is matrix arithmetic",
  "Sums, differences, products with numbers, quotients (also whole ones and remainders), negation, absolute value, transposition, matrix products and comparison of exchange parameters are those of the underlying matrices, and never change their operands; the printed parameter shows the matrix to the requested precision.",
  ["inputs"], "all real matrices, vectors and nonzero scalars",
  "tests evaluate a few numeric instances",
  [PAR], [("operators", PAR + ":__add__, __sub__, __mul__, __truediv__, __abs__, __matmul__, __eq__ ...")])

P("P06", "Filtering keeps exactly the terms that satisfy the criterion",
  "Filtering by minimum distance, maximum distance, a custom condition on the parameter, or a combination of them keeps exactly the bonds that satisfy all criteria (limits included; an on-site term is at distance zero) with unchanged parameters, and keeps atoms, cell and notation. "
  "With double counting a bond is kept only together with its mirror; the filtered copy agrees with filtering in place and leaves the original untouched.",
  ["inputs", "configurations"],
  "all cells (quick: diagonal; thorough: skew), positions, integer bond vectors, limits, thresholds",
  "tests filter one model with few limits; the boundary behaviour depends on real distances",
  [HAM], [("filter", HAM + ":filter, filtered"), ("distances", "wulfric Crystal.get_distance")])

P("P07", "Copies and derived objects are independent of the Hamiltonian",
  "A copy, a filtered copy, the crystal, an energy object and a dispersion object do not change when the Hamiltonian they were made from is changed afterwards, nor the other way round, and making them does not change the Hamiltonian. "
  "Objects passed in by the caller (parameters, arrays) are neither changed nor linked to the stored ones.",
  ["inputs", "histories"],
  "all kinds of later changes, symbolic models in every notation",
  "aliasing shows only for particular later modifications; tests look at single calls",
  [HAM, EN, DISP], [("copies", HAM + ":copy, filtered, crystal"), ("energy", EN + ":Energy.__init__"), ("dispersion", DISP + ":MagnonDispersion.__init__")])

P("P08", "Energy of a collinear or non-collinear unit-cell state is the Hamiltonian's",
  "The reported energy of a state that repeats in every unit cell equals the classical Hamiltonian (exchange, on-site and Zeeman terms, with each atom's spin length and g factor) evaluated on the given directions, in every notation. "
  "Only directions of the given vectors matter, the input is not changed, the energy object's spins and g factors can be replaced and are then used, and malformed orientations and fields are rejected.",
  ["inputs", "configurations"],
  "all real matrices, spins > 0, g factors, fields, unit directions, nonzero factors; 1-2 atoms and 1-2 bonds",
  "tests cover no energy at all; the identity is over all models, notations and directions",
  [EN], [("energy", EN + ":Energy.ferro, setters of magnetic_field, spins, g_factors")])

P("P09", "Energies of spiral and antiferromagnetic states are the averaged Hamiltonian",
  "The energy of a conical spiral equals the classical Hamiltonian averaged over the cells when the spins of each cell are turned about the cone axis by the spiral vector times the cell's position; for spiral vectors that are half of a reciprocal lattice vector the antiferromagnetic energy is that of the doubled cell. "
  "Only directions of the axis and spins matter, and spins along the axis have the same energy in all three descriptions.",
  ["inputs", "configurations"],
  "all real matrices, spins > 0, g factors, fields, directions, cone axes, spiral vectors; 2 atoms and 1 bond",
  "not covered by tests; a trigonometric identity over seven real vectors",
  [EN], [("spiral energy", EN + ":Energy.spiral"), ("antiferro energy", EN + ":Energy.antiferro")])

exec(open(os.path.join(V, "tools", "more.py")).read()) if os.path.exists(os.path.join(V, "tools", "more.py")) else None

PY = "/opt/venv/bin/python"
checks = []
claimed = [p for p in PROPS if os.path.exists(os.path.join(V, "checks", p["id"] + ".py"))]
for p in claimed:
    checks.append(
        dict(
            property=p["id"],
            quick_cmd=f"{PY} run.py {p['id']} --tier quick",
            thorough_cmd=f"{PY} run.py {p['id']} --tier thorough",
            technique="symbolic execution of the real Python source, obligations decided by z3, counterexamples replayed on the unpatched package",
            level="model_checking",
            level_note=(
                "Every path of the harness over the real functions is executed with symbolic reals/integers and each obligation "
                "is decided by z3 for all values within the bounds listed in the evidence (numbers of atoms and bonds, lengths of "
                "histories). Floats are treated as exact reals; numpy/wulfric are replaced by exact symbolic equivalents validated "
                "by re-running solver models on the real package. Trusts z3 and the encoding of numpy."
            ),
        )
    )
json.dump(
    dict(
        version=1,
        setup_cmd=f"{PY} -c \"import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import z3, numpy; print(z3.get_version_string())\"",
        checks=checks,
        not_applicable=[dict(property=i, reason=r) for i, r in NA],
        notes="Known findings and repaired defects: known_findings.json. Replay of a counterexample: /opt/venv/bin/python replay.py replays/Pxx.json",
    ),
    open(os.path.join(V, "MANIFEST.json"), "w"),
    indent=1,
)
na = {i for i, _ in NA}
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        if p in claimed or p["id"] in na:
            f.write(json.dumps(p) + "\n")
