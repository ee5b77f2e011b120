P("P10", "Every optimizer step keeps the constraints and never raises the energy",
  "One step of the optimizer keeps spins and cone axis unit vectors, turns each spin (and the axis) only about its own torque, moves the spiral vector only against the slope of the energy, leaves everything without a force in place, lowers the energy while there is a force and never raises it; a step is found for strong and weak forces alike and satisfies the Wolfe conditions; the initial guess is normalised, never changed, and malformed requests are rejected. "
  "A run ends by itself exactly when the energy and the torques have converged to the given tolerances. The saved history lists the start and every performed step with its energy, also when the limit of iterations ends the run.",
  ["inputs", "configurations"],
  "all linear energies of the spins and the axis, all spiral vectors of a bond with isotropic and DM exchange, all guesses; one iteration of the public optimize(), two for a spin",
  "no test covers the optimizer; convergence of a sample run hides a wrong sign or a dropped torque",
  [EN], [("update", EN + ":Energy.optimize, _update_x_*, _starting_*"), ("line search", EN + ":_lambda"), ("gradients", EN + ":_ferro_grad, _antiferro_grad, _spiral_grad"), ("history", EN + ":_default_history_processor_*")])

P("P11", "A .txt model file is loaded as the documented format says",
  "Loading a documented .txt model file gives the model it describes: cell with its scale (also negative and three-fold) and units, positions, spins as vectors, magnitudes or angles, g factors, skipped blocks, notation, exchange as matrix, isotropic, DM and symmetric parts in any order and in any supported units, on-site anisotropy, cone axis, spiral vector. "
  "Comments, blank lines, letter case, column order and order of the sections do not matter.",
  ["inputs", "configurations"],
  "all numbers in all documented forms of every section (every unit, every keyword, every subset of parameter blocks)",
  "the tests read no complete file; a unit factor or a dropped block shows only for the unit and the form it concerns",
  [TXT, VER], [("sections", TXT + ":_read_cell, _read_atoms, _read_notation, _read_exchange, _read_on_site, ..."), ("filter", VER + ":_filter_txt_file")])
P("P12", "A model written to .txt is the model read back",
  "dump_spinham_txt followed by load_spinham gives back cell, atoms (names, order, positions, spins, g factors), notation, every bond with its matrix, every on-site term, cone axis and spiral vector to the printed precision, for every model and every combination of the output options that keeps the full information; writing leaves the model unchanged. Atoms with the same name get their index added to the name in the file, so that the file can be read and the bonds connect the same atoms.",
  ["inputs", "configurations"],
  "all parameter values, spins, positions, factors; every notation; every set of output options",
  "round trip of one sample cannot meet each option, notation and sign",
  [TXT, VER], [("dump", TXT + ":dump_spinham_txt, _write_*"), ("load", TXT + ":load_spinham_txt")])
P("P13", "Models in .hdf5 files are kept exactly, interchangeable with .txt",
  "dump_spinham_hdf5 followed by load_spinham gives back exactly the cell, atoms in their order (also more than nine), charges, notation, bonds, on-site terms, cone axis and spiral vector; an existing group is replaced only with overwrite=True and then completely; other content of the file is untouched; the group is found when it is the only one and ambiguous or empty files are rejected. "
  "Documented files with any units are loaded as described; malformed ones raise an error; the same model goes through .txt and .hdf5 unchanged. Atoms with the same name get their index added to the name in the file.",
  ["inputs", "configurations", "histories"],
  "all values in all notations; all units of the format; sequences of dumps to one file",
  "tests do not touch HDF5 files; order of groups and units show only for particular sizes and units",
  [HD], [("load", HD + ":load_spinham_hdf5"), ("dump", HD + ":dump_spinham_hdf5"), ("dispatch", "src/magnopy/io/__init__.py:load_spinham")])
P("P15", "Bosonic diagonalization gives a para-unitary transformation",
  "For every positive-definite Hermitian matrix D, solve_via_colpa returns positive energies in the documented order and a matrix G with D = G^+ E G and G g G^+ = g (new operators are bosons), also for degenerate modes; every other Hermitian matrix is rejected with ColpaFailed and the argument is never modified.",
  ["inputs"],
  "all positive-definite Hermitian 2x2 matrices, 4x4 matrices with operators coupled in pairs, degenerate and not",
  "no test runs the diagonalization; a wrong G at degenerate energies or a wrong sign shows only for special matrices",
  [DIAG], [("algorithm", DIAG + ":solve_via_colpa")])
P("P16", "Magnon dispersion is the linear spin-wave theory of the model",
  "MagnonDispersion(model).h(k) is Hermitian and equals the quadratic spin-wave Hamiltonian of the model's energy for every exchange matrix, anisotropy, spin direction and length, position, wave vector and notation (gauge-independent combinations); omega, omegas and the call return the positive normal-mode energies for stable, the negative ones for inverted states, zero modes included, and zeros (or nan on request) when there is no stable solution; the model is not changed.",
  ["inputs", "configurations"],
  "all matrices, wave vectors, spin lengths, directions, notations of one- and two-spin models",
  "no test computes a spectrum; a lost factor, transposed matrix or wrong frame survives on symmetric examples",
  [DISP, DIAG], [("h(k)", DISP + ":MagnonDispersion.h, J, A, B, C"), ("frame", DISP + ":span_orthonormal_set"), ("energies", DISP + ":MagnonDispersion.omega, omegas")])
P("P18", "Export to VAMPIRE carries the energy of the model",
  "The UCF file lists every bond in both directions and every on-site term exactly once, in joules, as matrices J with E = -1/2 sum e_i J_ij e_j equal to the model's energy for every notation, spin length, value and mask (DM or anisotropic part left out, custom mask, any precision); cell and positions are those of the model, only atoms with interactions are written and numbered consecutively; the material file describes each material of the UCF file with name, element and spin direction; the input file names both files. "
  "Export never changes the model, also when it fails.",
  ["inputs", "configurations"],
  "all matrices, cells, positions, spins, factors; every notation, mask, set of materials",
  "no test compares the exported energies; lost factors of two and notations do not show in the format",
  [VAMP], [("unit cell file", VAMP + ":dump_ucf"), ("material file", VAMP + ":dump_mat"), ("input file", VAMP + ":dump_vampire")])
P("P14", "Verification accepts exactly the files that follow the documented format",
  "load_spinham_txt accepts every file with an allowed set of sections in any order and letter case, and refuses with the error of the verification (never with an unrelated one, never silently) a file without a required section, with a word in place of a number, too few or too many numbers in a line, missing or repeated lines, unknown, repeated or forbidden atom names, unknown units, wrong values of the notation, incomplete or repeated columns (unknown columns are ignored), cell indices that are not integers, a scale or cone axis of zero, atoms without a position, bonds without a value, separators shorter than ten symbols. "
  "Verification never changes the file; the file saved by save_filtered describes the same model.",
  ["inputs", "configurations"],
  "all numbers in a file with every section; one defect at every place of the file",
  "tests check separate helpers on short samples; that each defect at each place is caught and nothing correct is refused needs all of them",
  [VER, TXT], [("verification", VER + ":_verify_model_file, _verify_short_sections, _verify_*"), ("filter", VER + ":_filter_txt_file")])
P("P17", "Results of TB2J are loaded and converted with the energy they describe",
  "load_tb2j gives the cell, the atoms (order, positions, charges, spins from the moments) and, for every bond of the file with any subset and order of its isotropic, DM and anisotropic parts, listed in one or in both directions, a parameter of the same energy in the notation of TB2J; a wrong distance is only warned about, and only on request; the requested type of lattice is reached or an error is raised. "
  "load_spinham chooses the reader by the requested format or the ending of the name (any case) and rejects unknown formats; magnopy-convert-tb2j writes the same model to the requested .txt or .hdf5 file, from Python and from the command line.",
  ["inputs", "configurations"],
  "all cells, positions, moments, matrices, both directions of a bond, every format name",
  "the tests read no TB2J file; transposed parts or lost bonds show only for particular content",
  [TB, CONV, "src/magnopy/io/__init__.py"], [("loader", TB + ":load_tb2j"), ("dispatch", "src/magnopy/io/__init__.py:load_spinham"), ("conversion", CONV + ":manager")])
P("P19", "Angles of a vector describe the vector",
  "vector_to_angles(v) returns polar and azimuthal angles in the documented ranges (degrees by default, radians on request) with v = |v| (sin t cos p, sin t sin p, cos t) for every vector in every octant, plane and on every axis, and leaves its argument unchanged.",
  ["inputs"], "all vectors of three real components, zero included",
  "a quadrant, plane or axis that goes wrong is missed by a few sample vectors",
  [GEO], [("angles", GEO + ":vector_to_angles")])
P("P20", "Report of magnopy-minimize-energy describes the states that were found",
  "Whatever state the minimisation finds, the results file lists for every requested type of order its energy, the spins of every atom, cone axis and spiral vector, in units and frame stated there, to printed precision; all half-integer spiral vectors are tried for antiferromagnets; the magnetic field given is the one used; each run has its own history file, named in the results; the summary repeats the energies of all states. Options of the command line have the documented effect.",
  ["inputs", "configurations"], "all results of the minimisation, all fields; ferro, antiferro and spiral types",
  "no test runs the script; overwritten files or exchanged states do not raise errors",
  [MINI], [("script", MINI + ":manager, main")])
P("P21", "The Hamiltonian is the crystal it was made of, in any choice of the cell",
  "A Hamiltonian made from a crystal, a cell, three vectors or a lattice (or nothing) with atoms has that cell and those atoms in their order, the notation that was given or none, and no interactions. Magnetic atoms are the atoms with at least one parameter in the order of their indices (in the order of the crystal when the indices are equal). "
  "The cone axis is stored as a unit vector and the spiral vector as given, not linked to the argument; malformed values are rejected and change nothing. Standardization of the cell describes the same crystal: every bond connects the same places with the same matrix, on-site terms, notation and the spiral vector (in absolute units) are kept.",
  ["inputs", "configurations"], "all cells, positions, bonds and matrices; seven ways of construction; any other basis of the lattice",
  "no test changes the cell of a Hamiltonian with bonds; a bond that is left in the old basis shows only when the axes are exchanged",
  [HAM], [("construction", HAM + ":SpinHamiltonian.__init__"), ("change of the cell", HAM + ":SpinHamiltonian.standardize"), ("ground state", HAM + ":cone_axis, spiral_vector"), ("atoms", HAM + ":magnetic_atoms, I")])
P("P22", "Table and plot of magnopy-magnon-dispersion show the dispersion of the model",
  "The script computes the dispersion of the model in the file: each line of the table has the distance along the requested path, the energies of all modes at that k-point and its relative and absolute coordinates (of the standardized cell), the plotted curves are the same, additional k-points can be used in the path. "
  "The table is written (joined with the header or separately), and the plot saved or shown, under the requested name, next to the input file if no folder is given; the input file is not changed.",
  ["inputs", "configurations"], "all spectra, additional k-points, strengths of the interactions; four choices of the basis, all output options",
  "no test runs the script; exchanged columns or bonds in a wrong basis do not raise errors",
  [MDISP, DISP, HAM], [("script", MDISP + ":manager, main"), ("k-points", DISP + ":MagnonDispersion.omegas")])
