#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements are readable)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                          "observe_at": list(observe), "hook_needed": None}})


prop("C01", "Substitution enumeration is complete and free of duplicates",
     "For any crystal, any species and any number of substitutions, the non-duplicate generators (all sites, the sites of "
     "one element, the sites of one Wyckoff letter, and two species at once on all sites or on one element) yield exactly "
     "one configuration from every class of symmetry-equivalent configurations: none missing, no two equivalent. Every "
     "yielded cell has the mother's lattice and positions and differs from it only by the requested species on permitted "
     "sites in the requested number, and the mother cell is left unchanged. The unfiltered generators yield every such "
     "configuration.",
     ["inputs"], "all crystals (lattice, sites, species), all requests",
     "The tests compare counts for a handful of hand-picked cells; completeness and non-equivalence are statements about "
     "every crystal and every request, and a wrong representative with the right count passes.",
     ["ababe/stru/sogen.py", "ababe/stru/scaffold.py"],
     [("orbit marking", "OccupyGenerator.gen_2nodup_gen / _update_isoset"),
      ("candidate generators", "OccupyGenerator.gen_dup*, _gen_dup_trinary_alloy")],
     [("isoset", "identifiers of all configurations equivalent to one already yielded", "gen_2nodup_gen")],
     ["gen_nodup_unitary", "gen_nodup_of_ele", "gen_nodup", "gen_nodup_trinary_alloy", "gen_dup_unitary", "gen_dup_of_ele"])

prop("C02", "Incremental enumeration: every level complete, whatever the pull order",
     "An incremental substitution job up to n atoms of a species yields one level for each count above what the mother "
     "already holds, up to n, and level k yields exactly one configuration from every symmetry class of configurations in "
     "which k permitted atoms have been replaced. This holds whatever the order in which levels are opened and pulled, "
     "however they are interleaved, and whether earlier levels are drained, partly consumed or abandoned.",
     ["inputs", "schedules"], "all crystals and requests; all orders of opening, pulling and abandoning the levels",
     "The tests drain the levels in order for one or two cells; the lazy sharing between levels is only exercised by other "
     "schedules.",
     ["ababe/stru/sogen.py"],
     [("level pipeline", "all_speckle_gen_unitary / all_speckle_gen / all_speckle_gen_of_ele"),
      ("shared lazy input", "itertools.tee in all_speckle_gen_*"), ("one more atom", "gen_add_one_speckle*")],
     [("id_db", "configurations tried on this level", "gen_add_one_speckle*")],
     ["all_speckle_gen_unitary", "all_speckle_gen", "all_speckle_gen_of_ele"])

prop("C03", "Site permutations are exactly the crystal's symmetry",
     "For any crystal, in whatever order, periodic image or orientation its atoms are given, the symmetry operations and site "
     "permutations reported are exactly those of its space group: every symmetry is there, nothing else is, and they form a group. "
     "Two configurations are reported equivalent exactly when some symmetry maps one onto the other, and sites related by "
     "symmetry carry the same Wyckoff letter.",
     ["inputs"], "all crystals, including supercells, centred and skewed cells and fractional coordinates of any denominator",
     "The tests look at the number of permutations of three cells; one wrong or missing permutation silently merges or "
     "duplicates structures in every enumeration built on it.",
     ["ababe/stru/scaffold.py", "ababe/stru/sogen.py"],
     [("matching of images to sites", "GeneralCell.get_symmetry_permutation, sogen.get_permutation_cell"),
      ("equivalence", "OccupyGenerator.is_equivalent")], [],
     ["get_symmetry", "get_symmetry_permutation", "get_permutation_cell", "is_equivalent", "get_wyckoffs"])

prop("C04", "Superlattice enumeration is complete and non-redundant",
     "For any unit cell and multiplicity n, the unreduced superlattice list holds every sublattice of index n exactly once (in "
     "two dimensions: every in-plane sublattice), and the reduced list holds exactly one from every class of sublattices "
     "related by the cell's rotations. Two superlattices compare equal exactly when a rotation of the unit cell maps one onto "
     "the other.",
     ["inputs"], "all unit cells and multiplicities, 2D and 3D",
     "The tests check the counts for two lattices and small n; which superlattices are kept, and other point groups, are open.",
     ["ababe/stru/grid.py"],
     [("Hermite normal forms", "hnfs_from_n_dups"), ("equivalence under rotations", "SuperLatticeCell.__eq__"),
      ("reduction", "hnfs_from_n")], [],
     ["SuperLatticeGenerator.hnfs_from_n", "hnfs_from_n_dups", "SuperLatticeGenerator2D", "SuperLatticeCell.__eq__"])

prop("C05", "Supercells are the same crystal, tiled",
     "For any cell and any superlattice in Hermite normal form or diagonal scaling, the supercell has the scaled lattice, contains "
     "each atom of the infinite crystal that lies in it exactly once with its species, and nothing else. The cell it was made from is left unchanged.",
     ["inputs"], "all cells and all positive upper triangular integer scale matrices",
     "The tests compare a few small supercells; a lost, doubled or mislabelled atom for another shape is not seen.",
     ["ababe/stru/grid.py", "ababe/stru/scaffold.py"],
     [("lattice points of the supercell", "get_frac_from_H / get_frac_from_mat"), ("species order", "np.repeat of numbers")], [],
     ["SuperLatticeCell.to_general_cell", "GeneralCell.supercell"])

prop("C06", "Standardised cells describe the same crystal",
     "The refined, refined-primitive and shape-optimised cells of any cell describe the same infinite crystal as the original, up "
     "to a rigid motion: same species in the same arrangement. The primitive one has the fewest possible atoms, the shape-optimised one keeps the atom "
     "count, and a cell is reported primitive exactly when no translation shorter than its lattice maps it onto itself.",
     ["inputs"], "all crystals",
     "The tests compare a few cells with stored numbers; a species permuted among sites or a wrong cell choice for another crystal passes.",
     ["ababe/stru/scaffold.py"],
     [("standardisation", "get_refined_cell, get_refined_pcell, get_shaped_cell"), ("primitivity", "is_primitive")], [],
     ["get_refined_cell", "get_refined_pcell", "get_shaped_cell", "is_primitive"])

prop("C07", "Structure files round-trip",
     "Writing any cell to a YAML or POSCAR file and reading it back gives the same lattice, species and positions (to the "
     "documented four decimals of reading), except that POSCAR drops vacancies; the POSCAR header, species line, counts and "
     "coordinate lines agree with each other. Scale factors (positive, or negative meaning a volume) and cartesian "
     "coordinates mean what the format says, and both generations of writers produce equivalent files.",
     ["inputs"], "all cells, scale factors, coordinate modes, formats and file names",
     "The tests compare literal strings for one or two cells; other species orders, vacancies, scales and coordinates are open.",
     ["ababe/io/vasp.py", "ababe/io/yaml.py", "ababe/io/io.py", "ababe/stru/io.py"],
     [("grouping by species", "VaspOutput.get_string / VaspPOSCAR.get_string"), ("parsing", "VaspInput.from_string, YamlInput.from_string"),
      ("format choice", "GeneralIO")], [],
     ["GeneralIO.write_file", "GeneralIO.from_file", "VaspOutput.get_string", "VaspPOSCAR", "YamlOutput"])

prop("C08", "Restrictions accept exactly the structures they describe",
     "The minimum distance restriction holds exactly when every distance between two atoms of the element, periodic images "
     "and an atom's own images included, is greater than the given distance, and it holds when the element is absent. The "
     "space group restriction holds exactly for structures whose space group is listed.",
     ["inputs"], "all cells (however skewed or unwrapped), elements and distances",
     "The tests try one cell with two thresholds.",
     ["ababe/stru/restriction.py"],
     [("image search", "MinDistanceRestriction.is_satisfied"), ("space group number", "SpaceGroupRestriction.is_satisfied")], [],
     ["is_satisfied"])

prop("C09", "The editable cell behaves as a list of sites under any edit history",
     "Through any sequence of appends, inserts, deletions, replacements, removals, extensions, translations and copies, the editable "
     "cell reports exactly the sites that history leaves, in order; a copy shares nothing with its original; a translation moves one site by exactly the "
     "given cartesian vector, and a perturbation moves every site by exactly the given distance. Two editable cells are equal exactly when lattice, "
     "positions and species agree, and conversion to and from a fixed cell preserves the atoms.",
     ["histories", "inputs"], "all edit histories, on several cells and copies at once",
     "The tests apply one or two edits to one cell.",
     ["ababe/stru/scaffold.py", "ababe/stru/site.py"],
     [("site list", "ModifiedCell methods"), ("rigid moves", "translate_sites / perturb"), ("copies", "ModifiedCell.copy")],
     [("_sites", "the ordered sites", "ModifiedCell")],
     ["positions", "numbers", "len", "indexing", "=="])

prop("C10", "Sphere queries and clarifiers remove exactly the atoms in range",
     "A sphere query returns exactly the sites of the asked element whose distance to the centre, through the nearest periodic "
     "image, is less than the radius. Removing around given centres, or around every atom of an element, removes exactly the "
     "atoms in range of any centre present at the start, keeps the others in order, and changes nothing else.",
     ["inputs"], "all cells (skewed, unwrapped coordinates), centres, radii and element filters",
     "The tests use one orthogonal cell with centres inside it.",
     ["ababe/stru/clarifier.py", "ababe/stru/scaffold.py"],
     [("nearest image", "ModifiedCell.in_euclidean_discance"), ("removal", "AtomRemoveClarifier, VerboseAtomRemoveClarifier")], [],
     ["get_points_incell_insphere", "clarify"])

prop("C11", "An enumeration job leaves one file per qualifying structure",
     "A run of an enumeration command writes exactly one readable file for every symmetry class of requested structures that "
     "satisfies all given distance restrictions and, where asked, is primitive, and no other file; none overwrites another "
     "or anything that existed before, even when random names coincide. The files hold those structures (refined when asked), the superlattice command "
     "likewise writes one file per inequivalent superlattice (replacing its own earlier output directory), and the input file is untouched.",
     ["inputs", "configurations", "histories"], "all inputs and option combinations, all coincidences of the random names",
     "There is no test of the command line programs.",
     ["ababe/cmdline/runabalib.py", "ababe/cmdline/apps/occupymaker.py", "ababe/cmdline/apps/occupybiter.py",
      "ababe/cmdline/apps/occupytenter.py", "ababe/cmdline/apps/occupymakert.py", "ababe/cmdline/apps/superlattice.py"],
     [("name choice", "run() of each app"), ("selection", "condition in run()"), ("target element", "__init__ of each app")], [],
     ["the output directory", "the files in it"])

prop("C12", "Grid structure enumeration and grid geometry",
     "For any lattice and grid size, enumerating placements of a number of speckles on a grid yields exactly one arrangement from every class "
     "related by the symmetry of the periodic grid, each with exactly that many speckles. The unfiltered enumeration yields every placement once, a grid "
     "structure converts to the cell with each grid point at its fractional place, and structure equality under a set of operations and, on the "
     "named lattices, the speckle-separation test answer by the exact geometry.",
     ["inputs"], "all lattices, grid sizes, species and speckle counts",
     "The tests check counts and a few arrays.",
     ["ababe/stru/sogen.py", "ababe/stru/scaffold.py"],
     [("orbit marking", "gen_nodup_cstru"), ("placements", "SitesGrid.gen_speckle"), ("cell", "CStru.get_cell"),
      ("equality", "is_stru_equal"), ("separation", "is_speckle_disjunct")], [],
     ["gen_nodup_cstru", "CStru.gen_speckle", "get_cell", "is_stru_equal", "is_speckle_disjunct"])

prop("C13", "Buckyball enumeration respects exactly the icosahedral symmetry",
     "The permutations of the sixty buckyball sites are exactly the 120 symmetries of its bond network, and positions and permutations refer "
     "to the same site order. Filtering any stream of colorings keeps exactly one member of each symmetry class present in it, in order of first "
     "appearance, and each incremental level yields exactly one coloring per class.",
     ["inputs", "schedules"], "all streams of colorings, all levels",
     "The tests check the counts of three levels; a hash collision or a wrong permutation entry shows only on particular colorings.",
     ["ababe/stru/buckyball.py", "ababe/stru/bucky_permu_table.npy", "ababe/stru/buckyball.json"],
     [("permutation table", "bucky_permu_table.npy"), ("orbit marking", "Structure.to_nodup_generator"),
      ("identifier", "Structure._get_atom_seq_identifier")], [],
     ["get_symmetry_permutation", "to_nodup_generator", "add_one_speckle_generator", "all_speckle_gen", "gen_speckle"])

prop("C14", "The random-pop set is a set under any history",
     "Through any sequence of insertions, discards, removals, random peeks and random pops, membership, size and iteration describe exactly the "
     "elements inserted and not yet removed, each once. A random peek returns a present element and changes nothing, a random pop removes exactly the element it returns, "
     "every present element can be returned, and an empty set yields nothing.",
     ["histories"], "all operation histories and all outcomes of the random choice",
     "The tests make single calls on one small set.",
     ["ababe/mlearn/dsutils.py"],
     [("swap with last", "RandomPopSet.discard")],
     [("map", "element -> index", "RandomPopSet"), ("list", "elements", "RandomPopSet")],
     ["len", "in", "iteration", "get_random", "random_pop"])

prop("C15", "Random growth yields a connected path of distinct sites",
     "Every random growth run returns exactly the goal number of distinct positions, starting at the start position, each inside "
     "the grid and neighbouring an earlier one. The neighbours of a grid site are exactly the other grid sites within the threshold distance "
     "under the lattice, in two and three dimensions and for any grid shape.",
     ["inputs", "histories"], "all grids, lattices, thresholds and all outcomes of the random choices",
     "The test looks at the length of one path.",
     ["ababe/mlearn/arrange.py", "ababe/mlearn/arrangeAgent.py", "ababe/stru/scaffold2d.py", "ababe/stru/scaffold.py"],
     [("frontier", "random_walk_arrange"), ("neighbour query", "CStru.get_neighbors, CStru2d.get_neighbors")],
     [("frontier", "candidate sites adjacent to the path", "random_walk_arrange")],
     ["random_walk_arrange", "get_neighbors"])

prop("C16", "Tree search follows its statistics",
     "Every playout descends from the current root choosing at each node a child of maximal score, where the score is the mean of the leaf values backed up "
     "through the child plus a bonus: its prior until first visited, afterwards the exploration constant times its prior times the root of the parent's visits "
     "over one plus its own, as of its last visit. Leaves are expanded once, evaluated by the weighted mix of value function and rollout, the move returned is a "
     "most visited one, the caller's state is never changed, and advancing by a move keeps what is known below that move or starts afresh.",
     ["histories", "inputs"], "all games, policies, values, parameters and sequences of searches and moves",
     "There is no test of the tree search.",
     ["ababe/mlearn/mcts.py"],
     [("descent", "MCTS._playout / TreeNode.select"), ("back-up", "TreeNode.update_recursive"), ("re-rooting", "MCTS.update_with_move")],
     [("visits, mean, bonus", "statistics per tree node", "TreeNode")],
     ["policy_fn / value_fn / do_move calls", "get_move"])

prop("C17", "The periodic table is consistent and vacancies are species",
     "Symbols and atomic numbers convert into each other without loss for every element of the table, each number belongs to one symbol, "
     "and number zero is the vacancy in every conversion. Two species are equal exactly when their atomic numbers are, and nothing else equals a species.",
     ["inputs"], "all species of the table and all pairs of them",
     "The tests look at a few elements.",
     ["ababe/stru/element.py", "ababe/stru/pt.json", "ababe/stru/site.py"],
     [("lookup", "Specie.from_num, Specie.to_name"), ("vacancy", "GhostSpecie")], [],
     ["Specie", "from_num", "to_name", "==", "Site"])

prop("C18", "Site grids behave as arrays under any history",
     "Through any sequence of assignments and copies, each grid position holds the last species assigned to it in that grid and a copy is independent of "
     "its original in both directions. Conversion to an array and back is the identity, grids are equal exactly when every position holds the same "
     "species, and every placement of speckles on a sea is generated exactly once.",
     ["histories", "inputs"], "all grid shapes and all histories of assignments and copies",
     "The tests assign once in one grid.",
     ["ababe/stru/scaffold.py", "ababe/stru/scaffold2d.py"],
     [("nested rows", "SitesGrid.__setitem__ / deepCopy"), ("array conversion", "to_array / from_array")],
     [("_sites", "nested lists of species", "SitesGrid")],
     ["indexing", "to_array", "==", "deepCopy", "gen_speckle"])

prop("C19", "Enumerations on one generator object do not disturb each other",
     "Any number of enumerations started from one generator object, of any kinds, interleaved in any order, partly consumed or repeated, each yield what they "
     "would alone. Cells already handed out keep their contents, and the mother cell is unchanged.",
     ["schedules", "histories"], "all interleavings of any enumerations",
     "The tests run one enumeration at a time to its end.",
     ["ababe/stru/sogen.py"],
     [("per-call state", "local isoset / id_db of each generator")], [],
     ["the generators of OccupyGenerator"])

prop("C20", "Single-structure commands write the structure they promise",
     "The supercell, primitive-cell, atom-clearing and perturbation commands write one file (or print) holding, respectively, the tiled "
     "crystal, the primitive description of the same crystal, the crystal without exactly the atoms in range of the centres, and the crystal with every atom "
     "displaced by the given distance. They leave the input file untouched.",
     ["inputs", "configurations"], "all input structures, formats and options",
     "There is no test of the command line programs.",
     ["ababe/cmdline/runatilib.py", "ababe/cmdline/apps/atomclarifier.py", "ababe/cmdline/apps/atomperturb.py"],
     [("commands", "supcell, pcell, atclear, perturb")], [],
     ["the written file", "standard output"])

prop("C21", "A cell does not depend on how its atoms are listed",
     "Listing the atoms of a crystal in another order or in other periodic images gives a cell with the same site order, species "
     "sequence, identifier, formula and atom count, in which every atom keeps its species and place. Two cells on the same sites have the same identifier exactly when "
     "every site holds the same species, the formula counts the atoms of each element in order of atomic number without vacancies, and "
     "assigning new species is reflected in everything the cell reports.",
     ["inputs", "histories"], "all crystals, listings and species assignments",
     "The tests sort one small cell.",
     ["ababe/stru/scaffold.py"],
     [("sorting", "GeneralCell._get_new_id_seq"), ("identifier", "GeneralCell.id"), ("formula", "GeneralCell.comment")], [],
     ["positions", "numbers", "id", "comment", "num_count", "get_speckle_num", "get_cartesian"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
