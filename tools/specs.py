"""Workload specification of every property: which binaries, process counts and case counts."""
class _J: pass
def _jobs(rel=100, san=20, dims=(2, 3), prel=(1, 2, 3, 5, 7), psan=(2, 4), delay=0, dscale3=0.6, thorough=12, delays=False):
    """rel/san: number of cases per (dimension, process count) in the quick tier."""
    def make(tier):
        from check_job import Job
        out = []
        f = 1 if tier == "quick" else thorough
        n = 0
        for dim in dims:
            sc = dscale3 if dim == 3 else 1.0
            for cfg, cnt, Ps in (("rel", rel, prel), ("san", san, psan)):
                if cnt == 0: continue
                for P in Ps if tier == "quick" else sorted(set(Ps) | ({1, 2, 3, 4, 6, 8, 11} if cfg == "rel" else {1, 2, 3, 5})):
                    c = max(1, int(cnt * sc * f))
                    # split in batches
                    per = max(1, min(c, max(10, cnt)))
                    k = 0
                    while k < c:
                        m = min(per, c - k)
                        d = 0
                        if delay or delays: d = (delay or 1) if (n % 2 == 0 or delay) else 0
                        out.append(Job(dim, cfg, P, 100000 * (n + 1), m, d, 0 if n % 3 else (256 if delays or delay else 0)))
                        k += m
                        n += 1
            if len(prel) > 2:           # one batch on more processes than the other batches (and than cores)
                for P in (13,) if tier == "quick" else (13, 25):
                    n += 1
                    out.append(Job(dim, "rel", P, 100000 * (n + 1), max(8, int(rel * sc * f / (8 if P < 20 else 16))), (delay or 1) if delays or delay else 0, 0))
        return out
    return make

SPECS = {}
def spec(prop, rule, jobs, **kw):
    SPECS[prop] = dict(rule=rule, jobs=jobs, **kw)

GEN = ("A case is a random connectivity (built-in, or a lattice or glued surface with random holes, periodicity and tree rotations), a random forest history and "
       "random partition including empty processes, derived from VERIF_SEED and the case number; ")
spec("C02", GEN + "non-trivial and distinct means a different global leaf set, owner map or connectivity after some operation, by hash.",
     _jobs(rel=1500, san=250), need=["forest_states_checked", "states_with_empty_process", "damages_refused"],
     assumptions=["the oracle trusts the leaves themselves and recomputes everything else"])
spec("C01", GEN + "each adaptation step is judged against the leaves and callback events it must produce; distinct means a different resulting global leaf set, owner map or connectivity.",
     _jobs(rel=700, san=150), need=["callback_calls", "replacements", "untouched_leaves_checked", "new_leaves_checked", "orphans_seen"])
spec("C03", GEN + "each repartition is judged; distinct means a different leaf set, owner map or connectivity after it.",
     _jobs(rel=1500, san=250, prel=(2, 3, 5, 7, 1), delays=True), need=["weight_calls", "leaves_shipped", "leaf_data_checked"])
spec("C04", GEN + "each repartition for coarsening is judged; distinct means a different leaf set, owner map or connectivity after it.",
     _jobs(rel=900, san=150, prel=(2, 3, 5, 7, 11), delays=True), need=["families", "families_cut_before_correction", "coarsened_after_partition"])
spec("C05", GEN + "every balance result is compared with the coarsest balanced refinement computed by the monitor from the geometry; distinct means a different balanced leaf set, owner map or connectivity.",
     _jobs(rel=600, san=80, prel=(1, 2, 3, 5, 7), delays=True), need=["balanced_forests", "replacements", "subtrees_balanced", "seeds_split"])
spec("C06", GEN + "every ghost layer (new, expanded, node support) is compared with the set of touching leaves computed from the geometry; distinct means a different leaf set, owner map, connectivity or kind of contact.",
     _jobs(rel=2500, san=350, prel=(2, 3, 5, 7, 1), delays=True), need=["ghosts_checked", "mirrors_checked", "expansions", "ghost_queries", "existence_queries", "hanging_positions", "node_supports", "tampered_layers"])
spec("C07", GEN + "every ghost entry received in every exchange is compared with what its owner supplied; distinct means a different leaf set, owner map, connectivity or layer.",
     _jobs(rel=1500, san=250, prel=(2, 3, 5, 7), psan=(2, 3, 5), delay=1), need=["ghost_data_checked", "ghosts_outside_levels", "overlapping_exchanges", "injected_delays"])
spec("C08", GEN + "every iteration is judged call by call; distinct means a different balanced leaf set, owner map or connectivity.",
     _jobs(rel=800, san=100, prel=(1, 2, 3, 5), dscale3=0.5), need=["volume_calls", "faces_judged", "corners_judged", "edges_judged", "hanging_sides", "missing_sides", "edge_side_pairs", "tree_boundary_interfaces", "partially_known_judged"])
spec("C09", GEN + "every node numbering is compared with the mesh entities computed from the geometry; distinct means a different balanced leaf set, owner map, connectivity or degree.",
     _jobs(rel=500, san=60, prel=(1, 2, 3, 5), dscale3=0.5, delay=1), need=["nodes_checked", "hanging_faces", "hanging_edges", "hanging_references", "shared_nodes_checked", "shared_values_checked", "overlapping_shares", "object_numberings", "node_weighted_cuts"])
spec("C13", GEN + "every query is compared with a direct evaluation of the gathered leaf distribution; distinct means a different leaf set, owner map or connectivity.",
     _jobs(rel=1500, san=300, prel=(1, 2, 3, 5, 7)), need=["positions_checked", "positions_across_processes", "empty_processes", "cross_tree_positions", "neighborhoods_owned", "bounds_checked", "splits_checked", "cumulative_checked", "ranges_checked", "offsets_searched", "reduced_forests"])
spec("C15", "Random pairs of partitions with empty processes, up to five transfers in flight with random sizes, begun and completed in different order on every process, with injected message delays; every byte delivered is compared with what the leaf's old owner supplied; distinct means a different set of partitions and sizes.",
     _jobs(rel=4000, san=800, dims=(2, 3), prel=(1, 2, 3, 5, 7), psan=(3, 5), dscale3=0.3, delay=1), need=["data_checked", "data_moved", "empty_data", "overlapping_transfers", "begun_in_other_order", "fixed_transfers", "custom_transfers", "item_transfers", "leaves_followed", "injected_delays"])
spec("C14", GEN + "it is saved with random options and read back with other options, streams, memory buffers, communicators; distinct means a different leaf set, partition, connectivity, data size or storing of the partition.",
     _jobs(rel=800, san=160, prel=(1, 2, 3, 5, 7), psan=(2, 4)), need=["leaves_read", "leaf_data_checked", "leaf_data_unread", "loads_plain", "loads_ext", "loads_memory", "loads_stream", "loads_other_size", "subgroup_loads", "files_compared", "files_rewritten", "inflated", "damaged_refused", "source_tails", "file_records"])
spec("C20", GEN + "checksums, the equality predicate and copies are judged against the gathered leaves and snapshots of every member; distinct means a different leaf set, partition or connectivity.",
     _jobs(rel=4000, san=600, prel=(1, 2, 3, 5, 7), psan=(2, 4)), need=["partitions_compared", "partitions_distinguished", "serial_checksums", "subgroup_checksums", "changes_detected", "equal_pairs", "unequal_pairs", "data_only_differences", "copies_judged", "copies_with_own_communicator"])
spec("C12", GEN + "four searches of random kind and options run on it and the recorded callback trace is parsed against the recursion prescribed by leaves, partition and the callbacks' answers; distinct means a different leaf set, partition or connectivity.",
     _jobs(rel=3000, san=500, prel=(1, 2, 3, 5, 7), psan=(2, 4)), need=["local_visits", "reorder_visits", "partition_visits", "all_visits", "leaf_visits", "point_calls", "split_branches", "reorder_calls", "located_points", "foreign_partitions"])
spec("C19", "A case draws 200 quadrants (all levels, patterns of extreme and random coordinates, exterior images), related partners (ancestors, descendants, siblings, neighbours, successors, enlarged and shrunk), quadrant arrays with mutations, and wide integers; distinct means different pairs of quadrants (every twentieth is hashed).",
     _jobs(rel=1200, san=250, prel=(1, 3), psan=(1, 2)), need=["unary_valid", "ext_outside", "ext_inside", "families", "nonfamilies", "pair_ancestor", "pair_next", "pair_sibling", "range_partial", "range_inside", "arrays_complete", "arrays_linear", "arrays_sorted", "arrays_unsorted", "linearized_removed", "lid_ops", "nodes", "enlarged"])

spec("C16", "A case builds or modifies one connectivity (bricks, two trees, built-in domains, generated lattices and glued surfaces; completing from vertices, reducing, permuting, joining faces one by one, refining, damaging) and its face, edge and corner identifications are compared with those of the intended domain; distinct means a different connectivity.",
     _jobs(rel=15000, san=3000, prel=(1, 3), psan=(1, 2)), need=["bricks", "builtins", "builtin_vertex_domains", "by_name", "completed", "reduced", "connectivities_judged", "joins", "domains_rebuilt", "permuted", "permuted_without_vertices", "refined_trees", "twotrees", "invalid_refused"])
spec("C17", "A case takes one random connectivity through files, memory buffers, streams, copies, broadcasts and shared storage and compares all tables with the original, damages the data, edits single entries or renumbers corners and edges for the equality and equivalence predicates, or writes a hexahedral, quadrilateral or tetrahedral mesh file (or a damaged one) and judges the connectivity read from it; distinct means a different connectivity.",
     _jobs(rel=12000, san=2500, prel=(1, 2, 3, 5), psan=(1, 3)), need=["tables_compared", "files", "damaged_refused", "streams", "copies", "broadcasts", "shares", "missions", "single_differences", "equivalent_equal", "equivalent_unequal", "inequivalent", "other_domains", "meshes", "bad_meshes", "tet_meshes", "tet_trees", "bad_tets"])
spec("C18", "A case takes one random connectivity and transforms random quadrants, nodes, coordinates, tree corners and edges to all their images; every image is compared with the affine maps derived from the face identifications; distinct means a different connectivity.",
     _jobs(rel=15000, san=2500, prel=(1, 3), psan=(1, 2)), need=["canonical_points", "shared_points", "coordinates_transformed", "corner_sets", "corner_transforms", "faces_across", "faces_within", "images_across", "no_neighbour", "nodes_transformed", "quadrants_transformed", "nt_self", "nt_face", "nt_corner", "sets_across_a_corner", "sets_across_a_face", "table_entries", "edge_sets", "edge_transforms", "nt_edge", "sets_across_an_edge"])
spec("C10", GEN + "node numberings for multilinear elements are compared with the element corners computed from the geometry; distinct means a different leaf set, owner map or connectivity.",
     _jobs(rel=1200, san=200, prel=(1, 2, 3, 5), psan=(2, 4), dscale3=0.4), need=["independent_corners", "face_hanging_corners", "edge_hanging_corners", "corners_other_tree", "hanging_other_tree", "nonlocal_nodes", "owned_nodes", "sharer_lists", "sharers_several", "local_corners", "local_corners_unbalanced", "node_lists", "offset_arrays", "big_boundaries"])
spec("C11", GEN + "the mesh lookup tables and the neighbour iteration are compared with the adjacency computed from the geometry; distinct means a different leaf set, owner map or connectivity.",
     _jobs(rel=1500, san=250, prel=(1, 2, 3, 5), psan=(2, 4), dscale3=0.35), need=["half_size_faces", "boundary_faces", "same_size_faces", "double_size_faces", "ghost_faces", "face_hanging_edges", "edges_without_neighbour", "direct_edges", "grouped_edges", "hanging_corners", "corners_without_neighbour", "direct_corners", "grouped_corners", "level_lists", "iterated_neighbours", "neighbour_data", "cumulative_lookups", "neighbour_lookups", "meshes"])
spec("C21", GEN + "a wrapper runs several mark, adapt, partition cycles and every step is compared with a reference forest driven by the rules of the wrapper; distinct means a different leaf set, owner map or connectivity.",
     _jobs(rel=400, san=60, prel=(1, 2, 3, 5), psan=(2, 4), dscale3=0.3), need=["adaptations", "refined", "coarsened", "adaptation_cancelled", "same_count_changed", "adapted", "adapt_unchanged", "coarsening_held_back", "replacements", "newly_refined", "newly_coarsened", "partition_moved", "partition_stayed", "stayed", "views", "iterated", "iter_mirrors", "copies", "hollowed", "unhollowed", "delay_set", "constructors", "wrapped_forests"])
spec("C24", "A case builds a forest leaf by leaf, from a subset of leaves, from points, from a uniform count or by completing a range or a set of leaves, on a random connectivity and partition, and compares it with the coarsest leaf set the input prescribes; distinct means a different leaf set, owner map or connectivity.",
     _jobs(rel=12000, san=2500, prel=(1, 2, 3, 5, 7), psan=(2, 4), dscale3=0.5), need=["builds", "build_added", "build_by_search", "build_empty_trees", "build_repeated", "build_trees", "leaf_data", "new_coarse", "new_uniform", "points_forests", "points_leaves", "regions", "region_leaves", "removals", "removed_exterior", "subtrees", "subtree_kept", "subtree_removed"])
spec("C26", GEN + "VTK files are written in compressed, plain binary and text format with random options, geometries and fields, parsed and decoded, and every number is compared with the leaves, the geometry and the fields; distinct means a different leaf set, owner map, connectivity, format or scale.",
     _jobs(rel=2500, san=400, prel=(1, 2, 3, 5), psan=(2, 4), dscale3=0.4), need=["pieces", "index_files", "corners_placed", "corners_shared", "high_order_points", "cell_values", "point_values", "point_values_shared", "tree_ids", "levels", "ranks", "offsets", "types", "files_with_geometry", "text_files", "plain_binary_files", "plain_files", "unwritable", "aborted", "column_files", "layer_corners_placed", "layer_values", "layer_index_files"])
spec("C22", "A case makes a column forest on a random connectivity with random height, layers and data, runs random refinements, coarsenings, balances, partitions, copies and save/load cycles on it, and compares columns, layers, data, callbacks and owners with a model after every step; distinct means a different column and layer set, owner map or connectivity.",
     _jobs(rel=5000, san=1400, dims=(2,), prel=(1, 2, 3, 5, 7), psan=(1, 2, 4)), need=["states_verified", "layers_verified", "balance_full", "balance_edge", "balance_face", "ratio_enforced", "layers_added_by_balance", "touching_columns_judged", "partitions", "partitions_given", "partitions_for_coarsening", "partitions_corrected", "partitions_converted", "copies", "loads", "loads_on_one_process", "from_forests", "created", "column_families_merged", "layer_pairs_merged", "deep_layer_refinements", "layers_shipped", "checksums", "communicators", "reduced_forests"])
spec("C27", "A case makes a column forest by random operations, balances and partitions it, builds ghost layers and expands them, and builds numberings of degree one to four, comparing every ghost, mirror, node, code, sharer and label with a model made from all columns; distinct means a different column and layer set, owner map or connectivity.",
     _jobs(rel=3500, san=800, dims=(2,), prel=(1, 2, 3, 5, 7), psan=(2, 4)), need=["ghosts_built", "ghosts_expanded", "ghost_columns_checked", "ghost_layers_checked", "mirrors_checked", "fronts_checked", "numberings_linear", "numberings_quadratic", "numberings_high", "element_nodes_checked", "hanging_layers", "nodes_checked", "node_columns", "shared_nodes_checked", "shared_values_checked", "labels_checked"])
spec("C25", GEN + "one program of operations is run on all processes with two schedules of delays, with other partitions, on part of the processes and by one process alone, and every global result (and, between schedules, every local one) is compared; distinct means a different connectivity and sequence of global results.",
     _jobs(rel=220, san=60, prel=(2, 3, 5), psan=(2, 4), dscale3=0.35, delay=1), need=["global_results", "local_results", "repetitions", "repartitioned", "serial_runs", "subgroup_runs", "ghosts", "element_nodes", "interfaces", "points_located", "injected_delays"])

spec("C28", "A case takes one connectivity with its matching geometry (built-in mappings with random parameters, or the vertex geometry on a generated connectivity) and judges the images of sample points inside trees, on shared and on boundary faces, the content of every tree, and the node coordinates of a refined forest on it; distinct means a different connectivity, mapping or leaf set.",
     _jobs(rel=2500, san=500, prel=(1, 2, 3, 5), psan=(1, 3), dscale3=0.5), need=["geometries", "analytic_geometries", "points", "shared_points", "boundary_points", "contents", "node_sets", "node_sets_by_place", "node_sets_mapped", "hanging_node_coordinates"])
spec("C29", GEN + "the complex is built with random overlap, with or without existing ghost layer and numbering, and every cell derives the places of all points it can reach; distinct means a different balanced leaf set, owner map or connectivity.",
     _jobs(rel=600, san=80, prel=(1, 2, 3, 5, 7), psan=(2, 4), dscale3=0.3, delays=True), need=["plexes", "plexes_with_objects", "plexes_on_objects", "plexes_with_wide_overlap", "cells", "children", "edges_split", "faces_split", "parents_visited", "vertices_placed", "remotes_judged", "overlap_cells"])

def _chaos(tier):
    from check_job import Job
    js = _jobs(rel=1600, san=420, prel=(1, 2, 3, 5, 7), psan=(1, 2, 4, 5), dscale3=0.5, delays=True)(tier)
    n = 8000
    for k in range(1 if tier == "quick" else 12):
        for dim, cnt in ((2, 160), (3, 60)):
            for P in (1, 2) if tier == "quick" else (1, 2, 3):
                n += 1
                js.append(Job(dim, "vg", P, 100000 * n, cnt))
    return js
spec("C23", "A case is either a workload of another property, run for memory, message and assertion errors only, or a random sequence of public operations over a pool of connectivities, forests, ghost layers, numberings, meshes and files; distinct means a different resulting global leaf set or connectivity. Sanitizer builds also trap assertions and poisoned pool memory; release builds run with filled allocations, and some batches under valgrind for reads of uninitialised memory. Guarded batches send synchronously and hash message buffers in flight.",
     _chaos, budget=760, need=["sequences", "operations", "guarded_sends", "forests", "refinements", "coarsenings", "balances", "partitions", "exchanges", "numberings", "meshes", "plexes", "node_lists", "vtk_files", "save_loads", "transfers", "iterations", "searches", "copies", "builds", "wrap_cycles", "conn_ops", "replacements", "expansions_by_nodes", "data_checked", "injected_delays"])
