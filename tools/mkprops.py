#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
      quantifier=dict(over=over, text=" ".join(qtext.split())),
      why_tests_cant=" ".join(why.split()),
      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                   state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                   observe_at=observe, hook_needed=None)))

T2 = "The test suite runs a handful of fixed forests on two processes; "

prop("C01", "Refinement and coarsening do exactly what the callbacks decide",
 """Refining or coarsening a forest (recursive or not, with any level limit) produces exactly the leaves that the
 user's decisions prescribe: a refined leaf becomes its 2^d children, a coarsened complete family becomes its parent,
 nothing else changes, and the revision counter advances exactly when some leaf changed.
 Every leaf that is created or replaced is reported exactly once to the initialisation and replacement callbacks with
 the right outgoing and incoming leaves; the refinement decision is asked once for every existing (recursively: and every new) leaf, and non-recursive coarsening with orphan reporting shows each leaf outside an offered family alone exactly once,
 and the user data of every untouched leaf is preserved byte for byte.""",
 ["inputs", "histories", "configurations"],
 "Every valid forest, callback decision function, level limit, data size (including zero), process count and preceding history of operations, in 2D and 3D.",
 T2+"only a few recursion patterns and no data-preservation model are asserted.",
 ["src/p4est.c", "src/p4est_extended.h", "src/p4est.h"],
 [("p4est_refine_ext", "src/p4est.c"), ("p4est_coarsen_ext", "src/p4est.c"), ("p4est_reset_data", "src/p4est.c")],
 ["callback invocations", "leaves, user data and revision after the call"],
 [("tree quadrants", "sorted leaves of a tree with user data", "p4est_tree_t.quadrants"), ("revision", "modification counter", "p4est_t.revision")])

prop("C02", "Every operation leaves a complete, sorted, consistently described forest",
 """After any sequence of creation, refinement, coarsening, balance, partition, copy and load, the leaves of each tree tile it
 completely without overlap in space filling curve order across the processes.
 All derived counts and markers (global and local leaf counts, per-process first positions and first indices, per-tree offsets, first and last
 local tree, per-level counts, maximum level, first and last descendants) agree with the actual leaves and are identical on all processes where they are global.
 The library's own validity check accepts the forest, and refuses it on all processes when any of these is damaged on one.""",
 ["histories", "inputs", "configurations"],
 "All operation histories over all valid connectivities, process counts (with empty processes anywhere) and refinement depths up to the maximum.",
 T2+"invariants are only checked inside debug assertions for those runs, and never recomputed independently.",
 ["src/p4est.c", "src/p4est_algorithms.c", "src/p4est_communication.c"],
 [("p4est_is_valid", "src/p4est_algorithms.c"), ("p4est_comm_global_partition", "src/p4est_communication.c"), ("p4est_comm_count_quadrants", "src/p4est_communication.c"), ("p4est_complete_region", "src/p4est_algorithms.c"), ("p4est_new_ext", "src/p4est.c")],
 ["full forest state after each operation on every process"],
 [("global_first_position", "first descendant of each process", "p4est_t"), ("global_first_quadrant", "cumulative leaf counts", "p4est_t")])

prop("C03", "Repartitioning moves leaves and data intact and balances the load",
 """Partitioning never changes the global sequence of leaves nor any leaf's user data; it only reassigns contiguous ranges to processes and
 returns the global number of leaves that changed process.
 Without weights the per-process counts differ by at most one; with a weight callback (called exactly once per local leaf in order) every leaf goes to
 the process determined by cutting the cumulative weight into equal shares (all-zero weights change nothing); a partition to explicitly given counts realises exactly these counts.
 Repartitioning without any change of counts ships nothing and reports zero.""",
 ["inputs", "histories", "configurations"],
 "All forests, weight functions (including zero and huge weights), target counts, data sizes and process counts with empty processes.",
 T2+"with two processes at most one boundary moves, so multi-hop shipping, empty senders and empty receivers never occur.",
 ["src/p4est.c", "src/p4est_algorithms.c", "src/p4est_extended.h"],
 [("p4est_partition_ext", "src/p4est.c"), ("p4est_partition_given", "src/p4est_algorithms.c")],
 ["leaf owner map and user data before and after", "return values"])

prop("C04", "Partition for coarsening never splits a family across processes",
 """When a partition is requested with allowance for coarsening, afterwards every complete family of sibling leaves lies on a single process,
 so that one coarsening step yields the same global forest as on a single process.
 The correction gives a family that a boundary cuts to the process holding most of its members (the lowest on ties), leaves boundaries that cut no family where they are, and keeps the leaf sequence and data intact.
 The same guarantee holds for weighted partitions and for the standalone correction of a proposed count array.""",
 ["inputs", "configurations", "histories"],
 "All forests with families cut by one or several process boundaries, including processes that hold fewer leaves than a family and empty processes.",
 T2+"a family spread over three or more processes, and corrections that empty a process, cannot occur with two.",
 ["src/p4est.c", "src/p4est_extended.h"],
 [("p4est_partition_for_coarsening", "src/p4est.c"), ("p4est_partition_ext", "src/p4est.c")],
 ["per-process leaf counts and global leaf sequence after the call", "result of a subsequent coarsening"])

prop("C05", "Balance yields the unique smallest 2:1 balanced refinement",
 """Balancing a forest with respect to faces, (3D) edges, or corners yields the coarsest refinement of the input in which any two leaves that share a face,
 edge or corner of the requested kind, also across trees in any relative orientation, differ by at most one level (where trees do not meet like a grid, balance below the full kind may refine more, but never beyond full balance).
 The result does not depend on the number of processes or the partition, leaves that were not refined keep their user data, new leaves are initialised and
 replacements reported once, and balancing a balanced forest changes nothing.
 The balance predicate, and balancing of a single subtree, agree with this definition, and the revision counter advances exactly when leaves changed.""",
 ["inputs", "configurations", "histories"],
 "All connectivities (periodic, rotated, with irregular edges and corners), leaf distributions with large level jumps, connection types, and partitions.",
 T2+"minimality and cross-tree corner and edge cases with more than two processes are not compared to an independent result.",
 ["src/p4est.c", "src/p4est_balance.c", "src/p4est_algorithms.c", "src/p4est_bits.c", "src/p4est_ghost.c"],
 [("p4est_balance_ext", "src/p4est.c"), ("p4est_balance_seeds", "src/p4est_balance.c"), ("p4est_complete_or_balance_kernel", "src/p4est_algorithms.c"), ("p4est_is_balanced", "src/p4est_ghost.c")],
 ["global leaves after balance", "callback invocations"])

prop("C06", "The ghost layer is exactly the set of touching off-process leaves",
 """The ghost layer of each process consists of exactly those leaves of other processes that share a face, edge or corner of the requested kind with a local
 leaf (also across trees), in global order, each with its owner, its index on the owner and correct per-tree and per-process offsets.
 The mirrors of a process for another one are exactly the local leaves in that other process's layer, in the same order; expanding the layer adds exactly the
 touching neighbours of its leaves, layer by layer.
 The validity check accepts every layer built and refuses layers that differ from the owners' mirrors; lookup, face-existence and containment queries on the layer answer according to its content.""",
 ["inputs", "configurations", "histories"],
 "All forests (not necessarily balanced where allowed), connectivities, connection types, process counts with empty processes, and numbers of expansions.",
 T2+"existing tests check a few queries and self-consistency, never the exact set on three or more processes.",
 ["src/p4est_ghost.c", "src/p4est_ghost.h"],
 [("p4est_ghost_new", "src/p4est_ghost.c"), ("p4est_ghost_expand", "src/p4est_ghost.c"), ("p4est_ghost_is_valid", "src/p4est_ghost.c"), ("p4est_ghost_bsearch", "src/p4est_ghost.c"), ("p4est_face_quadrant_exists", "src/p4est_ghost.c")],
 ["ghost and mirror arrays on all processes"])

prop("C07", "Ghost exchange delivers each owner's current data to every ghost",
 """An exchange of per-leaf data over the ghost layer delivers, for each ghost, exactly the bytes its owner supplied for that leaf, for the built-in user data, for
 custom data of any size, and for exchanges restricted to a level range (entries outside the range are left untouched).
 This holds for the blocking and for the split begin/end form, when several exchanges are in flight at once, for expanded layers, and under any delay and order of message arrival.""",
 ["schedules", "inputs", "configurations"],
 "All ghost layers, data sizes (including zero), level ranges, and message schedules.",
 T2+"messages arrive in a single order and large data sizes, level ranges with empty messages and overlapping exchanges are not tried.",
 ["src/p4est_ghost.c", "src/p4est_ghost.h"],
 [("p4est_ghost_exchange_data", "src/p4est_ghost.c"), ("p4est_ghost_exchange_custom_begin", "src/p4est_ghost.c"), ("p4est_ghost_exchange_custom_levels_begin", "src/p4est_ghost.c")],
 ["received bytes per ghost", "MPI traffic"])

prop("C08", "Iteration visits every volume, face, edge and corner once with all its sides",
 """Iterating a forest calls the user once per local leaf, in order, and once for each distinct face, (3D) edge and corner of the mesh
 that touches at least one local leaf, never twice and never for anything else.
 Each call lists exactly the leaves touching that interface from every tree, local or ghost (or marked absent when the layer lacks them), with correct tree, local or ghost index, side number, hanging status and orientation.
 Hanging edges and corners, which lie inside a face or edge of a larger leaf, get no call of their own, and faces, edges and corners on the domain boundary are flagged as such.""",
 ["inputs", "configurations"],
 "All balanced forests and ghost layers, with and without a ghost layer, any connectivity, process count, and combination of callbacks.",
 T2+"the enumeration is not compared with a geometric ground truth on irregular connectivities and more than two processes.",
 ["src/p4est_iterate.c", "src/p4est_iterate.h"],
 [("p4est_iterate_ext", "src/p4est_iterate.c"), ("p4est_volume_iterate", "src/p4est_iterate.c"), ("p4est_face_iterate", "src/p4est_iterate.c"), ("p4est_corner_iterate", "src/p4est_iterate.c")],
 ["sequence of callback invocations with side information"])

prop("C09", "High-order node numbering is globally consistent and conforming",
 """For every polynomial degree and special boundary-object numbering, two elements on any processes refer to the same global node number if and only if they refer
 to the same geometric node, hanging faces and edges refer to the nodes of the coarser neighbour and are encoded as such, and the global numbers are contiguous without gaps
 with each process owning a contiguous block.
 Each node is owned by the process of the lowest leaf touching it, the lists of sharing processes are complete, ordered by global number and symmetric, and value exchange along them delivers the owner's (or every sharer's) values.
 The total node count does not depend on the partition.""",
 ["inputs", "configurations", "schedules"],
 "All face- or fully balanced forests, degrees, connectivities and process counts.",
 T2+"node identity across processes, edges and rotated trees is only spot checked.",
 ["src/p4est_lnodes.c", "src/p4est_lnodes.h", "src/p8est_lnodes.h"],
 [("p4est_lnodes_new", "src/p4est_lnodes.c"), ("p4est_lnodes_share_owned_begin", "src/p4est_lnodes.c"), ("p4est_lnodes_share_all_begin", "src/p4est_lnodes.c"), ("p4est_lnodes_decode", "src/p4est_lnodes.h")],
 ["element_nodes, face codes, sharers on all processes"])

prop("C10", "Corner node lists are conforming and consistent across processes",
 """The list of corner nodes assigns the same independent node to every corner of any leaf that coincides geometrically (also across trees), classifies each corner that lies in the middle of a coarser
 face or edge as hanging with exactly the independent nodes it depends on, and contains each canonical node once.
 Every independent node has one owner and its sharing processes are those with leaves that reference it; the local and global owned counts are consistent.""",
 ["inputs", "configurations"],
 "All fully balanced forests with full ghost layers, connectivities and process counts.",
 T2+"hanging dependencies and sharers are not compared to geometry.",
 ["src/p4est_nodes.c", "src/p4est_nodes.h"],
 [("p4est_nodes_new", "src/p4est_nodes.c")],
 ["node arrays on all processes"])

prop("C11", "Mesh neighbour tables agree with the geometry of the leaves",
 """For every local leaf and each face (and, when requested, edge and corner) the mesh lookup tables name exactly the neighbouring leaves across it, local or ghost, same size, half size or double size, with the correct
 neighbour face or edge or corner number, relative orientation and hanging sub-position, or the domain boundary.
 Owner and index tables for ghosts, per-tree and per-level lists, and the neighbour iterators report the same relation, which is symmetric between neighbours.""",
 ["inputs", "configurations"],
 "All balanced forests, connectivities, mesh options and process counts.",
 T2+"encodings are compared on a few hand-built cases only.",
 ["src/p4est_mesh.c", "src/p4est_mesh.h"],
 [("p4est_mesh_new_ext", "src/p4est_mesh.c"), ("p4est_mesh_get_neighbors", "src/p4est_mesh.c"), ("p4est_mesh_face_neighbor_next", "src/p4est_mesh.c")],
 ["mesh tables on all processes"])

prop("C12", "Searches visit exactly the branches and points that the callbacks keep",
 """A top-down search over the local leaves, the partition, or both visits exactly the branches of the forest that meet the respective domain, each once and parents before children, as long as the callbacks keep them,
 and calls the point callback exactly for the points kept by all ancestors.
 Leaves are reported with their correct local number, and partition branches with exactly the first and last process whose leaves intersect them.
 A search that stops nowhere reports every leaf (or every process) holding a point.""",
 ["inputs", "configurations"],
 "All forests, process counts with empty processes, point sets, and pruning callbacks.",
 T2+"only simple point sets with no empty processes or multi-process branches are tried.",
 ["src/p4est_search.c", "src/p4est_search.h"],
 [("p4est_search_local", "src/p4est_search.c"), ("p4est_search_reorder", "src/p4est_search.c"), ("p4est_search_partition", "src/p4est_search.c"), ("p4est_search_all", "src/p4est_search.c"), ("p4est_split_array", "src/p4est_search.c")],
 ["callback invocations"])

prop("C13", "Ownership queries name the process that really owns a position",
 """For any position or quadrant in the domain, the queries for its owner process, for containment in a process's range, for emptiness of processes, for positions touching the range of a process,
 and for lower or upper bounds in sorted leaf arrays, as well as per-tree global counts and global first-leaf lookups, return what a direct evaluation of the global leaf distribution gives.
 This holds for any pattern of empty processes.""",
 ["inputs", "configurations"],
 "All partitions including empty first, middle and last processes, all quadrants at any level, all lookup guesses.",
 T2+"runs of empty processes never occur.",
 ["src/p4est_communication.c", "src/p4est_search.c", "src/p4est_bits.c"],
 [("p4est_comm_find_owner", "src/p4est_communication.c"), ("p4est_comm_is_contained", "src/p4est_communication.c"), ("p4est_comm_count_pertree", "src/p4est_communication.c"), ("p4est_bsearch_partition", "src/p4est_communication.c"), ("p4est_find_quadrant_cumulative", "src/p4est_search.c")],
 ["return values"])

prop("C14", "Saving and loading a forest reproduces it exactly",
 """A forest written to a file and read back, with the same or a different number of processes and any combination of load options, has the same connectivity, the same global leaves and, when requested, bytewise the same user data (loading without data gives data of the requested size, uninitialised);
 with the same number of processes and a stored partition it also has the same partition, otherwise an equal one.
 The in-memory forms (deflate and inflate, sources and sinks) round trip in the same way, and arrays that do not describe a forest are refused.
 The file does not depend on how many processes wrote it, if the partition is not stored.""",
 ["inputs", "configurations", "histories"],
 "All forests, data sizes, saving and loading process counts and option combinations.",
 T2+"saving and loading with other process counts, empty processes or large data are not combined.",
 ["src/p4est.c", "src/p4est_io.c", "src/p4est_extended.h"],
 [("p4est_save_ext", "src/p4est.c"), ("p4est_load_ext", "src/p4est.c"), ("p4est_source_ext", "src/p4est.c"), ("p4est_deflate_quadrants", "src/p4est_io.c"), ("p4est_inflate", "src/p4est_io.c")],
 ["file bytes", "forest after load"])

prop("C15", "Data transfer between partitions follows every leaf",
 """Transferring fixed-size, variable-size or item-structured per-leaf data from one partition of a forest to another delivers to each leaf's new owner exactly the bytes its old owner held, in leaf order,
 for any pair of partitions and any sizes including zero, in blocking and split form, with several transfers in flight and any message delay.""",
 ["inputs", "configurations", "schedules"],
 "All pairs of partitions with empty processes, all size distributions, all message schedules.",
 T2+"only one shift direction per call occurs.",
 ["src/p4est_communication.c", "src/p4est_communication.h"],
 [("p4est_transfer_fixed_begin", "src/p4est_communication.c"), ("p4est_transfer_custom_begin", "src/p4est_communication.c"), ("p4est_transfer_items_begin", "src/p4est_communication.c")],
 ["received bytes"])

prop("C16", "Connectivities built or modified are consistent and mean the same domain",
 """Every connectivity constructor yields a valid connectivity in which face, edge and corner tables are mutually consistent and equal those implied by shared vertices (where vertices define the topology), and completing,
 refining, reducing, permuting or reordering, reorienting or joining faces yields again a valid connectivity of the same (resp. the intended) domain; the validity predicate refuses inconsistent tables.
 Joining corners, edges and faces merges exactly the requested entities.""",
 ["inputs", "configurations"],
 "All built-in connectivities with parameters, all vertex-defined meshes, all permutations and face joins.",
 "Tests construct a few connectivities and check validity only, which accepts missing edge and corner links.",
 ["src/p4est_connectivity.c", "src/p8est_connectivity.c", "src/p4est_connrefine.c"],
 [("p4est_connectivity_complete", "src/p4est_connectivity.c"), ("p4est_connectivity_join_faces", "src/p4est_connectivity.c"), ("p4est_connectivity_permute", "src/p4est_connectivity.c"), ("p4est_connectivity_refine", "src/p4est_connrefine.c"), ("p4est_connectivity_new_brick", "src/p4est_connectivity.c")],
 ["connectivity tables"])

prop("C17", "Connectivities survive serialisation, broadcast and sharing bit for bit",
 """Saving to and loading from a file or memory buffer, copying, broadcasting from any root, and sharing through process-shared memory reproduce every table of a connectivity including tree attributes and vertices.
 The equality and equivalence predicates accept exactly the same resp. relabelled connectivities, and reading a mesh file (hexahedral, quadrilateral or tetrahedral) yields the connectivity of the described mesh; damaged or truncated data are refused.""",
 ["inputs", "configurations"],
 "All connectivities (with and without vertices, corners, edges, attributes), roots and process counts.",
 "The tests cover one or two connectivities without attributes.",
 ["src/p4est_connectivity.c", "src/p4est_connectivity.h"],
 [("p4est_connectivity_sink", "src/p4est_connectivity.c"), ("p4est_connectivity_source", "src/p4est_connectivity.c"), ("p4est_connectivity_bcast", "src/p4est_connectivity.c"), ("p4est_connectivity_is_equal", "src/p4est_connectivity.c"), ("p4est_connectivity_read_inp_stream", "src/p4est_connectivity.c")],
 ["connectivity tables before and after"])

prop("C18", "Coordinate and neighbour transforms across trees agree with the gluing",
 """Transforming a quadrant or point across a tree face, edge or corner yields exactly the coordinates prescribed by the connectivity's gluing, and transforming back returns the original.
 Neighbour queries for a quadrant across faces, edges and corners list each equal-size neighbour in the adjacent trees exactly once with the right entity number, and canonicalised coordinates agree for all
 representations of the same point and for no others.""",
 ["inputs", "configurations"],
 "All connectivities, all faces, edges, corners, orientations, levels and positions.",
 "Tests check some orientations of two trees at a few coordinates.",
 ["src/p4est_connectivity.c", "src/p8est_connectivity.c", "src/p4est_bits.c"],
 [("p4est_quadrant_transform_face", "src/p4est_bits.c"), ("p4est_find_corner_transform", "src/p4est_connectivity.c"), ("p4est_neighbor_transform_quadrant", "src/p4est_connectivity.c"), ("p4est_connectivity_coordinates_canonicalize", "src/p4est_bits.c"), ("p8est_find_edge_transform", "src/p8est_connectivity.c")],
 ["returned coordinates and entity numbers"])

prop("C19", "Quadrant arithmetic obeys the tree and curve definitions at every level",
 """Parent, child, sibling, ancestor, descendant, nearest common ancestor, face, edge and corner neighbours, linear ids, successors and predecessors, comparison, hashing, family, adjacency and
 overlap predicates on quadrants and linear-octree array operations give the values defined by binary subdivision and Morton order.
 This holds at all levels from the root to the maximum and at the domain boundary, including documented exterior quadrants.""",
 ["inputs"],
 "All valid quadrants and pairs of quadrants of any level.",
 "Tests compare functions with each other on a small sample of shallow quadrants.",
 ["src/p4est_bits.c", "src/p4est_algorithms.c", "src/p8est_bits.c"],
 [("p4est_quadrant_linear_id", "src/p4est_bits.c"), ("p4est_nearest_common_ancestor", "src/p4est_bits.c"), ("p4est_quadrant_compare", "src/p4est_bits.c"), ("p4est_linearize_tree", "src/p4est_algorithms.c")],
 ["return values"])

prop("C20", "Checksums, equality and copies identify forests by content",
 """The forest checksum is the same on any number of processes and any partition of the same leaves and changes with the leaves (with overwhelming probability), while the partition checksum and the equality predicate
 additionally detect a different partition, and the latter different user data.
 A copy is equal to its original, shares no memory with it, and later changes to either do not affect the other.""",
 ["inputs", "configurations", "histories"],
 "All forests, partitions and modifications.",
 T2+"checksums are only printed or compared between identical runs.",
 ["src/p4est.c", "src/p4est_algorithms.c", "src/p4est_extended.h"],
 [("p4est_checksum", "src/p4est.c"), ("p4est_is_equal", "src/p4est_algorithms.c"), ("p4est_copy_ext", "src/p4est.c")],
 ["return values", "state of both forests"])

prop("C21", "The adaptation wrapper performs the flagged adapt-partition cycle",
 """With the wrapper, an adaptation followed by partition and completion yields the forest obtained by refining all leaves marked for refinement, coarsening complete families marked for coarsening (subject to the documented delay), and balancing,
 and partitioning it by the weights requested.
 Ghost layers and meshes before and after describe the respective forests, leaf iteration covers all local leaves and mirrors in order, replacement callbacks and lists of new leaves report the adaptation, the return values report whether something changed, and the reported unchanged leaf ranges are exactly those that stayed on the process.""",
 ["histories", "inputs", "configurations"],
 "All sequences of marking, adapting and partitioning on any forest.",
 T2+"a single scripted sequence is run.",
 ["src/p4est_wrap.c", "src/p4est_wrap.h"],
 [("p4est_wrap_adapt", "src/p4est_wrap.c"), ("p4est_wrap_partition", "src/p4est_wrap.c"), ("p4est_wrap_leaf_next", "src/p4est_wrap.c")],
 ["forest, ghost and mesh after each phase"])

prop("C22", "Anisotropic column forests keep columns complete and obey all operations",
 """In a forest of columns of layers, refinement and coarsening of columns and layers, partition, copy, and save and load yield exactly the cells and data prescribed by the decisions of the callbacks, with each column tiled completely by its layers and held by a single process; the callbacks are shown exactly the cells that are replaced and those that replace them.
 Balance yields a 2:1 refinement of the requested kind, independent of the process count, that contains the given cells and is the coarsest for the neighbour relation of the columns, and obeys the requested limits on the ratio of width to height.
 Partition preserves cells and data and distributes columns by the requested layer counts, weights or explicit numbers. Replacing or duplicating its communicator, or reducing it to the processes that hold columns, leaves the same forest behind and in working order.""",
 ["inputs", "histories", "configurations"],
 "All column forests, decisions, and process counts.",
 T2+"one scripted sequence with self-consistency assertions.",
 ["src/p6est.c", "src/p6est_profile.c", "src/p6est.h", "src/p6est_extended.h"],
 [("p6est_balance_ext", "src/p6est.c"), ("p6est_refine_layers_ext", "src/p6est.c"), ("p6est_coarsen_columns_ext", "src/p6est.c"), ("p6est_partition_ext", "src/p6est.c"), ("p6est_load_ext", "src/p6est.c"), ("p6est_profile_balance_local", "src/p6est_profile.c")],
 ["columns, layers and data on all processes", "arguments of the callbacks"])

prop("C23", "No operation corrupts memory, hits undefined behaviour, leaks or hangs",
 """Any sequence of valid calls of the public interface on any number of processes runs without out-of-bounds or use-after-free access, without undefined behaviour (alignment of packed message data aside), without using uninitialised memory, without failing an internal consistency check and without deadlock even if every send waits for its receiver.
 Message buffers stay untouched while in flight, and all memory, communicators, requests and messages are released or consumed once the objects created are destroyed.""",
 ["inputs", "histories", "schedules", "configurations"],
 "All sequences of valid calls and all message schedules.",
 "The tests are not run under sanitizers and exercise few sequences on two processes.",
 ["src/p4est.c", "src/p4est_ghost.c", "src/p4est_lnodes.c", "src/p4est_mesh.c", "src/p4est_search.c", "src/p4est_communication.c", "src/p4est_connectivity.c"],
 [("all public entry points", "src/*.c"), ("sc_memory_check", "libsc")],
 ["sanitizer reports", "allocation counters", "unmatched messages"])

prop("C24", "Forests built from leaves, points or ranges contain what was asked for",
 """A forest assembled from a sorted stream of leaves or created from a set of points or with minimum counts and levels is a complete forest that contains every requested leaf (resp. isolates the points up to the stated maximum per leaf and level) and is otherwise as coarse as possible.
 Completing a region or subtree between given leaves yields the coarsest complete set between them, and creation with a minimum count or level, uniformly filled or not, obeys these bounds on every process.""",
 ["inputs", "configurations"],
 "All sorted leaf sets and point sets, all process counts.",
 T2+"few fixed inputs.",
 ["src/p4est_build.c", "src/p4est_points.c", "src/p4est.c", "src/p4est_algorithms.c"],
 [("p4est_build_add", "src/p4est_build.c"), ("p4est_build_complete", "src/p4est_build.c"), ("p4est_new_points", "src/p4est_points.c"), ("p4est_complete_region", "src/p4est_algorithms.c"), ("p4est_new_ext", "src/p4est.c")],
 ["leaves of the resulting forest"])

prop("C25", "Results do not depend on process count, partition or message timing",
 """The same sequence of operations (with uniform or given initial leaves and decisions that depend on leaves only) run on any number of processes, with any intermediate partition, and under any delay of messages, yields the same global forest and the same globally defined results: leaf data, checksums, node counts, interface counts, and search results.
 Repeating a run with different message timing gives identical per-process results.""",
 ["schedules", "configurations", "histories"],
 "All operation sequences, process counts and message schedules.",
 T2+"no run is compared with one on a different number of processes or with different timing.",
 ["src/p4est.c", "src/p4est_ghost.c", "src/p4est_lnodes.c", "src/p4est_iterate.c", "src/p4est_communication.c"],
 [("p4est_balance_ext", "src/p4est.c"), ("p4est_comm_parallel_env_reduce_ext", "src/p4est_communication.c"), ("p4est_ghost_new", "src/p4est_ghost.c")],
 ["global results of parallel and serial runs"])

prop("C26", "Visualisation files describe exactly the mesh and its data",
 """The written parallel VTK files decode to exactly one cell per leaf with the corner coordinates of its geometry (at any shrink factor), the right connectivity, offsets and cell types (linear or high-order), and the tree, level, process and user supplied cell and point data in leaf order; the index files list every piece. The files of a forest of columns likewise have one cell per layer, placed between the bottom and top vertices.""",
 ["inputs", "configurations"],
 "All forests, geometries, scales, field combinations and process counts.",
 "Tests only write the files; nothing reads them back.",
 ["src/p4est_vtk.c", "src/p4est_vtk.h"],
 [("p4est_vtk_write_header", "src/p4est_vtk.c"), ("p4est_vtk_write_cell_data", "src/p4est_vtk.c"), ("p4est_vtk_write_footer", "src/p4est_vtk.c")],
 ["decoded file content"])

prop("C27", "Ghost layers and node numberings of column forests agree with the geometry",
 """The ghost layer of a column forest holds exactly the layers of the ghost columns, each with its tree and its number on the owner, grouped by the offsets of columns, trees and processes, and its mirrors are exactly the layers that other processes hold as ghosts, also after any number of expansions.
 In a balanced column forest the global node numbering of any degree assigns one number to every node that layers share, and different numbers to different nodes, where a layer facing a wider or thicker neighbour refers to the nodes of the larger face; nodes above one node of the columns are numbered contiguously and carry one label, are owned by the process that owns the column node, and are listed with all their sharers.
 The codes of a layer state exactly which of its faces and edges hang and how, and values exchanged through the numbering arrive at the same nodes.""",
 ["inputs", "histories", "configurations"],
 "All balanced column forests, degrees, and process counts.",
 T2+"one scripted forest with self-consistency assertions.",
 ["src/p6est_ghost.c", "src/p6est_lnodes.c", "src/p6est_profile.c", "src/p6est_lnodes.h", "src/p6est_ghost.h"],
 [("p6est_ghost_new", "src/p6est_ghost.c"), ("p6est_ghost_expand", "src/p6est_ghost.c"), ("p6est_lnodes_new", "src/p6est_lnodes.c"), ("p6est_lnodes_get_column_labels", "src/p6est_lnodes.c"), ("p6est_profile_element_to_node", "src/p6est_profile.c"), ("p6est_lnodes_decode", "src/p6est_lnodes.h")],
 ["arrays of the ghost layer", "element nodes, owners, sharers, face codes", "values received"])

prop("C28", "Geometries map the trees onto their domain as the connectivity glues them",
 """Each geometry supplied with a connectivity maps every tree continuously and without folds onto its part of the domain: points that the connectivity identifies have one image, the trees together fill exactly the documented domain, and points on faces without neighbour lie on its boundary, for all admissible parameters.
 The vertex geometry is the multilinear interpolation of the tree vertices, and the coordinates of the nodes of an element of degree one or two are the images of the places of the nodes on the element (on the larger face or edge if they hang), once per node or once per place of a node, as requested.""",
 ["inputs", "configurations"],
 "All built-in geometries with all parameters, all points of the trees, and all forests.",
 T2+"the mappings are only used for output.",
 ["src/p4est_geometry.c", "src/p8est_geometry.c", "src/p4est.c"],
 [("p4est_geometry_new_connectivity", "src/p4est_geometry.c"), ("p4est_geometry_coordinates_lnodes", "src/p4est_geometry.c"), ("p4est_qcoord_to_vertex", "src/p4est.c"), ("p8est_geometry_new_shell", "src/p8est_geometry.c")],
 ["images of points", "coordinates of element nodes"])

prop("C29", "The exported point complex represents the forest, the same on all processes",
 """For every balanced forest with vertices and any number of layers of overlap, the point complex has the own leaves as cells, in order, together with the leaves of the overlap, and one point for every face, edge and corner of these cells and for every refinement of one that hangs, and no others.
 Following cones and orientations from any cell leads to the faces, edges and vertices where they lie on that cell, so cells that touch share precisely the points of their contact; a face or edge that meets smaller neighbours has exactly its parts as children with their documented numbers, and every part has its parent.
 Vertex coordinates are those of a place that the vertex has in some tree and agree on all processes; every point is owned by exactly one process, and all others list it as a reference to that process's point of the same place.""",
 ["inputs", "configurations"],
 "All balanced forests, partitions, overlaps, and supplied or internal ghost layers and numberings.",
 T2+"without the external library the existing test only calls the function.",
 ["src/p4est_plex.c", "src/p4est_plex.h", "src/p4est_extended.h", "src/p4est_ghost.c", "src/p4est_lnodes.c"],
 [("p4est_get_plex_data", "src/p4est_plex.c"), ("p4est_get_plex_data_ext", "src/p4est_plex.c"), ("p4est_ghost_expand_by_lnodes", "src/p4est_ghost.c")],
 ["output arrays of all processes"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
