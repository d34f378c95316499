import os

STUB = ["-I" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness", "stub")]
TYPES = dict(d="double", z="std::complex<double>", s="float", c="std::complex<float>")
CHECKS = {}
NA = {}
SANTXT = "AddressSanitizer+UBSan build, malloc fill 0xFF, BLAS/LAPACK argument and bounds monitor (interposed)"


def chk(id, src, quick, thorough, tech, rule, **kw):
    CHECKS[id] = dict(src=[src] if isinstance(src, str) else src, cases=dict(quick=quick, thorough=thorough), rule=rule,
                      technique="runtime monitoring: " + tech + "; " + (kw.pop("santxt", None) or SANTXT), **kw)


chk("C01", "c01.cpp", 6000, 60000, "tree-invariant monitor over every node of generated cluster trees",
    "random point clouds (12 shapes incl. degenerate) x builder options; non-trivial: the tree has more than one node; distinct by options and leaf depths", types="ds", require=["nodes", "partition_clusters", "large_partitions", "huge_trees", "contained_pairs", "non_contained_pairs"])
chk("C02", "c02.cpp", 6000, 40000, "direction-strategy spy plus recomputation of centre/radius/ordering of every node",
    "random point clouds, shifted and scaled, with radii/weights, both direction strategies observed through a spy; non-trivial: a split happened", types="ds", require=["nodes", "splits", "principal_directions"])
chk("C03", "c03.cpp", 12000, 100000, "partition monitor and guarded-buffer oracle for every numbering conversion helper",
    "random clouds and partitions (uneven, single points); every conversion helper both ways for int and the scalar type with guard zones; non-trivial: more than one point", require=["given_partitions", "conversions", "huge_trees"])
chk("C05", "c05.cpp", 2000, 12000, "coverage-counting monitor over the leaves (every entry exactly once)",
    "random cluster pairs x H-matrix builder options; non-trivial: more than one leaf; distinct by structure class", require=["huge_hmatrices", "blocks", "lowrank_leaves", "mirrored_leaves"])
chk("C04", "c04.cpp", 1500, 15000, "field-by-field comparison monitor of saved/reloaded trees over repeated cycles, and bitwise comparison of H-matrices assembled on them",
    "random trees (uneven, given partitions, changed metadata) saved and reloaded 1-3 times in a scratch directory; non-trivial: depth > 0", types="ds", require=["nodes_compared", "cycles", "assemblies", "huge_trees"])
chk("C06", "c06.cpp", 3000, 20000, "spies on the admissibility condition and compressor, independent evaluation of the default formula, structural monitor over all blocks",
    "random cluster pairs, eta over six decades, minimal depths, custom conditions, refusing compressors; non-trivial: an admissible block exists", require=["lowrank_blocks", "admissible_blocks", "false_positives"])
chk("C07", "c07.cpp", 2500, 15000, "recording generators (range, numbering, exactly-once) with per-entry unique kernel values",
    "random problems with user/internal generators, user dense-block generators and spied compressors; non-trivial: more than one leaf", require=["dense_leaves", "lowrank_leaves", "dense_generator_blocks", "compressor_calls"])
chk("C09", "c09.cpp", 1500, 12000, "compressors observed on single blocks, judged against an independent Jacobi SVD (tolerance, minimal rank, best approximation, refusal)",
    "random blocks: smooth kernels, exact low rank, random, zero, zero first row, constant; nine orders of magnitude of scaling; either cluster order; non-trivial: more than one row and column", require=["accepted", "refused", "minimal_rank_checked", "huge_blocks"])
chk("C08", "c08.cpp", 700, 5000, "block-wise and global Frobenius error of assembled H-matrices against the exact kernel, for two tolerances and scaled kernels",
    "random smooth-kernel problems (all four compressors, all symmetries and partition modes); non-trivial: at least one low-rank block", require=["with_lowrank", "epsilon_pairs", "scalings", "large_matrices", "large_blocks"])
chk("C10", "c10.cpp", 3000, 20000, "element-wise comparison of every vector product with an independent densification, guarded and compared input/output buffers, log monitor",
    "random H-matrices (all symmetries, modes, storage mixes) and their sub-blocks x entry point x transposition x scalars x thread count; non-trivial: more than one block", require=["huge_products", "products", "mirrored_leaves", "unsupported", "leaves_applied"])
chk("C11", "c11.cpp", 3000, 20000, "element-wise comparison of every multi-vector product (row-major, column-major, left, right) with an independent densification, guarded buffers, log monitor",
    "random H-matrices x entry point x transpositions x 1-17 right-hand sides x scalars x thread count; non-trivial: more than one block", require=["huge_products", "products", "mirrored_leaves", "right_hand_sides"])
chk("C12", "c12.cpp", 300, 2500, "ThreadSanitizer (happens-before race detection) over an own OpenMP runtime with seeded adversarial schedules, bitwise digests against the one-thread run",
    "random problems x 2-8 threads x random chunking, chunk order, late starters and starvation; distinct by the observed assignment of chunks to threads", san="tsan", extra_src=["blas_monitor.cpp", "omp_shim.cpp"],
    require=["parallel_regions", "regions_with_work_on_several_threads", "dense_leaves", "parallel_products", "products_from_user_threads", "scales", "messages_from_parallel_assembly", "jobs_of_user_threads"],
    santxt="ThreadSanitizer build, BLAS accesses reported to the race detector by an interposed wrapper")
chk("C14", "c14.cpp", 2000, 15000, "random low-rank factors through every low-rank operation, compared with dense reference arithmetic in higher precision; rank minimality judged by an independent Jacobi SVD",
    "random factors (rank zero to over-full, decaying, redundant, badly scaled, zero columns) x shapes incl. single rows/columns x transpositions x scalars x previous contents of the result", require=["thin_blocks_beyond_2^31_entries", "lowrank_results", "dense_results", "rank_minimality_checked", "chained_updates"])
chk("C13", "c13.cpp", 700, 6000, "every mixed product with a hierarchical operand or result compared with dense reference arithmetic in higher precision, coverage and dimension monitor on hierarchical results",
    "random triples of clusters (local, partition x root, roots) x independent H-matrices (eta, depths, compressors) x operation x transpositions x scalars; non-trivial: always", require=["dense_results", "lowrank_results", "hierarchical_results"])
chk("C15", "c15.cpp", 900, 8000, "LU/Cholesky factorisations of assembled H-matrices, every solve compared with a dense reference solve of the represented matrix; factor digest and log monitor",
    "random square problems (root and local clusters, unbalanced trees, rank-zero blocks, symmetric storage) x transposition x 1-17 or identity right-hand sides x numbering; non-trivial: always", require=["lu", "cholesky", "symmetric_storage", "solves", "with_lowrank", "with_rank_zero_blocks", "local_cluster", "with_row_interchanges"])
chk("C16", "c16.cpp", 1200, 10000, "triangular H-matrix solves with dense, low-rank and hierarchical right-hand sides compared with a dense reference triangle; guarded buffers, operand digests, log monitor",
    "random triangles stored as H-matrices (root and local clusters, symmetric storage, rank-zero blocks) x side x triangle x transposition x unit diagonal x scalar x kind of right-hand side; non-trivial: always", require=["dense_rhs", "lowrank_rhs", "hmatrix_rhs_with_lowrank", "symmetric_storage", "with_lowrank", "factored_solves"])
chk("C17", "c17.cpp", 4000, 40000, "every dense kernel and its variants compared element-wise with plain-loop references in higher precision on guarded buffers, inputs compared bitwise",
    "random shapes 1..31 incl. vectors and single entries x all transposition/side/triangle/diag letters x scalars incl. 0 and 1 (NaN-filled results when beta is 0); distinct by argument class", require=["op_gemv", "op_gemm", "op_symm", "op_symv", "op_gemm_rm", "op_symm_rm", "op_trsm", "op_lu", "op_chol", "op_svd", "op_algebra", "op_argmax", "row_interchanges"])
chk("C18", "c18.cpp", 2400, 25000, "model-based monitor over random histories of copies, moves, resizes, external buffers and mutations; behavioural comparison of copies with their source; allocation balance through malloc hooks",
    "random histories of dense matrices (40-60 operations on 5 objects, views, moved-from and released objects), low-rank matrices, cluster trees, and H-matrices with their sub-blocks copied, assigned and moved seven ways, then mutated and destroyed; distinct by history prefix or structure class",
    require=["objects_compared", "moves", "views", "factored_copies", "hmatrix_copies", "mutations", "copies_factored", "cluster_moves", "balance_scopes"])
chk("C19", "c19.cpp", 300, 3000, "every distributed product on sub-communicators of all sizes compared on each rank with the product of the gathered global matrix; guarded local buffers, cross-rank equality monitor",
    "random problems and partitions (given uneven or geometric) x builder (default, custom H-matrix, block diagonal, dense) x 18 entry points x numbering x right-hand sides x work buffers; distinct by (entry, ranks, builder, symmetry, numbering)",
    mpi=True, ranks={"quick": [5], "thorough": [2, 3, 5, 7]}, threads=2, parallel=4, timeout={"quick": 300, "thorough": 3000},
    require=["products", "multi_rank_products", "uneven_products", "lowrank_leaves", "mirrored_leaves", "global_errors"])
chk("C20", "c20.cpp", 300, 3000, "sums of dense, hierarchical and user-defined local operators compared with the gathered sum of their matrices; spies count and check the calls of user-defined operators",
    "random lists of 0-4 local operators per rank (own part, other part, all columns, own tree over a column range; either numbering; symmetric storage with poisoned other triangle), alone with random scalars and in distributed products of all kinds",
    mpi=True, ranks={"quick": [4], "thorough": [1, 3, 4, 6]}, threads=2, parallel=4, timeout={"quick": 300, "thorough": 3000},
    require=["products", "single_products", "sums", "kind_D", "kind_H", "kind_V", "kind_L", "user_numbered_operators", "symmetric_operators", "user_operator_calls"])
chk("C26", "c26.cpp", 500, 6000, "densification, diagonal, block look-up and leaf lists of whole H-matrices and random sub-blocks compared with an independent walk over the block tree; guarded and pre-filled buffers, log monitor",
    "random H-matrices (all symmetries, partition modes, inconsistent block trees, minimal depths, admissibility accepting diagonal blocks), cluster and user numbering; non-trivial: more than one block", require=["huge_diagonals", "huge_dense_entries", "densified", "user_densified", "user_densified_local", "diagonals", "user_diagonals", "user_diagonals_local", "diagonal_entries_in_lowrank", "leaf_lists", "mirrored_listed", "lookups", "absent_lookups"])
chk("C28", "c28.cpp", 900, 4000, "model-based monitor over random histories of builds, repeated operations, changed settings and destructions: every result is compared bitwise with that of a first, isolated use, and live objects are digested after every step",
    "random histories of 8-18 steps over 1-3 H-matrix problems (all symmetries and modes) or 2-4 cluster tree inputs sharing one builder, with a second scalar type interleaved; distinct by structure class or history prefix",
    require=["rebuilds", "operations", "trees_rebuilt", "changed_settings", "other_scalar_type", "used_after_builder", "op_factor-and-solve", "op_information", "op_lowrank-result"])
chk("C24", "c24.cpp", 800, 10000, "random histories of in-place and out-of-place solves on factorised dense, hierarchical and hierarchical-with-overlap subdomain solvers, every solution compared with a dense reference solve of the represented local system; guarded buffers, factor digests, log monitor",
    "random local blocks (roots and parts of trees, all symmetries and triangles, local and cluster numbering), overlaps of 0-25 unknowns with and without row interchanges, 1-8 right-hand sides changing between calls; distinct by structure class",
    flags=STUB,
    require=["solves", "in_place", "out_of_place", "repeated_solves", "dense_solvers", "permuted_solvers", "cluster_numbering_solvers", "overlap_solvers", "empty_overlap_solvers", "pivoting_overlap"])
chk("C25", "c25.cpp", 500, 6000, "GenEO coarse spaces computed for pencils constructed with a known spectrum (residual of every vector, exact number, zero overlap part); coarse operators compared with the dense Galerkin projection of the gathered distributed operator",
    "random pencils (Hermitian and not, real conjugate pairs, infinite eigenvalues, signed spectra, 0-12 overlap unknowns) given as matrices or H-matrices, by number or threshold; distributed operators on 1-4 ranks with 0-6 vectors per rank; distinct by structure class",
    flags=STUB, mpi=True, ranks={"quick": [4], "thorough": [1, 2, 3, 4, 7]}, threads=2, parallel=4, timeout={"quick": 300, "thorough": 3000},
    require=["eigenvectors", "by_threshold", "by_number", "whole_space", "infinite_eigenvalues", "complex_pairs", "from_hmatrix", "coarse_operators", "multi_rank_operators", "ranks_without_vectors"])
chk("C22", "c22.cpp", 200, 2400, "every reported value and exported record compared with the value recomputed from the leaves (or clusters), locally, for matrices of more than 2^32 entries, and reduced over sub-communicators; printed forms parsed",
    "random H-matrices (all symmetries, modes, admissibility) and sub-blocks, random trees in two and three dimensions, uneven and geometric distributions over 1-4 ranks; non-trivial: more than one block; distinct by structure class",
    mpi=True, ranks={"quick": [4], "thorough": [2, 3, 4, 7]}, threads=2, parallel=4, timeout={"quick": 300, "thorough": 3000},
    require=["values", "records", "printed", "informations", "geometry_exports_2d", "geometry_exports_3d", "labels", "reduced", "large_cases", "false_positives"])
chk("C21", "c21.cpp", 1500, 20000, "byte-level comparison monitor over random histories of files written, overwritten and read into objects of every origin; text exports parsed back; standard output captured; allocation balance",
    "histories of 6-14 steps on 3 matrices (default, sized, views of foreign buffers, factored) and 3 files, vectors of int, size_t, real and the scalar type, empty to 1000 entries with infinities, NaN, signed zeros, denormals, missing, unwritable, truncated and forged files, full devices and file size limits; distinct by history prefix",
    require=["matrix_round_trips", "vector_round_trips", "empty_vectors", "empty_matrices", "reads_into_views", "factored_objects", "missing_files", "incomplete_files", "incomplete_writes", "text_exports", "printed_vectors", "balance_scopes"])
chk("C27", "c27.cpp", 6000, 60000, "log monitor over random valid and invalid requests to every entry point with an error branch, judged by an independent validity predicate; model-based monitor over histories of writers, levels and messages with captured standard output",
    "random requests on small problems: builder letters and partition numbers, numbering conversions on root/partition/other nodes with local and non-local permutations, user-numbered extraction, transpositions of symmetric storage, unreachable partitions, spatial dimensions, missing files, factorisations of inconsistent or low-rank matrices, distributed local products; distinct by (request, validity class)",
    mpi=True, ranks={"quick": [2], "thorough": [1, 2, 4]}, threads=2, parallel=4, timeout={"quick": 300, "thorough": 3000}, extra_src=["blas_monitor.cpp", "c27_tu.cpp"],
    require=["invalid_requests", "valid_requests", "messages_recorded", "messages_of_another_unit", "messages_printed", "messages_suppressed", "library_messages", "level_changes"] + ["invalid_" + x for x in ("builder", "consistency-off", "root_cluster_to_global", "local_cluster_to_local", "cluster_to_user", "user_to_cluster", "spatial-dimension", "partition", "read-tree", "copy_to_dense_in_user_numbering", "copy_diagonal", "copy_diagonal_in_user_numbering", "row-major-product", "parallel-row-major-product", "lu", "cholesky", "lowrank-sum", "distributed", "local-operator")])

# the harnesses of the other properties, re-run for C23 with the allocation balance of every case and under memcheck
REUSED = ["c04", "c07", "c09", "c10", "c11", "c13", "c14", "c15", "c16", "c17", "c18", "c21", "c24", "c26", "c28"]
MEMCHECK = ["valgrind", "-q", "--tool=memcheck", "--error-exitcode=78", "--exit-on-first-error=yes", "--num-callers=25", "--fullpath-after=", "--undef-value-errors=yes", "--partial-loads-ok=yes",
            "--suppressions=" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness", "memcheck.supp")]
rot = lambda k: {h + ".cpp": "dzsc"[(i + k) % 4] for i, h in enumerate(["c23"] + REUSED)}
chk("C23", "c23.cpp", 0, 0, "random sequences of calls over a pool of live objects under AddressSanitizer, UndefinedBehaviorSanitizer (with container annotations), the BLAS/LAPACK argument monitor and an allocation balance per sequence; the workloads of the other properties re-run with the allocation balance and under memcheck (uninitialised values)",
    "random sequences of 8-60 steps (assembly incl. refusing compressors, products, arithmetic, factorisations, solves, copies, moves, files, outputs) over up to six H-matrices of 1-90 points, plus cases of the other harnesses on one and several ranks; distinct by sequence",
    stages=[dict(san="asanv", env={"VF_BALANCE": "1"}, cases=dict(quick=1000, thorough=6000)),
            dict(src=[h + ".cpp" for h in REUSED], types_of=rot(1), san="asan", env={"VF_BALANCE": "1"}, cases=dict(quick=80, thorough=1500), flags=STUB, shards=1),
            dict(src=["c23.cpp"] + [h + ".cpp" for h in REUSED], types_of=rot(0), san="plain", wrap=MEMCHECK, env={"VF_SMALL": "1"}, cases=dict(quick=30, thorough=600), flags=STUB, shards=1),
            dict(src=["c19.cpp", "c20.cpp", "c22.cpp", "c25.cpp"], types_of={"c19.cpp": "z", "c20.cpp": "d", "c22.cpp": "s", "c25.cpp": "c"}, mpi=True, ranks={"quick": [3], "thorough": [2, 3, 5]}, env={"VF_BALANCE": "1"}, cases=dict(quick=40, thorough=800), flags=STUB)],
    require=["sequences", "finite_results", "balance_scopes", "allocations_tracked"] + ["step_" + x for x in ("build-refused", "build-zero", "vec", "hh-hier", "lu-solve", "cholesky-solve", "swap", "cluster-file")])
MODEL = ["-I" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness", "hpddm_model")]
chk("C29", "c29.cpp", 700, 8000, "domain decomposition solvers run on a functional model of HPDDM that records everything handed to it (unknowns, neighbours, right-hand sides, operator, local systems, coarse space) and solves; each is compared with the gathered operator, and the returned solution with its residual",
    "random distributed operators and subdomain descriptions (arbitrary numbering, overlaps from none to everything, arbitrary neighbour order) x six constructors x preconditioners x 1-5 right-hand sides x coarse spaces; distinct by structure class",
    flags=MODEL, mpi=True, ranks={"quick": [4], "thorough": [1, 2, 3, 4, 6]}, threads=2, parallel=4, timeout={"quick": 300, "thorough": 3000},
    require=["solves", "solves_multi", "operator_products", "operator_products_multi", "local_solves", "coarse_spaces", "shared_unknowns", "overlapping", "method_none", "method_asm", "method_ras", "refused_upper"] + ["kind_" + k for k in ("dense", "dense-adding", "dense-overlap", "hmatrix", "hmatrix-adding", "hmatrix-overlap")])
chk("C30", "c30.cpp", 300, 4000, "one program holding three builds of the library (OpenMP, without OpenMP, Python interface) run on the same problems; bitwise comparison of trees, matrices, products and factorisations; spies on the thread of every call of user code",
    "random problems (all symmetries, modes, compressors, dense-block generators) x threads; the reference is the OpenMP build with one thread; distinct by problem and thread count; non-trivial: more than one leaf",
    typed_extra=[("c30_seq.cpp", ["-fno-openmp"]), ("c30_py.cpp", [])], require=["without_openmp", "python_interface", "results_compared", "user_calls_observed", "with_lowrank", "factorised", "openmp_user_code_on_several_threads"])
