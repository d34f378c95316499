#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (development aid; the .jsonl is what counts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=["include/htool/"+f for f in files],mechanism=[dict(name=a,where="include/htool/"+b) for a,b in mech],
      state=[dict(name=a,meaning=b,where="include/htool/"+c) for a,b,c in (state or [])],observe_at=observe or [],hook_needed=hook))
    assert len(title)<=80,(id,title)
    P.append(d)
CL="clustering/"; HM="hmatrix/"; HL="hmatrix/linalg/"; LR="hmatrix/lrmat/"; LL="hmatrix/lrmat/linalg/"; ML="matrix/linalg/"; DO="distributed_operator/"; LO="local_operators/"

p("C01","Every cluster tree is an exact hierarchical partition of the points",
 "For any point set and builder options, the permutation of the returned cluster tree is a bijection of the point indices, the root covers all of them and the children of every node tile the node's index range exactly, in order, without overlap, gap or empty child. "
 "The tree exposes exactly the requested number of partition clusters, ordered by rank, tiling the whole range; every node at or below partition level carries the rank of the partition cluster containing it and no node above carries a rank. "
 "Depths increase by one from parent to child, the reported minimal and maximal depths are those of the leaves, (depth, number-in-level) identifies a node, and regular splitting never produces a non-partition leaf smaller than the requested minimum size nor keeps a splittable node unsplit.",
 ["inputs","configurations"],"All 2-D/3-D point sets (random, collinear, duplicated, negative, clustered, tiny), all numbers of children >=2, partition sizes, minimum cluster sizes, direction and splitting strategies, optional radii/weights/user partitions.",
 "The tests build a handful of disk geometries with one size per strategy and never look at degenerate point sets, non-power partition sizes with several child counts, or the rank/numbering invariants of every node.",
 [CL+"tree_builder/recursive_build.hpp",CL+"tree_builder/splitting.hpp",CL+"tree_builder/direction_computation.hpp",CL+"cluster_node.hpp","basic_types/tree.hpp"],
 [("recursive splitting and numbering",CL+"tree_builder/recursive_build.hpp:create_cluster_tree"),("regular/geometric split",CL+"tree_builder/splitting.hpp"),("principal direction",CL+"tree_builder/direction_computation.hpp")],
 [("permutation","cluster numbering to user numbering",CL+"cluster_tree_data.hpp"),("clusters_on_partition","rank-indexed views of partition clusters",CL+"cluster_tree_data.hpp")],
 ["Cluster getters","get_children","get_clusters_on_partition","get_permutation"])
p("C02","Cluster centre and radius describe a ball enclosing all of the cluster's points",
 "For every node of any cluster tree, the reported centre is the weighted mean of the points it contains (weights default to one) and the reported radius is the largest distance from that centre to a contained point plus that point's own radius. "
 "Consequently every contained point's ball lies in the node's ball, and sub-clusters produced by a split are ordered along one direction of space, so that the admissibility test based on those balls is a valid separation test.",
 ["inputs","configurations"],"All point sets, radii and weights vectors, dimensions 2 and 3, float and double coordinates, all strategies, all nodes of the tree.",
 "No test passes radii or weights, and centres/radii are only compared between a tree and its reloaded copy, never with the points.",
 [CL+"tree_builder/recursive_build.hpp",CL+"tree_builder/direction_computation.hpp",CL+"tree_builder/splitting.hpp"],
 [("compute_center / compute_radius",CL+"tree_builder/recursive_build.hpp"),("sort along direction",CL+"tree_builder/recursive_build.hpp"),("covariance / bounding box direction",CL+"tree_builder/direction_computation.hpp")],
 [("radius, center","bounding ball of a node",CL+"cluster_node.hpp")],["Cluster::get_center","Cluster::get_radius"])
p("C03","User partitions are respected and numbering conversions are exact inverses",
 "When the caller supplies a partition as contiguous (offset,size) ranges, each partition cluster is exactly the given range, keeps its points inside that range (the permutation is local) and the tree says so; otherwise the tree never claims a local permutation. "
 "All conversions between user and cluster numbering, global or restricted to one partition, move each entry to the position given by the permutation, and converting back returns the original vector bit for bit without touching other memory.",
 ["inputs","configurations"],"All partitions of [0,n) in contiguous pieces (uneven, single-point pieces), all trees, element types int/float/double/complex, all partition indices, in root, local and per-cluster conversion helpers and the file-free distributed-operator conversions.",
 "Tests round-trip one iota vector on a few geometries with even partitions only, and a round trip alone cannot see an inverted permutation.",
 [CL+"cluster_node.hpp",CL+"tree_builder/recursive_build.hpp"],
 [("numbering helpers",CL+"cluster_node.hpp: global_to_root_cluster .. user_to_cluster"),("given-partition branch",CL+"tree_builder/recursive_build.hpp")],
 [("permutation","cluster to user",CL+"cluster_tree_data.hpp")],["numbering helper outputs"])
p("C04","A saved cluster tree reloads as the same tree",
 "Saving any cluster tree and reading the files back yields a tree with identical structure: same permutation, offsets, sizes, ranks, depths, per-level numbering, child order, partition clusters and tree-wide metadata (minimal/maximal depth, minimum size, local-permutation flag). "
 "Centres and radii agree to the printed precision, and the reloaded tree can be used wherever the original can: an H-matrix assembled on it has the same block structure up to admissibility decisions within that precision and equal entries.",
 ["inputs","histories"],"All cluster trees the builder can produce, for double and float, any partition size (non powers, user-given), repeated save/load cycles.",
 "One test reloads trees with two strategies; it never exercises user partitions, unbalanced trees, several cycles, or use of the reloaded tree for assembly.",
 [CL+"cluster_output.hpp","misc/user.hpp"],
 [("save_cluster_tree",CL+"cluster_output.hpp"),("read_cluster_tree",CL+"cluster_output.hpp")],
 [("csv files","level-by-level node records and properties",CL+"cluster_output.hpp")],["save_cluster_tree/read_cluster_tree on a scratch directory"])
p("C05","The H-matrix block structure covers every matrix entry exactly once",
 "The leaf blocks of any assembled H-matrix, together with the mirrored off-diagonal leaves when a symmetry is declared, cover each (row, column) pair of its target-by-source index set exactly once; children of a block partition the parent's part of that set. "
 "With a declared symmetry only blocks meeting the declared triangle are stored, and with a target partition number the matrix consists exactly of that partition's rows; every leaf holds exactly one of dense data or a low-rank pair with the dimensions of its clusters.",
 ["inputs","configurations"],"All cluster tree pairs (same/different, square/rectangular, unbalanced), eta, epsilon, symmetry N/S/H with L/U, target partition numbers, partition numbers for symmetry, consistent and inconsistent block trees, minimal depths, required ranks.",
 "Tests only compare norms of full products against a tolerance on fixed disk geometries, so an entry lost or duplicated below the tolerance, or in a configuration not sampled, is invisible.",
 [HM+"tree_builder/tree_builder.hpp",HM+"hmatrix.hpp"],
 [("build_block_tree",HM+"tree_builder/tree_builder.hpp"),("is_removed_by_symmetry",HM+"tree_builder/tree_builder.hpp"),("reset_root_of_block_tree",HM+"tree_builder/tree_builder.hpp"),("get_leaves_from",HM+"hmatrix.hpp")],
 [("children / storage type","block tree",HM+"hmatrix.hpp")],["HMatrix::get_children","get_leaves_from"])
p("C06","Low-rank blocks appear only where admissible and within the requested depths",
 "Every block stored in low-rank form satisfies the admissibility condition in force (by default: minimum cluster radius times two is below eta times the distance between balls) and the requested minimal target/source depths, and lies inside the partition level in a consistent block tree. "
 "Conversely a block satisfying all of these is not subdivided further, and is stored dense only if compression did not pay off, which the reported number of false positives counts exactly; user-supplied admissibility conditions are the ones consulted, with the configured eta.",
 ["inputs","configurations"],"All trees, eta values including very small and very large, custom admissibility conditions, minimal depths, consistency flag, symmetries and partition restrictions.",
 "Minimal depths are never set in the tests, only eta=10 and one custom never-admissible condition are exercised, and no test inspects which blocks became low-rank.",
 [HM+"tree_builder/tree_builder.hpp",HM+"interfaces/virtual_admissibility_condition.hpp"],
 [("admissibility decision",HM+"tree_builder/tree_builder.hpp:build_block_tree"),("RjasanowSteinbach",HM+"interfaces/virtual_admissibility_condition.hpp"),("false positive accounting",HM+"tree_builder/tree_builder.hpp:compute_blocks")],
 [("m_false_positive","admissible blocks stored dense",HM+"tree_builder/tree_builder.hpp")],["leaves, their clusters' depth/rank/ball","recorded calls of the condition","Number_of_false_positive"])
p("C07","Assembly queries the user's kernel only in range and in user numbering",
 "During assembly and compression every request made to a user coefficient generator is for row and column indices in range, in the numbering that generator interface promises (user numbering for the public one, cluster numbering for the internal one), with a writable buffer of the requested size. "
 "Dense leaves hold exactly the generator's values; a user dense-block generator receives each non-admissible leaf exactly once, with its sizes and offsets, and what it writes is what is stored; user low-rank generators are used for every admissible block with the configured tolerance and rank.",
 ["inputs","configurations"],"All geometries, compressors, symmetries, partitions, thread counts, generators through either interface, with and without dense-block generators.",
 "Test generators tolerate any in-memory index and accept any request order; nothing records the requests or checks the buffers.",
 [HM+"interfaces/virtual_generator.hpp",HM+"tree_builder/tree_builder.hpp",LR+"partialACA.hpp",LR+"sympartialACA.hpp",LR+"fullACA.hpp",LR+"SVD.hpp",HM+"interfaces/virtual_dense_blocks_generator.hpp"],
 [("InternalGeneratorWithPermutation",HM+"interfaces/virtual_generator.hpp"),("compute_blocks",HM+"tree_builder/tree_builder.hpp"),("row/column requests in ACA",LR+"partialACA.hpp")],
 [("permutation pointers","index translation",HM+"interfaces/virtual_generator.hpp")],["recording generator (calls, indices, pointer, size)","dense leaf data"])
p("C08","An assembled H-matrix approximates the kernel matrix to the requested epsilon",
 "For asymptotically smooth kernels on distinct points, every low-rank block of an assembled H-matrix approximates the exact kernel block with relative Frobenius error controlled by the requested epsilon, and all other blocks are exact, so that the whole matrix satisfies the same bound. "
 "Decreasing epsilon never loses accuracy, and scaling the kernel by a constant scales the approximation without changing its relative accuracy.",
 ["inputs","configurations"],"Geometries (2-D/3-D, separated, overlapping, degenerate), smooth kernels (Laplace, Helmholtz with moderate frequency, log, exponential), scalings, epsilon from 1e-1 to 1e-12, all bundled compressors, symmetric and unsymmetric, float and double, real and complex.",
 "Tests use one regularised kernel on two disks and three epsilons for whole-matrix products; block-level errors and scaling are never checked.",
 [LR+"partialACA.hpp",LR+"sympartialACA.hpp",LR+"fullACA.hpp",LR+"SVD.hpp",HM+"tree_builder/tree_builder.hpp",HM+"hmatrix.hpp"],
 [("stopping criterion",LR+"sympartialACA.hpp"),("stopping criterion",LR+"partialACA.hpp"),("truncation","matrix/utils/SVD_truncation.hpp")],
 [("U,V","low-rank factors",LR+"lrmat.hpp")],["leaf U*V vs directly evaluated kernel"])
p("C09","Low-rank compressors honour the requested rank or tolerance",
 "Given a block and a tolerance, each bundled compressor (SVD, full ACA, partial ACA, symmetric partial ACA) returns factors of matching dimensions whose product approximates the block within a small multiple of that tolerance for smooth blocks, and SVD and full ACA do so for every block when they accept it; SVD returns the smallest rank for that tolerance. "
 "Given a required rank, at most that many terms are returned and the rank reported is the number of columns of U and rows of V; exactly low-rank blocks are reproduced to rounding, and a block for which compression does not pay is refused rather than returned badly approximated.",
 ["inputs","configurations"],"Blocks of any shape (single row/column, tall, wide), any scaling, exact-rank, zero, smooth and random blocks, all tolerances and required ranks, four scalar types.",
 "Tests compress one disk-to-disk block per case with three fixed ranks; zero, rank-deficient, 1xn and badly scaled blocks never occur.",
 [LR+"SVD.hpp",LR+"fullACA.hpp",LR+"partialACA.hpp",LR+"sympartialACA.hpp",LR+"lrmat.hpp","matrix/utils/SVD_truncation.hpp"],
 [("SVD::copy_low_rank_approximation",LR+"SVD.hpp"),("ACA loops",LR+"partialACA.hpp"),("SVD_truncation","matrix/utils/SVD_truncation.hpp")],
 [("U,V,rank","factors",LR+"lrmat.hpp")],["LowRankMatrix::get_U/get_V/rank_of","compressor return value"])
p("C10","H-matrix by vector products equal the product with the represented matrix",
 "For any H-matrix (of any symmetry, storage mix and shape) with represented dense matrix M, vector products compute y = alpha*op(M)*x + beta*y for op = none, transpose or conjugate transpose and all scalars, to rounding, through the sequential and the parallel entry points alike. "
 "With beta = 0 previous finite contents of y do not influence the result, x is never modified and nothing outside y is written; combinations that are not supported are reported rather than answered wrongly.",
 ["inputs","configurations"],"All H-matrices the builder can produce including symmetric/Hermitian with either triangle, partition-restricted, zero-rank blocks, products results and recompressed ones; all ops, alpha, beta incl. 0 and complex.",
 "Tests use random alpha/beta on fixed geometries at the tolerance of the compression, so errors below epsilon or in particular leaf configurations (rank-zero blocks, diagonal leaves, single leaf) are invisible.",
 [HL+"add_hmatrix_vector_product.hpp",LL+"add_lrmat_vector_product.hpp",ML+"add_matrix_vector_product.hpp",HM+"hmatrix.hpp"],
 [("openmp/sequential products",HL+"add_hmatrix_vector_product.hpp"),("mirrored leaves",HM+"hmatrix.hpp:get_leaves_from")],
 [("leaves_for_symmetry","leaves applied twice",HM+"hmatrix.hpp")],["y after the call vs independent densification"])
p("C11","H-matrix by multi-vector products equal column-by-column products",
 "For any H-matrix M and any dense block of right-hand sides, in column-major or row-major layout, the multi-vector products compute alpha*op(M)*X + beta*Y for every column exactly as the product with the represented matrix would, to rounding, for left and right multiplication and every supported transposition of either operand. "
 "The result does not depend on how many right-hand sides are passed together (including one), on the entry point used, or on other columns.",
 ["inputs","configurations"],"All H-matrices as in C10, 1 to many right-hand sides, both layouts, all transpositions, alpha/beta, four scalar types.",
 "Tests fix 10 right-hand sides, compare at compression tolerance, and leave single-column, rank-zero and layout-specific paths unsampled.",
 [HL+"add_hmatrix_matrix_product.hpp",HL+"add_hmatrix_matrix_product_row_major.hpp",HL+"add_matrix_hmatrix_product.hpp",LL+"add_lrmat_matrix_product_row_major.hpp",ML+"add_matrix_matrix_product_row_major.hpp"],
 [("row-major kernels",HL+"add_hmatrix_matrix_product_row_major.hpp"),("column-major kernels",HL+"add_hmatrix_matrix_product.hpp"),("dense times hierarchical",HL+"add_matrix_hmatrix_product.hpp")],
 None,["Y after the call vs independent densification"])
p("C12","Shared-memory parallelism: no data race and schedule-independent results",
 "For every thread count and every scheduling of the parallel regions, assembly produces the same block structure and block contents as a single-threaded run, and products and scaling produce the same result up to the rounding of reordered sums. "
 "No parallel region contains an unsynchronised conflicting access, each leaf is processed exactly once, and user generators are the only user code called concurrently: admissibility conditions, dense-block generators and log writers are called by one thread at a time. Different threads of the caller may at the same time read shared objects or work on objects of their own.",
 ["schedules","inputs"],"Thread counts 1 to many (more threads than leaves included), arbitrary chunk assignment, delays and interleavings of worker threads, all assembly and product modes, symmetric and unsymmetric.",
 "Tests run with the default OpenMP schedule, two threads and a tolerance, under which a lost or duplicated update that needs a particular interleaving does not show.",
 [HM+"tree_builder/tree_builder.hpp",HL+"add_hmatrix_vector_product.hpp",HL+"add_hmatrix_matrix_product_row_major.hpp",HL+"scale.hpp"],
 [("parallel regions with private accumulators and critical reduction",HL+"add_hmatrix_vector_product.hpp"),("parallel assembly",HM+"tree_builder/tree_builder.hpp:compute_blocks"),("parallel scaling",HL+"scale.hpp")],
 [("temp per-thread accumulators","partial results",HL+"add_hmatrix_vector_product.hpp")],["ThreadSanitizer reports","results per schedule","generator call log per thread"])
p("C13","Mixed products of hierarchical, low-rank and dense matrices are correct",
 "For operands and result each stored as hierarchical, low-rank or dense, the matrix products compute C = alpha*op(A)*op(B) + beta*C of the represented matrices: exactly to rounding when the result is dense, and within a small multiple of the configured epsilon when the result is low-rank or hierarchical. "
 "Operands are not modified, and the block structure of a hierarchical result still covers its index set exactly once with consistent block dimensions.",
 ["inputs","configurations"],"All storage combinations on compatible cluster trees, nested and partially refined structures, transpositions, alpha/beta, epsilon; the documented support is for operands in full (not symmetric) storage.",
 "Tests fix one eta and tolerances as loose as the compression; the many recursion cases (leaf vs refined operand, rank-zero, small blocks) are sampled once.",
 [HL+"add_hmatrix_hmatrix_product.hpp",HL+"add_hmatrix_lrmat_product.hpp",HL+"add_lrmat_hmatrix_product.hpp",HL+"add_lrmat_hmatrix.hpp",HL+"add_hmatrix_matrix_product.hpp",HL+"add_matrix_hmatrix_product.hpp",HL+"scale.hpp"],
 [("recursive product",HL+"add_hmatrix_hmatrix_product.hpp"),("low-rank update of a hierarchical matrix",HL+"add_lrmat_hmatrix.hpp")],
 None,["result densified vs dense reference"])
p("C14","Low-rank arithmetic and recompression preserve the represented matrix",
 "Products, sums, scalings and densification involving low-rank matrices agree with the same dense operation: exactly to rounding when nothing is truncated, and within a small multiple of the low-rank matrix's epsilon otherwise, for every transposition, alpha and beta. "
 "Recompression never increases the rank, never changes the represented matrix by more than the tolerance, and formatted sums keep rank times (rows+columns) meaningful by truncating redundant directions; operands are left unchanged.",
 ["inputs","configurations"],"Low-rank matrices of any rank including zero and full, redundant or badly scaled factors, all shapes incl. one row/column, chained updates, all transpositions and scalars, four scalar types.",
 "Tests use ranks coming out of one ACA run; rank zero, redundant factors and chained updates do not occur.",
 [LL+"add_lrmat_lrmat.hpp",LL+"add_lrmat_lrmat_product.hpp",LL+"add_lrmat_matrix_product.hpp",LL+"add_lrmat_matrix_product_row_major.hpp",LL+"add_lrmat_vector_product.hpp",LL+"add_matrix_lrmat_product.hpp",LL+"add_matrix_matrix_product.hpp",LL+"scale.hpp",LR+"utils/recompression.hpp",LR+"lrmat.hpp"],
 [("formatted addition",LL+"add_lrmat_lrmat.hpp"),("QR/SVD recompression",LR+"utils/recompression.hpp")],
 [("U,V","factors",LR+"lrmat.hpp")],["densified result vs dense reference","rank_of"])
p("C15","H-matrix LU and Cholesky factorisations solve the represented system",
 "For a well-conditioned H-matrix, factorising it in place (LU, or Cholesky from either triangle for Hermitian positive definite ones) and solving with one or many right-hand sides in user numbering gives the solution of the represented dense system up to a small multiple of epsilon times the condition number, for the plain, transposed and conjugate-transposed systems. "
 "The accuracy improves with epsilon, the product of the computed factors reproduces the matrix to the same tolerance, and the solve leaves the factors unchanged.",
 ["inputs","configurations"],"Diagonally dominant or positive definite kernel matrices on any consistent cluster tree, epsilon, eta, compressors, recompression on/off, number of right-hand sides, symmetric storage U/L, LU of symmetric and unsymmetric matrices, four scalar types, partition depth.",
 "Tests solve one geometry with tolerance tied to epsilon; deep or unbalanced trees, single right-hand sides, tiny matrices and repeated solves are not sampled.",
 [HL+"factorization.hpp",HL+"triangular_hmatrix_hmatrix_solve.hpp",HL+"triangular_hmatrix_lrmat_solve.hpp",HL+"triangular_hmatrix_matrix_solve.hpp",HL+"add_hmatrix_hmatrix_product.hpp"],
 [("block LU / Cholesky recursion",HL+"factorization.hpp"),("solve with permutation",HL+"factorization.hpp:lu_solve")],
 None,["solution vs dense solve, residual","factors"])
p("C16","Triangular H-matrix solves invert the represented triangle",
 "A triangular solve with an H-matrix, for left or right side, lower or upper part, unit or non-unit diagonal, with or without (conjugate) transposition, applied to a dense, low-rank or hierarchical right-hand side, returns X with op(T)*X = alpha*B (or X*op(T) = alpha*B) where T is the designated triangle of the represented matrix. "
 "Only the designated triangle is read, so the entries of the opposite triangle do not influence the result, and the H-matrix is not modified.",
 ["inputs","configurations"],"All sides, triangles, diagonal types, ops, alpha, right-hand-side storages and widths, square H-matrices on any tree, four scalar types.",
 "Tests cover one matrix per case with correlated triangles and fixed right-hand-side counts.",
 [HL+"triangular_hmatrix_matrix_solve.hpp",HL+"triangular_hmatrix_hmatrix_solve.hpp",HL+"triangular_hmatrix_lrmat_solve.hpp",ML+"factorization.hpp"],
 [("recursive substitution",HL+"triangular_hmatrix_matrix_solve.hpp"),("hierarchical right-hand side",HL+"triangular_hmatrix_hmatrix_solve.hpp")],
 None,["X vs dense triangular solve"])
p("C17","Dense kernels agree with textbook definitions for every argument combination",
 "Dense matrix-vector, matrix-matrix (column- and row-major, plain, symmetric, Hermitian), triangular-solve, LU, Cholesky, SVD-truncation, transpose, scale, norm and argmax routines compute what their mathematical definition says for every transposition, side, triangle, alpha and beta and every shape including vectors and single entries, to rounding. "
 "Inputs declared constant are not modified and leading dimensions passed to the linear algebra backend are always consistent with the buffers.",
 ["inputs","configurations"],"All shapes from 1 up (rectangular included), all op/side/UPLO/diag combinations, scalars incl. 0, four scalar types.",
 "Tests use a single shape per routine with equal dimensions often hiding swapped sizes; alpha/beta special cases are not covered.",
 ["matrix/matrix.hpp",ML+"add_matrix_matrix_product.hpp",ML+"add_matrix_matrix_product_row_major.hpp",ML+"add_matrix_vector_product.hpp",ML+"factorization.hpp",ML+"scale.hpp",ML+"transpose.hpp","matrix/utils/SVD_truncation.hpp","wrappers/wrapper_blas.hpp","wrappers/wrapper_lapack.hpp"],
 [("BLAS/LAPACK argument marshalling",ML+"add_matrix_matrix_product.hpp"),("LU/Cholesky",ML+"factorization.hpp"),("truncation","matrix/utils/SVD_truncation.hpp")],
 None,["outputs vs long-double reference","BLAS calls intercepted at link level"])
p("C18","Copies are independent equal values; moves transfer; const inputs stay constant",
 "A copy-constructed or copy-assigned dense, low-rank or hierarchical matrix (with clusters that stay alive) represents the same matrix as its source, behaves identically in every operation (products, transposed products, information, factorisation), and shares no state: mutating or destroying one never affects the other. "
 "Moved-to objects behave as the source did, moved-from and assigned-over objects can be destroyed or reassigned safely, and operations do not modify arguments they take as constant.",
 ["histories","inputs"],"All sequences of construct, copy, assign, move, self-assign, resize, assign external buffer, mutate, operate, destroy on objects of any size, storage and symmetry.",
 "Tests copy a matrix once or twice and compare data; behaviour of the copy in later operations and ownership histories are not exercised.",
 ["matrix/matrix.hpp",LR+"lrmat.hpp",HM+"hmatrix.hpp","basic_types/tree.hpp"],
 [("special members of dense matrix","matrix/matrix.hpp"),("deep copy of H-matrix",HM+"hmatrix.hpp"),("ownership flag","matrix/matrix.hpp:m_is_owning_data")],
 [("m_is_owning_data","who frees the buffer","matrix/matrix.hpp"),("symmetry for leaves","how mirrored leaves are applied",HM+"hmatrix.hpp")],["operation results on copies","AddressSanitizer, allocation balance"])
p("C19","Distributed products equal the global operator's product for any number of ranks",
 "For every number of MPI processes and every partition of rows and columns, the distributed operator's vector and multi-vector products, plain or transposed, global-to-global or local-to-local, equal the same product with the global matrix the local blocks approximate, up to the compression tolerance, on every rank. "
 "The result is the same on all ranks, independent of the number of ranks up to tolerance, of previous calls and of previous output contents, and honours the symmetry declared; local vectors follow each rank's own partition and sizes, even when pieces are uneven.",
 ["inputs","configurations","histories"],"1 to N ranks, uneven partitions (user-given or geometric), same or different source/target trees, symmetry N/S/H with L/U, with or without user-numbering permutation, 1 to many right-hand sides, sequences of mixed calls.",
 "Tests run on at most 4 ranks with even partitions and a fixed sequence of first-time calls into zeroed buffers.",
 [DO+"distributed_operator.hpp",DO+"utility.hpp",DO+"implementations/partition_from_cluster.hpp",DO+"interfaces/partition.hpp","wrappers/wrapper_mpi.hpp",HM+"hmatrix_distributed_output.hpp"],
 [("halo-free gather/reduce products",DO+"distributed_operator.hpp"),("partition bookkeeping",DO+"implementations/partition_from_cluster.hpp")],
 [("local operators","per-rank blocks",DO+"distributed_operator.hpp")],["outputs on every rank vs dense reference"])
p("C20","A distributed operator is the sum of its bundled or user-defined local operators",
 "Products with a distributed operator to which several local operators were added equal the sum of the products with each of them, whether they are H-matrices, dense matrices or user-defined operators, and whether they cover the rank's rows for all columns or only a block of columns. "
 "User-defined local operators receive input and output in the numbering they declared, restricted to their own ranges, in plain, transposed, vector and multi-vector products.",
 ["inputs","configurations","programs"],"Any list of local operators (dense, hierarchical, user-defined) on the rank's rows with full or diagonal-block columns, any numbering flags, symmetry and number of right-hand sides, any rank count.",
 "Tests add at most one extra operator with one configuration; sums of several with transposed products and numbering flags are not sampled.",
 [LO+"local_operator.hpp",LO+"local_hmatrix.hpp",LO+"local_dense_matrix.hpp",LO+"virtual_local_operator.hpp",DO+"distributed_operator.hpp",DO+"utility.hpp"],
 [("offset/permutation adaptation",LO+"local_operator.hpp"),("accumulation over local operators",DO+"distributed_operator.hpp")],
 None,["outputs vs sum of dense references","arguments seen by a recording user operator"])
p("C21","Matrices and vectors survive file and byte round trips",
 "Writing a dense matrix or a vector to bytes and reading it back returns the same dimensions and bit-identical entries for all supported scalar types, any shape and any finite or special values; reading into an object that already holds other data replaces it completely. "
 "Text exports contain every entry in row order at the advertised separator, and a file that cannot be opened, completely read or completely written is reported as failure, leaving the object it was to be read into as it was.",
 ["inputs","histories"],"All shapes (0 and 1 included where constructible), all scalar types, special values, targets of any previous size, missing, truncated and forged files, full devices and size limits.",
 "Tests write and read one matrix and one vector per type into empty objects.",
 ["matrix/matrix.hpp","basic_types/vector.hpp","misc/user.hpp"],
 [("matrix_to_bytes/bytes_to_matrix","matrix/matrix.hpp"),("vector_to_bytes/bytes_to_vector","basic_types/vector.hpp")],
 None,["files in a scratch directory"])
p("C22","Reported information and exported block lists match the actual structure",
 "The tree parameters, information strings, compression and space-saving ratios, block counts, rank and size extrema reported for an H-matrix equal the values recomputed from its leaves, locally and reduced over MPI ranks. "
 "Saved leaf lists and clustered-geometry exports contain exactly one record per leaf (or point) with its true offset, size, rank or partition label, in any number of dimensions and partitions.",
 ["inputs","configurations"],"All H-matrices (all-dense, all-low-rank, rank-zero blocks, symmetric, partition-restricted), any number of ranks.",
 "Tests print the information or check that it is non-empty; none recomputes it.",
 [HM+"hmatrix_output.hpp",HM+"hmatrix_distributed_output.hpp",CL+"cluster_output.hpp","misc/user.hpp"],
 [("get_hmatrix_information",HM+"hmatrix_output.hpp"),("distributed reduction",HM+"hmatrix_distributed_output.hpp"),("save_leaves_with_rank",HM+"hmatrix_output.hpp"),("save_clustered_geometry",CL+"cluster_output.hpp")],
 None,["returned maps/streams/files vs leaves"])
p("C23","No memory error, undefined behaviour or leak in any supported workflow",
 "No sequence of supported public calls — clustering, assembly, products, arithmetic, factorisation, solves, copies, I/O, distributed products — reads or writes outside an object, uses freed or uninitialised memory, performs an undefined operation or passes inconsistent sizes to the linear algebra backend. "
 "Everything allocated is released when the objects are destroyed, including on compression failure and on repeated reuse of builders and matrices.",
 ["inputs","histories","configurations"],"Random end-to-end call sequences over small and degenerate problems (one point, one-point partitions, equal points, zero kernels, rank-zero blocks), all scalar types, several ranks.",
 "The tests run without sanitizers on comfortable sizes; an out-of-bounds read or a leak leaves their results unchanged.",
 ["matrix/matrix.hpp",HM+"hmatrix.hpp",LR+"lrmat.hpp",HM+"tree_builder/tree_builder.hpp",CL+"tree_builder/splitting.hpp",LO+"local_operator.hpp","basic_types/vector.hpp"],
 [("owning buffers","matrix/matrix.hpp"),("unique_ptr trees","basic_types/tree.hpp"),("pointer arithmetic on offsets",HL+"add_hmatrix_vector_product.hpp")],
 None,["AddressSanitizer/UBSan/valgrind reports","allocation hooks","intercepted BLAS/LAPACK calls"])
p("C24","Subdomain solvers solve exactly the subdomain matrix they were given",
 "The dense, hierarchical and hierarchical-with-overlap subdomain solvers return, for one or many right-hand sides and for repeated calls in any order, the solution of the represented local system (diagonal block plus overlap coupling) up to the compression tolerance times conditioning. "
 "They handle unsymmetric, symmetric and Hermitian positive definite storage with either triangle identically, and permute to and from the local numbering consistently.",
 ["inputs","histories","configurations"],"Local problems of any size with any overlap (zero included), symmetry N/S/H and L/U storage, any number of right-hand sides changing between calls.",
 "Tests need HPDDM (absent here) and only monitor convergence of an outer iteration, which hides an inexact local solve.",
 ["solvers/local_solvers/local_dense_solvers.hpp","solvers/local_solvers/local_hmatrix_solvers.hpp","solvers/local_solvers/local_hmatrix_plus_overlap_solvers.hpp","solvers/interfaces/virtual_local_solver.hpp"],
 [("Schur complement on the overlap","solvers/local_solvers/local_hmatrix_plus_overlap_solvers.hpp"),("permuted H-matrix solve","solvers/local_solvers/local_hmatrix_solvers.hpp")],
 [("mutable work buffer","right-hand sides in cluster numbering","solvers/local_solvers/local_hmatrix_solvers.hpp")],["solve outputs vs dense reference"])
p("C25","GenEO coarse spaces hold the required eigenvectors; coarse operators are exact",
 "The GenEO coarse space built from a local matrix and a weighted counterpart consists of eigenvectors of the local generalised eigenproblem belonging to the dominant eigenvalues: exactly the requested number, or exactly those beyond the requested threshold. "
 "The assembled coarse matrix equals the Galerkin projection of the global operator on the gathered coarse vectors, whatever the number of coarse vectors per rank, the overlap sizes and the number of ranks (in the library's storage order: for operators that are not Hermitian, the projection or its transpose).",
 ["inputs","configurations"],"Local sizes, overlap, symmetric/unsymmetric local matrices, number of eigenvectors or threshold, different counts per rank, 1 to N ranks.",
 "Tests need HPDDM (absent here) and observe only iteration counts, which tolerate a wrong or incomplete coarse space.",
 ["solvers/geneo/coarse_space_builder.hpp","solvers/geneo/coarse_operator_builder.hpp","misc/evp.hpp"],
 [("generalised eigenproblem","solvers/geneo/coarse_space_builder.hpp"),("ZtAZ assembly","solvers/geneo/coarse_operator_builder.hpp"),("eigenvalue ordering","misc/evp.hpp")],
 None,["returned coarse space","coarse matrix on rank 0"])
p("C26","Diagonal extraction and densification return the represented entries",
 "Extracting the diagonal or densifying an H-matrix, in cluster or user numbering, returns exactly the entries its blocks represent, at the position given by the numbering: for user numbering the full matrix including the mirrored triangle of symmetric and Hermitian storage, for root and for local (partition) H-matrices. "
 "Sub-blocks obtained by cluster look-up densify to the corresponding sub-matrix of the whole, and leaf lists obtained from any node list precisely its leaves and those to be mirrored.",
 ["inputs","configurations"],"All H-matrices incl. low-rank diagonal blocks, rank-zero blocks, symmetric storage, partition-restricted ones with local permutation, all nodes of the block tree.",
 "Tests use the densification as their own oracle and extract diagonals from matrices with dense diagonal blocks only.",
 [HM+"hmatrix.hpp",LR+"lrmat.hpp"],
 [("copy_to_dense*",HM+"hmatrix.hpp"),("copy_diagonal*",HM+"hmatrix.hpp"),("get_sub_hmatrix",HM+"hmatrix.hpp")],
 None,["returned arrays vs independent leaf walk and generator"])
p("C27","Invalid or unsupported requests are reported as errors, valid ones never are",
 "A request the library documents as invalid or unsupported (inconsistent symmetry/triangle arguments, partition numbers out of range, numbering conversion on a non-local permutation, unsupported transposition of symmetric storage, impossible partition) produces a message at error level through the configured log writer. "
 "Valid requests produce no error-level message whatever the inputs, every message reaches the writer in use at that moment with its level, and the default writer prints a message exactly when its level is at most the configured one.",
 ["inputs","histories"],"All valid and invalid argument combinations of the public entry points, any sequence of writer and level changes.",
 "Error branches are excluded from coverage in the tests and the absence of spurious errors is never asserted.",
 ["misc/logger.hpp",HM+"tree_builder/tree_builder.hpp",HL+"add_hmatrix_vector_product.hpp",HM+"hmatrix.hpp",CL+"cluster_node.hpp",CL+"tree_builder/recursive_build.hpp"],
 [("Logger","misc/logger.hpp"),("argument validation",HM+"tree_builder/tree_builder.hpp")],
 [("current writer and level","where messages go","misc/logger.hpp")],["recording log writer","captured standard output"])
p("C28","Builders and operations are reusable: same inputs, same results, no carry-over",
 "Building again from the same builder, or from a fresh one with the same inputs, yields an equal cluster tree or H-matrix, with equal reported information, and does not alter objects built before; objects stay valid after their builder is destroyed. "
 "Interleaving work on several matrices, trees, operators or scalar types never changes the result of any of them, and repeated products with unchanged arguments give the same answer.",
 ["histories","inputs"],"All sequences of builds and operations on interleaved objects with reuse of builders, generators and buffers.",
 "Every test builds once per object in a fresh builder.",
 [HM+"tree_builder/tree_builder.hpp",CL+"tree_builder/recursive_build.hpp",LR+"lrmat.hpp",DO+"distributed_operator.hpp"],
 [("task lists and counters of the builder",HM+"tree_builder/tree_builder.hpp"),("strategy objects shared by builders",CL+"tree_builder/recursive_build.hpp")],
 [("m_admissible_tasks, m_dense_tasks, m_false_positive","builder-held mutable state",HM+"tree_builder/tree_builder.hpp")],["structure and contents digests over build histories"])
p("C29","DDM solvers set up the right problem and return its solution, user numbered",
 "For a distributed operator and overlapping subdomains described by the caller (any numbering, neighbours and overlaps, possibly none), every DDM solver (dense or hierarchical local solves, with the overlap absent, added, or built in): numbers the local unknowns as its own ones in cluster order followed by the overlap in the caller's order and describes the same shared unknowns, in the same order, to HPDDM; "
 "hands it, for one or several right-hand sides, the restriction of the right-hand sides, a partition of unity that is one on own unknowns and zero on the overlap, and an operator equal to the global one restricted to the subdomain (also for symmetric and Hermitian operators); its local solves invert the local matrix, overlap included; coarse vectors and the coarse operator reach HPDDM unchanged. "
 "Once the Krylov method has converged, the solution returned on every rank solves the global system in user numbering, the right-hand sides are unchanged, a new solve with other right-hand sides, another preconditioner or a coarse space does not depend on the previous ones, and the reported information (numbers of subdomains, preconditioner, Krylov method, coarse sizes and correction) is that of the solve. "
 "A symmetric operator stored by its upper triangle given to a solver with dense local solves, and a solve with a coarse space but without factorisation, are reported as errors.",
 ["inputs","histories"],"All subdomain descriptions, rank counts, symmetries, scalar types, constructors, numbers of right-hand sides, options and sequences of solves.",
 "The solver tests need HPDDM and a data repository that are not available offline, and use one fixed problem.",
 ["solvers/ddm.hpp","solvers/utility.hpp","wrappers/wrapper_hpddm.hpp"],
 [("DDM","solvers/ddm.hpp"),("DDMSolverWithDenseLocalSolver / DDMSolverBuilder","solvers/utility.hpp"),("HPDDMOperator::GMV","wrappers/wrapper_hpddm.hpp")],
 [("in_global, buffer, D","work buffers sized per solve","solvers/ddm.hpp"),("local numbering and intersections","how unknowns are renumbered","solvers/utility.hpp")],["functional model of HPDDM with an observation hook","residual of the gathered operator"])
p("C30","Builds without OpenMP or for the Python interface give the same results",
 "The library can be compiled with OpenMP, without it, and for the Python interface; the choice changes the speed only. On the same input the three give identical cluster trees, block structures, dense and low-rank blocks and reported information; with one thread every product, conversion, scaling, factorisation and solve is bitwise the same, with several threads products agree to rounding. "
 "In builds without OpenMP and for the Python interface, user code given to the library (coefficient generators, dense-block generators, admissibility conditions) is called only from the thread that called the library, one call at a time.",
 ["inputs","configurations"],"All problems, options and thread counts, in the three build configurations.",
 "The tests are compiled once, in one configuration, and never look at the thread user code runs on.",
 [HM+"tree_builder/tree_builder.hpp",HL+"add_hmatrix_vector_product.hpp",HL+"add_hmatrix_matrix_product_row_major.hpp",HL+"scale.hpp"],
 [("OpenMP guards of the assembly",HM+"tree_builder/tree_builder.hpp"),("OpenMP guards of the products",HL+"add_hmatrix_vector_product.hpp")],
 None,["digests of trees and H-matrices in each configuration","thread of every call of user code"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
