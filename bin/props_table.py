T = [
dict(id="P03", title="Renumbering follows the permutation of the cluster tree and its inverse",
 statement="Going from the numbering of a cluster tree to the user's numbering multiplies by the permutation matrix of the tree (restricted to the range of the cluster when the permutation is local to the partition) and going back multiplies by its transpose, for the functions on the root, on clusters of the partition, and for the partition built from a tree; so each of the two undoes the other, every output entry in the range is written, nothing outside it is, and the input is unchanged. Sizes and offsets of the partition are those of the clusters of the partition.",
 over=["inputs", "configurations"], q="all trees, permutations, partitions, sizes, vectors, real and complex entries",
 why="tests renumber a few geometries; offsets of local clusters and non-involutive permutations matter",
 files=["clustering/cluster_node.hpp", "distributed_operator/implementations/partition_from_cluster.hpp"], mech=[("loops indexed through the permutation, on the left or on the right of the assignment", "clustering/cluster_node.hpp")],
 note="every obligation discharged for all sizes, relative to the invariant of the tree (permutation is a bijection that maps the range onto itself; property P01); input and output must not overlap; calling a local function on a tree whose permutation is not local is excluded by precondition"),
dict(id="P09", title="Matrix is a value type that owns its storage exactly once",
 statement="A Matrix holds rows x cols column-major entries. Construction, copy and move construction and assignment (self-assignment included), resize, assign, release, element and row/column access and the arithmetic operators have the value semantics of a matrix. Copies are deep, a moved-from matrix is empty, borrowed storage is never deleted, owned storage is deleted exactly once, pivots travel with the matrix, and every operation modifies only its target.",
 over=["histories", "inputs"], q="all sequences of operations, all shapes (empty included), owning, borrowing and storage-less matrices, real and complex entries",
 why="tests construct and multiply a few matrices; ownership transitions depend on the history and on equal or different sizes of both sides",
 files=["matrix/matrix.hpp"], mech=[("ownership flag and storage pointer through assignment, move, resize, assign", "matrix/matrix.hpp")],
 note="every member function proved for an arbitrary state of the matrix (any shape, owning or not, with or without storage), so the guarantees compose over histories; matrices must not share storage except through assign; save/load to file is not covered"),
dict(id="P10", title="Dense matrix products equal their algebraic definition",
 statement="Every dense product (vector, matrix, row-major multi-vector, plain, transposed, conjugate-transposed, symmetric or hermitian from one stored triangle, left or right), scaling and transposition leaves in its output exactly alpha*op(A)*op(B)+beta*C for the dimensions and scalars given. It reads and writes only inside its arguments and modifies nothing but its output.",
 over=["inputs", "configurations"], q="all shapes, all trans/side/uplo flags, all scalars, real and complex entries",
 why="tests compare a few fixed shapes with one alpha, beta and random data; the statement quantifies over every shape, flag combination and scalar",
 files=["matrix/linalg/add_matrix_vector_product.hpp", "matrix/linalg/add_matrix_matrix_product.hpp", "matrix/linalg/add_matrix_matrix_product_row_major.hpp", "matrix/linalg/scale.hpp", "matrix/linalg/transpose.hpp"],
 mech=[("BLAS call arguments, conjugation work-arounds of the row-major products", "matrix/linalg/add_matrix_matrix_product_row_major.hpp")],
 note="every obligation of the listed functions discharged for all dimensions and scalars over a field; BLAS contracts assumed; floating-point rounding not modelled"),
dict(id="P11", title="Dense factorisations and triangular solves solve the stated system",
 statement="After an LU or Cholesky factorisation, the corresponding solve returns op(A)^-1 B for the original A, including row exchanges and for both triangles; a triangular solve returns alpha*op(T)^-1 B or alpha*B*op(T)^-1 for the triangle, side, operation and diagonal asked for. The unreferenced triangle and the factorised matrix are not modified by a solve.",
 over=["inputs", "configurations"], q="all square non-singular matrices, all right-hand side shapes, all side/uplo/trans/diag flags",
 why="tests use one well-conditioned random matrix and a few flags; pivot order and one-sided variants are not sampled",
 files=["matrix/linalg/factorization.hpp"], mech=[("getrf/getrs/trsm/potrf/potrs arguments and the explicit row/column exchanges", "matrix/linalg/factorization.hpp")],
 note="every obligation discharged for all dimensions over a field, relative to assumed LAPACK contracts (P L U = A); singular matrices excluded by precondition; rounding not modelled"),
dict(id="P12", title="Low-rank algebra equals the algebra of the products it represents",
 statement="A low-rank block behaves as the matrix U*V it represents: products with vectors, dense matrices and other low-rank blocks, scaling, conversion to dense and accumulation of one block into another (extended by zero, or restricted, to the position of the other) give alpha*op(A)*op(B)+beta*C up to the truncation at the block's own tolerance. This includes rank zero, beta zero, and (conjugate-)transposed operands; the other operands are not modified.",
 over=["inputs", "configurations"], q="all shapes, ranks (zero included), trans flags and scalars, real and complex entries",
 why="tests use one rank and size with random data and tolerances; rank-zero operands, beta in {0,1} and nested block positions are not sampled",
 files=["hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp", "hmatrix/lrmat/linalg/add_matrix_lrmat_product.hpp", "hmatrix/lrmat/linalg/add_lrmat_lrmat_product.hpp", "hmatrix/lrmat/linalg/add_matrix_matrix_product.hpp", "hmatrix/lrmat/linalg/add_lrmat_lrmat.hpp", "hmatrix/lrmat/lrmat.hpp"],
 mech=[("concatenation of factors, rank-zero shortcuts, row offsets of the extended factors", "hmatrix/lrmat/linalg/add_lrmat_lrmat.hpp")],
 note="every obligation discharged over a field for all dimensions and ranks, relative to BLAS contracts and to the contracts of recompression and SVD_truncation taken as exact (their error is property P08)"),
dict(id="P13", title="Hierarchical matrix products with vectors equal the assembled matrix",
 statement="For any hierarchical matrix, any of its blocks, and the row blocks built for a partition, the products with one vector or with several vectors stored by rows, plain, transposed or conjugate-transposed, return alpha*op(H)*x+beta*y where H is the matrix assembled from its leaves (dense and low-rank) plus the mirror images of the leaves that symmetry removed; x and H are left unchanged, and the sequential and OpenMP versions agree.",
 over=["inputs", "configurations", "schedules"], q="all block trees, ranks, symmetry kinds and stored triangles, all supported trans flags, scalars, numbers of vectors, any number of threads, real and complex entries",
 why="tests multiply a handful of trees built from one geometry with tolerances of the compression; the mirror and conjugation cases depend on which leaves are stored",
 files=["hmatrix/linalg/add_hmatrix_vector_product.hpp", "hmatrix/linalg/add_hmatrix_matrix_product_row_major.hpp", "hmatrix/hmatrix.hpp"],
 mech=[("loops over leaves and mirrored leaves, offsets into input and output, thread-local accumulation", "hmatrix/linalg/add_hmatrix_vector_product.hpp")],
 note="every obligation of the six product functions discharged for all trees over a field: each leaf contributes once, at its offsets, with the right operation; the list of leaves and mirrored leaves is specified by the contract of get_leaves_from; rounding not modelled; op C of symmetric and op T of hermitian complex matrices are not offered by the library"),
dict(id="P14", title="Hierarchical, low-rank and dense products equal the algebra they represent",
 statement="C := alpha*op(A)*op(B)+beta*C, with A, B and C each dense, low-rank or hierarchical, leaves in C the stated matrix (up to the truncation tolerance of a low-rank or hierarchical C), whatever the block structures, ranks (zero included), symmetry of the operands and values of beta; scaling a hierarchical matrix and adding a low-rank matrix to it do the same; A and B are unchanged.",
 over=["inputs", "configurations"], q="all operand kinds, block trees, ranks, trans flags, scalars, symmetric and hermitian operands and their rectangular parts",
 why="tests use a few trees with matching structures, alpha and beta; rank-zero and mixed leaf kinds depend on the data",
 files=["hmatrix/linalg/add_hmatrix_hmatrix_product.hpp", "hmatrix/linalg/add_hmatrix_matrix_product.hpp", "hmatrix/linalg/add_matrix_hmatrix_product.hpp", "hmatrix/linalg/add_hmatrix_lrmat_product.hpp", "hmatrix/linalg/add_lrmat_hmatrix_product.hpp", "hmatrix/linalg/add_lrmat_hmatrix.hpp", "hmatrix/linalg/scale.hpp"],
 mech=[("recursion over the children of A, B and C, transposition and conjugation work-arounds, concatenation of factors", "hmatrix/linalg/add_hmatrix_hmatrix_product.hpp")],
 note="every obligation of the functions under contract discharged over a field (see evidence for the list); products with a hierarchical C are checked by the bounded stand-in only"),
dict(id="P18", title="Local operators apply the matrix they stand for, in the numbering asked for",
 statement="A local operator, dense or hierarchical, stands for a matrix with the rows of its target cluster and the columns of its source cluster; with permutation asked for on a side, that side is in the user's numbering. Its products with one vector, or several stored by rows, from the global source vector to the local target and, transposed, from the local target to the range of the source cluster in the global vector, give alpha*op(G)*x+beta*y for this matrix G, for general, symmetric and hermitian operators and either triangle; entries of the global vector outside the source cluster and the input are unchanged. The product with a part of the source (given by offset and size) adds up exactly the columns the part shares with the source cluster.",
 over=["inputs", "configurations"], q="all clusters, offsets, permutations, symmetries, stored triangles, scalars, numbers of vectors, parts of the source, real and complex entries",
 why="tests exercise only operators without permutation and with beta zero; offsets, permuted multi-vector buffers and the transposed hermitian case are not sampled",
 files=["local_operators/local_operator.hpp", "local_operators/local_dense_matrix.hpp", "local_operators/local_hmatrix.hpp", "local_operators/virtual_local_operator.hpp"],
 mech=[("temporary buffers, permutation and transposition of columns, conjugation of the transposed hermitian product", "local_operators/local_operator.hpp")],
 note="every obligation of the sixteen member functions discharged for all sizes and contents over a field; the virtual product functions have one interface contract, against which both implementations are verified; a hierarchical operator must be given the symmetry of its hierarchical matrix, and a permuted side needs a permutation that maps the cluster's range onto itself"),
dict(id="P01", title="A cluster tree is a nested contiguous partition of a permutation of the points",
 statement="Whatever the points, radii, weights, strategies, number of children, leaf size and partition asked for, the tree built has a root covering all the points, every cluster covers a contiguous range of the permutation, the children of a cluster tile its range in order without gap or overlap, and the permutation is a bijection of the points. When a partition is given, its parts are the clusters of the partition (in order, each point in the part it was given to, the permutation stays local to the part); otherwise the parts asked for tile the points. Each cluster has the rank of its part; its center and radius are those of its points, its radius encloses them, depths and the minimum and maximum depth are right, and leaves are no larger than splitting requires.",
 over=["inputs", "configurations"], q="all point sets (coincident points, negative coordinates), sizes, strategies, numbers of children, leaf sizes, partitions",
 why="tests build trees on random disks with the default strategies; degenerate geometry and uneven or given partitions are not sampled",
 files=["clustering/tree_builder/tree_builder.hpp", "clustering/cluster_node.hpp", "clustering/tree_builder/recursive_build.hpp"], mech=[("worklist of clusters, sorting of the permutation range, offsets of the children", "clustering/tree_builder/tree_builder.hpp")],
 level="proof", note="proved for every point set, dimension, number of children, part size or given partition: the loop over waiting clusters with an invariant given with the contract (every cluster that waits is a range of points without children yet, carries the numbers of its place in the tree and belongs to the tree; the cluster at hand is divided once into the number of children of its level, gets one child per part, in order, with the range, rank, number, depth, centre and radius it should have, registered as part exactly one level below the last level above the partition, or gets none and is counted in the depths of the tree; points are only rearranged within its range); the root; the default radii and weights; the centre is the weighted mean and the radius the largest distance to the far side of a point; a new child and its registration as part. From these steps the statement about the whole tree follows by induction over the tree (written out, not machine-checked): the ranges of waiting clusters are disjoint, so later rearrangements change neither the points of a cluster nor its centre and radius as sums over them. Relative to: std::sort rearranges its range and its comparator is only executed on two arbitrary entries; the integer d that floor(log p / log c) yields satisfies d >= 1 and c^d <= p; the strategies obey the interface contract (proved of both splitting strategies and of the largest extent, P02); a given partition is a list of ranges that follow each other; ints do not overflow. The accuracy of centre and radius in floating point is bounded only"),
dict(id="P02", title="Splitting strategies tile the cluster and directions follow the largest extent",
 statement="A splitting strategy given a cluster and a number of children returns either nothing (when the cluster cannot be divided into parts larger than the minimal leaf size) or exactly that many contiguous, ordered parts that tile the cluster's range, each larger than the minimum; the regular strategy balances them to within one rounding step. The direction strategies return the direction of the largest bounding-box extent, respectively of the largest weighted variance, of the cluster's points only. Neither the permutation nor the cluster is modified.",
 over=["inputs", "configurations"], q="all clusters, offsets, sizes, numbers of children, minimal leaf sizes, point sets in two and three dimensions",
 why="tests use whole trees on a few geometries; sizes that do not divide, offsets, coincident points and negative coordinates matter",
 files=["clustering/tree_builder/splitting.hpp", "clustering/tree_builder/direction_computation.hpp"], mech=[("rounding of part sizes, last part takes the rest, search along the sorted projection", "clustering/tree_builder/splitting.hpp")],
 level="proof", note="proved: both splitting strategies (nothing or exactly the tiling, regular balance, the permutation and cluster untouched) and the bounds/frame of the largest-extent direction; bounded only: the values of the directions, the bounding-box direction"),
dict(id="P05", title="The leaves of the block tree cover every pair of points exactly once",
 statement="The block tree built for two clusters, an admissibility condition, a symmetry kind and (optionally) one part of the target or a local block, has leaves that cover every pair (row of the target, column of the source) exactly once, counting for a symmetric tree the mirror image of each leaf marked so; the part of the other triangle is never stored or computed, low-rank candidates are admissible, dense leaves are those that cannot be divided, the minimum depths are respected, and each node sits on the intersection of its clusters. The generator is asked for each entry of a dense leaf once.",
 over=["inputs", "configurations"], q="all pairs of cluster trees, admissibility conditions, eta, symmetry kinds, stored triangles, parts, minimal depths",
 why="tests build trees for one disk geometry and compare a matrix with tolerance; a missing or doubled block can hide behind small entries or unsampled partitions",
 files=["hmatrix/tree_builder/tree_builder.hpp", "hmatrix/hmatrix.hpp"], mech=[("recursion on pairs of clusters, removal by symmetry, parts of the target", "hmatrix/tree_builder/tree_builder.hpp")],
 level="proof", note="proved: the recursion covers an arbitrary pair (row, column) once by a block or once by its mirror, blocks removed are only those of the other triangle or outside the asked part, the removal and part tests, symmetry flags set on the root, a child added with its sizes. Assumed: children partition their parent (P01), admissible blocks of one tree pair disjoint clusters, a symmetric build uses one consistent tree. Bounded only: the order in which build calls the steps, reset_root_of_block_tree, propagation of the symmetry marks"),
dict(id="P06", title="A hierarchical matrix represents its generator within the tolerance",
 statement="A hierarchical matrix built from a generator contains in each dense leaf exactly the generator's values at the points of the leaf, and in each low-rank leaf what the compressor returned for that block; a block the compressor gives up on is stored dense. With a compressor that meets the tolerance epsilon on each block, the assembled matrix differs from the generator's by at most epsilon in relative Frobenius norm. Symmetry kind, stored triangle, given rank, local row blocks and the default or a user's internal generator do not change this.",
 over=["inputs", "configurations", "schedules"], q="all generators and cluster trees, compressors meeting their contract, tolerances, ranks, symmetries, any number of threads",
 why="tests compare one smooth kernel at loose tolerances where swapped indices in small blocks or a missed fall-back go unnoticed",
 files=["hmatrix/tree_builder/tree_builder.hpp", "hmatrix/hmatrix.hpp", "hmatrix/lrmat/lrmat.hpp", "hmatrix/interfaces/virtual_generator.hpp"], mech=[("computation of leaf data, fall-back from low-rank to dense, permutation of indices", "hmatrix/tree_builder/tree_builder.hpp")],
 level="proof", note="proved: the data of a dense leaf are the generator's entries, those of a low-rank leaf what the compressor returned for the block, asked rank and tolerance, whatever the compressor had prepared in one of the factors when it gives up; every block of the two task lists gets its data whatever the schedule, with the fall-back to dense; the permutation of a user's generator. Bounded only: build as a whole, a user's generator of dense blocks, the accuracy of the assembled matrix"),
dict(id="P07", title="Compressors return factors of the block within their tolerance or give up",
 statement="Each compressor (SVD, full ACA, partial ACA, symmetric partial ACA) returns factors U (rows of the target x rank) and V (rank x columns of the source) or gives up. The SVD compressor returns a best approximation of the asked rank or of the smallest rank meeting the tolerance; full ACA meets the tolerance in relative Frobenius norm; the adaptive crosses interpolate the block exactly on the rows and columns they picked and stop by their stated criterion. A requested rank is honoured up to the dimensions; a compressor gives up exactly when the factors would not be smaller than the block. Only the entries of the block given are read.",
 over=["inputs", "configurations"], q="all blocks, sizes, tolerances, requested ranks, real and complex entries",
 why="tests compress one kernel on two disks; complex conjugation, rank-deficient, tiny and one-row blocks are not sampled",
 files=["hmatrix/lrmat/SVD.hpp", "hmatrix/lrmat/fullACA.hpp", "hmatrix/lrmat/partialACA.hpp", "hmatrix/lrmat/sympartialACA.hpp"], mech=[("choice of the pivots, update of the residual, scaling of the cross, stop test", "hmatrix/lrmat/partialACA.hpp")],
 level="proof", note="proved over a field for every non-empty block, size, tolerance and requested rank, real and complex: the SVD compressor returns the leading singular triplets (as many as asked, up to the dimensions, or the smallest number within the tolerance) and gives up exactly when the factors would not be smaller than the block; full ACA always has U V + rest = block and returns only with the rest within the tolerance in relative Frobenius norm, with all the steps asked for done, or with an exhausted pivot, and gives up only when one more cross would make the factors larger than the block or the block has no entry above 1e-15; partial and symmetric partial ACA have a rest that vanishes on the rows and columns of every cross found (for all numbers of steps, through the pivot search), accumulate exactly the squared Frobenius norm of the product, return only when their stated criterion holds, the asked rank is reached or the pivot is exhausted, and give up only in the stated cases; none raises the rank above the one asked or the dimensions; only entries of the block are read. Also under contract: argmax, normFrob, Matrix::get_row and get_col. Assumed: the contract of LAPACK's gesvd (through SVD_truncation, P08) and of std::max_element; that the loops terminate. Not claimed: that the stopping criterion of the partially pivoted crosses bounds the error of the whole block (a heuristic of the method). Bounded only: the numerical accuracy of the result (harness)"),
dict(id="P08", title="Recompression and truncation keep the block within their tolerance",
 statement="Truncating the singular value decomposition of a matrix at epsilon returns its leading singular triplets, as few as keep the discarded part within epsilon of its norm. Recompressing a low-rank block, directly or after an accumulation, changes the matrix it represents by at most epsilon in relative Frobenius norm, never raises the rank, and keeps its dimensions, whatever the rank (zero, larger than the dimensions) and whether the factors are orthogonal, dependent or zero.",
 over=["inputs", "configurations"], q="all factors, shapes, ranks, tolerances, real and complex entries",
 why="tests recompress the output of one compressor; ranks above the dimensions, zero factors and conjugation are not sampled",
 files=["hmatrix/lrmat/utils/recompression.hpp", "matrix/utils/SVD_truncation.hpp", "hmatrix/lrmat/linalg/add_lrmat_lrmat.hpp"], mech=[("QR/LQ of the factors, SVD of the core, choice of the rank", "hmatrix/lrmat/utils/recompression.hpp")],
 level="proof", note="proved over a field for every shape, rank and tolerance, real and complex: SVD_truncation returns the decomposition of its argument and the smallest number of leading triplets whose discarded part is within the tolerance; recompression keeps the product of the factors in the algebra where the discarded singular values count as zero, truncates exactly once and at the tolerance of the block, never raises the rank, keeps the dimensions and reports them. Assumed: the LAPACK contracts of gesvd, geqrf, gelqf, ormqr/unmqr and ormlq/unmlq, and that the Frobenius norm is invariant under the orthogonal factors (so that discarding within the tolerance in the core is discarding within the tolerance of the block). Precondition: positive rank. Bounded only: rank zero, and the numerical accuracy of the result (harness on random, dependent and zero factors)"),
dict(id="P15", title="Hierarchical factorisations and triangular solves solve the stated system",
 statement="After a hierarchical LU or Cholesky factorisation, the corresponding solve returns op(A)^-1 B for the original A up to the accumulated truncation tolerance, for dense right-hand sides (vectors and matrices), with either triangle for Cholesky. A hierarchical triangular solve, with a dense, low-rank or hierarchical right-hand side, returns alpha*op(T)^-1 B, or alpha*B*op(T)^-1, for the triangle, side, operation and diagonal asked for. The factor given to a solve is not modified.",
 over=["inputs", "configurations"], q="all block trees with non-singular diagonal blocks, right-hand side kinds and shapes, side/uplo/trans/diag flags, real and complex entries",
 why="tests use two trees and a few flags; rank-zero right-hand sides, uneven children and unusual flag combinations are not sampled",
 files=["hmatrix/linalg/factorization.hpp", "hmatrix/linalg/triangular_hmatrix_matrix_solve.hpp", "hmatrix/linalg/triangular_hmatrix_lrmat_solve.hpp", "hmatrix/linalg/triangular_hmatrix_hmatrix_solve.hpp"], mech=[("block forward/backward substitution order over the children", "hmatrix/linalg/triangular_hmatrix_matrix_solve.hpp")],
 level="proof", note="proved: the block forward and backward substitution for dense right-hand sides on any block tree (every triangle, operation, diagonal), with the wrappers for both sides, for low-rank right-hand sides, and the LU and Cholesky solves in both numberings. Assumed: both clusters of the factor are one node, its sub-blocks in the triangle exist, the products of P13. Bounded only: the factorisations themselves, hierarchical right-hand sides"),
dict(id="P16", title="Copies, dense conversions and traversals of an HMatrix show the same matrix",
 statement="Converting a hierarchical matrix, or any block of it, to dense (in the cluster or in the user's numbering), copying its diagonal, copying, assigning or moving it, and enumerating its leaves, all show one and the same matrix: the assembled leaves plus the mirror images. Leaves (and the leaves to be mirrored) returned by a traversal are exactly those below the block, each once; a copy is independent of its source and equal to it, with its symmetry, trees and parameters; nothing outside the output range is written and the matrix is unchanged.",
 over=["histories", "inputs", "configurations"], q="all block trees and blocks of them, symmetry kinds, triangles, parts, offsets, real and complex entries",
 why="tests convert whole symmetric matrices of one structure; sub-blocks with an offset, mirrored leaves straddling the block and copies of copies are not sampled",
 files=["hmatrix/hmatrix.hpp", "hmatrix/hmatrix_output.hpp"], mech=[("offsets of leaves and of mirrored leaves in the output, traversal by symmetry", "hmatrix/hmatrix.hpp")],
 level="proof", note="the traversals (leaves and mirrored leaves), the search of a block and both dense conversions, deep copies and assignments are proved for every block tree; the diagonal and moves are bounded only"),
dict(id="P17", title="A distributed operator applies the global operator on any partition of ranks",
 statement="On any number of MPI ranks and for any partition of rows and columns (empty parts included), the products of a distributed operator with one vector or several, plain or transposed, from global to global or local to local data, in the user's numbering or the partition's, equal the product by the matrix G whose row blocks the ranks' local operators add up to. Every rank returns the same global result or its own part of it; the communication uses counts and displacements that match on all ranks, so no call hangs; the input is unchanged. The builders produce operators whose G is the generator's matrix within tolerance.",
 over=["inputs", "configurations", "schedules"], q="all numbers of ranks, partitions, local operators, symmetry kinds, numbers of vectors, with or without work space, real and complex entries",
 why="tests run on up to four ranks with balanced partitions; uneven or empty parts and several vectors change every count and displacement",
 files=["distributed_operator/distributed_operator.hpp", "distributed_operator/implementations/partition_from_cluster.hpp", "distributed_operator/utility.hpp"], mech=[("counts and displacements of the collectives, renumbering before and after, interleaving of vectors", "distributed_operator/distributed_operator.hpp")],
 level="proof", note="every obligation of the nineteen product and gathering functions discharged for one generic rank, any number of ranks and any partition (empty parts included): what each rank passes to a collective is the renamed argument of the generic one, counts and displacements are proved to match; the partition and the local operators obey the interface contracts against which their implementations are verified in P03 and P18; the builders of utility.hpp are bounded only"),
dict(id="P04", title="A saved cluster tree is read back as it was", statement="Reading the files written by save_cluster_tree gives a tree with the same permutation, ranges, depths, parts and (to the printed precision) geometry.",
 over=["inputs"], q="all cluster trees", why="tests save and read one tree", files=["clustering/cluster_output.hpp"], mech=[("comma-separated text of the nodes", "clustering/cluster_output.hpp")], note="",
 na="formatted text output and parsing through iostreams: the contract would be about the decimal text of numbers, for which the verifier has no theory (and the six printed digits make the round trip inexact)"),
dict(id="P20", title="The iterative solvers return a solution of the preconditioned system", statement="DDM solvers (one-level, two-level, coarse operators) built from an operator and its local blocks solve the system to the asked tolerance on every number of ranks.",
 over=["inputs", "schedules"], q="all operators and partitions", why="tests solve a few systems", files=["wrappers/wrapper_hpddm.hpp", "solvers/ddm.hpp"], mech=[("exchange of overlaps", "wrappers/wrapper_hpddm.hpp")], note="",
 na="depends on HPDDM, which is not present here (the solver headers do not compile without it), and on convergence of a Krylov iteration in floating point, which no contract over a field expresses"),
]
