"""Which contracts and executable contracts decide which property."""
COMMON_ASSUMPTIONS = [
  "machine arithmetic treated as mathematical: floating-point entries are elements of a field (real or complex), int/size_t are unbounded integers",
  "BLAS, LAPACK, the C++ standard library, MPI and OpenMP runtime obey their documented contracts (vc/models.py, vc/stdlib.py)",
  "arguments passed by reference or pointer do not alias unless the contract says so",
  "template instantiations verified: double and std::complex<double> (float instantiations share the same template source)",
  "termination is not proved",
  "the extractor keeps every statement and expression of the instantiated function bodies; it drops only asserts' text, comments, and attributes",
]
def names(*ns):
    ns = set("htool::" + n for n in ns)
    return lambda f, c: c.name in ns
DPROD = names("add_matrix_vector_product", "add_symmetric_matrix_vector_product", "add_hermitian_matrix_vector_product", "add_matrix_matrix_product", "add_symmetric_matrix_matrix_product", "add_hermitian_matrix_matrix_product",
              "add_matrix_matrix_product_row_major", "add_symmetric_matrix_matrix_product_row_major", "add_hermitian_matrix_matrix_product_row_major", "scale", "transpose")
DSOLVE = names("triangular_matrix_matrix_solve", "lu_factorization", "lu_solve", "cholesky_factorization", "cholesky_solve")
LRALG = lambda f, c: c.name in {"htool::" + n for n in ("add_lrmat_vector_product", "add_lrmat_matrix_product", "add_lrmat_matrix_product_row_major", "add_matrix_lrmat_product", "add_lrmat_lrmat_product", "add_matrix_matrix_product", "scale", "add_lrmat_lrmat", "LowRankMatrix::copy_to_dense")} and (c.title.endswith("(low-rank)") or "lrmat" in c.name.lower() or "LowRank" in c.name)
MCONT = lambda f, c: c.name.startswith("htool::Matrix::") or c.name == "htool::operator*"
PROPS = {
 "P09": dict(level="proof", tus=["dense"], mods=["matrix"], match=MCONT, harness="P09", bound="random histories of up to 25 operations on 4 matrices of dimension 0..5, owning and borrowed storage"),
 "P10": dict(level="proof", tus=["dense"], mods=["dense"], match=DPROD, harness="P10", bound="random dense matrices of dimension 1..9, every trans/side/uplo combination, scalars in {0,1,random}"),
 "P11": dict(level="proof", tus=["dense"], mods=["dense"], match=DSOLVE, harness="P11", bound="random dense matrices of dimension 1..9, every side/uplo/trans/diag combination, row exchanges forced"),
 "P12": dict(level="proof", tus=["lrmat"], mods=["dense", "lrmat"], match=LRALG, harness="P12", bound="random low-rank and dense operands of dimension 1..9 and rank 0..4, every operand kind, every trans combination, scalars in {0,1,random}"),
}
HMV = lambda f, c: c.name.startswith("htool::") and c.name.split("::")[-1].replace("sequential_", "").replace("openmp_", "") in ("internal_add_hmatrix_vector_product", "internal_add_hmatrix_matrix_product_row_major")
HMP = names("internal_add_hmatrix_matrix_product", "internal_add_matrix_hmatrix_product", "internal_add_hmatrix_lrmat_product", "internal_add_lrmat_hmatrix_product")
PROPS.update({
 "P13": dict(level="proof", tus=["hmatrix"], mods=["dense", "lrmat", "hmatrix"], match=HMV, harness="P13", bound="random hierarchical matrices up to 40x40, 1..4 partitions, symmetric/hermitian/none, local row blocks, every supported trans, 3 threads"),
 "P14": dict(level="proof", tus=["hmatrix"], mods=["dense", "lrmat", "hmatrix"], match=HMP, harness="P14", bound="random operands up to 30x30, every operand kind, every trans combination, scalars in {0,1,random}"),
})
RENUM = lambda f, c: c.name.split("::")[-1] in ("root_cluster_to_global", "global_to_root_cluster", "local_cluster_to_local", "local_to_local_cluster", "cluster_to_user", "user_to_cluster") or "PartitionFromCluster" in c.name
PROPS["P03"] = dict(level="proof", tus=["cluster"], mods=["cluster"], match=RENUM, harness="P03", bound="random trees of 2..120 points, 1..5 partitions, with and without a given partition, real and complex vectors")

LOCOP = lambda f, c: "::LocalOperator::" in c.name or "::LocalDenseMatrix::" in c.name or "::LocalHMatrix::" in c.name
PROPS["P18"] = dict(level="proof", tus=["local"], mods=["dense", "lrmat", "hmatrix", "cluster", "local"], match=LOCOP, harness="P18", bound="random dense and hierarchical local operators up to 40x40, symmetric/hermitian/none, permuted or not on each side, 1..4 vectors, every part of the source")
SPLIT = lambda f, c: c.name.split("::")[-1] in ("splitting", "compute_direction")
PROPS["P02"] = dict(level="proof", tus=["cluster"], mods=["cluster", "splitting"], match=SPLIT, harness="P02", bound="random clusters of 1..120 points, 1..6 children, minimal sizes 0..30, dimension 2 and 3 (values of the principal directions and bounding boxes: bounded only)")

# bounded stand-ins; the deductive parts are added below as they are brought under contract
CTREE = lambda f, c: c.name.startswith("htool::ClusterTreeBuilder::") or c.title.endswith("(clusters)")
PROPS["P01"] = dict(level="proof", tus=["cluster"], mods=["dense", "cluster", "splitting", "ctree"], match=CTREE, harness="P01", bound="random trees of 1..150 points, several strategies, 1..5 partitions, given partitions, coincident points")
COMPRESS = lambda f, c: c.name.split("::")[-1] in ("copy_low_rank_approximation", "argmax", "normFrob", "get_row", "get_col")
PROPS["P07"] = dict(level="proof", tus=["lrmat"], mods=["dense", "lrmat", "hmatrix", "builder", "compress"], match=COMPRESS, harness="P07", bound="random blocks up to 40x40, exact and smooth, every requested rank and tolerances")
TRUNC = lambda f, c: c.name in ("htool::SVD_truncation", "htool::recompression")
PROPS["P08"] = dict(level="proof", tus=["lrmat"], mods=["dense", "lrmat"], match=TRUNC, harness="P08", bound="random factors up to 20x20, ranks 0..25, tolerances 0..1")
HSOLVE = lambda f, c: c.name.split("::")[-1] in ("internal_triangular_hmatrix_matrix_solve_row_major", "internal_triangular_hmatrix_matrix_solve", "internal_triangular_hmatrix_lrmat_solve", "internal_lu_solve", "internal_cholesky_solve") or c.title.endswith("_solve (hierarchical)")
PROPS["P15"] = dict(level="proof", tus=["hmatrix"], mods=["dense", "lrmat", "hmatrix", "cluster", "hsolve"], match=HSOLVE, harness="P15", bound="random hierarchical matrices up to 36x36, every side/uplo/trans/diag, all kinds of right-hand side (the factorisations and hierarchical right-hand sides: bounded only)")
HBLK = lambda f, c: c.name.split("::")[-1] in ("get_leaves_from", "preorder_tree_traversal", "get_sub_hmatrix", "get_child_or_this", "copy_to_dense_in_user_numbering", "copy_diagonal", "copy_diagonal_in_user_numbering") or (c.name in ("htool::copy_to_dense",) and "HMatrix" in f["p"][0]["t"]) or c.name in ("htool::HMatrix::HMatrix", "htool::HMatrix::operator=")
PROPS["P16"] = dict(level="proof", tus=["hmatrix"], mods=["dense", "lrmat", "hmatrix", "hblock"], match=HBLK, harness="P16", bound="random hierarchical matrices up to 40x40, every symmetry, parts, histories of copies (moves, swaps and the diagonal: bounded only)")
GEN = lambda f, c: c.name in ("htool::InternalGeneratorWithPermutation::copy_submatrix", "htool::HMatrix::compute_dense_data", "htool::HMatrix::compute_low_rank_data", "htool::HMatrixTreeBuilder::compute_blocks") or (c.name == "htool::LowRankMatrix::LowRankMatrix" and len(f["p"]) == 6)
PROPS["P06"] = dict(level="proof", tus=["builder"], mods=["dense", "lrmat", "hmatrix", "hblock", "builder"], match=GEN, harness="P06", bound="random generators and trees up to 60x60 points, tolerances 1e-2..1e-10, every compressor (the whole of build, a user's generator of dense blocks, and the accuracy of the compressors: bounded only)")
BT = lambda f, c: (c.name.startswith("htool::HMatrixTreeBuilder::") and not c.name.endswith("compute_blocks")) or c.name == "htool::TreeNode::add_child"
PROPS["P05"] = dict(level="proof", tus=["builder"], mods=["dense", "lrmat", "hmatrix", "hblock", "builder", "blocktree"], match=BT, harness="P05", bound="random pairs of trees up to 50x50 points, 1..4 partitions, every symmetry and stored triangle, local blocks (the extraction of the rows of one part and build as a whole: bounded only)")
DIST = lambda f, c: "::DistributedOperator::" in c.name
PROPS["P17"] = dict(level="proof", tus=["distributed"], mods=["dist"], match=DIST, harness="P17", runs=[(1, 1), (2, 1), (3, 1), (5, 1)], bound="1, 2, 3 and 5 ranks, random partitions with empty parts, 1..3 vectors, every operator kind")
