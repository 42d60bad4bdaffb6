"""Contracts of the builder of hierarchical matrices (include/htool/hmatrix/tree_builder, hmatrix/lrmat/lrmat.hpp, hmatrix/interfaces)."""
import z3
from ..terms import *
from ..engine import *
from .. import models as M
from ..contract import Contract, Spec, same
from ..loops import FOREACH
from .dense import num, H, mk_ptr, mk_int, shape_ptr, rows, cols, mat
from .lrmat import fresh_matrix, UV, release
from .hmatrix import cluster_named, mk_hm, hmtype, hT, hS, coff, csz, bz, DENSE, LOWRANK, HIER, leaf_inv
from . import hblock as HB
C = []
HM = H + "HMatrix::"; TB = H + "HMatrixTreeBuilder::"
# ---- generators: an internal generator denotes a matrix in the numbering of the trees, a user's generator one in the user's numbering
def mk_gen(it, name, t):
    ctx = it.ctx; o = Obj(ctx, t, name); o.ghost["gen"] = name; return Cell(ctx, o, t, name)
def gdims(ctx, g):
    nm = g.get().ghost["gen"]; a, b = IPoly.atom(nm + ".rows"), IPoly.atom(nm + ".cols"); ctx.assume(z3.And(a.z() >= 0, b.z() >= 0)); return a, b
def G(ctx, g): return ctx.gen("G{%s}" % g.get().ghost["gen"], *gdims(ctx, g))
def block(s, g, r, c, ro, co):
    """the block of the generator's matrix"""
    ctx = s.ctx; nt, ns = gdims(ctx, g); z = ctx.zi
    s.req("the block is inside the generator's matrix", z3.And(z(ro) >= 0, z(co) >= 0, z(r) >= 0, z(c) >= 0, z(ro + r) <= z(nt), z(co + c) <= z(ns)))
    S = lambda n, o, k: MTerm.of(ctx.sel(n, ctx.inorm(o), ctx.inorm(k)))
    return S(nt, ro, r).op("T").mul(G(ctx, g)).mul(S(ns, co, c))
def internal(s, f, this, a):
    """ptr := the block of M rows from row_offset and N columns from col_offset"""
    r, c, ro, co = [ip(x.get()) for x in a[:4]]
    s.write(a[4], r, c, block(s, this, r, c, ro, co))
C.append(Contract(H + "VirtualInternalGenerator::copy_submatrix", None, internal, verify=False))
def mk_igp(it, f):
    ctx = it.ctx; t = strip(f["cls"]); o = Obj(ctx, t, "this"); g = mk_gen(it, "user", "htool::VirtualGenerator<%s>" % num(ctx)); nt, ns = gdims(ctx, g)
    o.f["m_generator_in_user_numbering"] = g
    for n, k in (("target", nt), ("source", ns)):
        b = IBuf(ctx, k, z3.Array("perm_" + n, z3.IntSort(), z3.IntSort()), n + "_permutation"); b.ghost["perm"] = n; o.f["m_%s_permutation" % n] = Cell(ctx, BPtr(b, 0), "const int *", "m_%s_permutation" % n)
    return Cell(ctx, o, t, "this"), [mk_int(it, p["n"]) if strip(p["t"]) == "int" else mk_ptr(it, p["n"]) for p in f["p"]]
def Q(ctx, n, N): return MTerm.of(Atom("perm", "Q{%s}" % n, N, N, real=True))
def userblock(s, f, this, a):
    """ptr := the entries of the rows and columns listed"""
    ctx = s.ctx; z = ctx.zi; r, c = ip(a[0].get()), ip(a[1].get()); nt, ns = gdims(ctx, this); w = []
    for p, n, N in ((a[2].get(), r, nt), (a[3].get(), c, ns)):
        if not isinstance(p, BPtr) or "perm" not in p.buf.ghost: raise Unsupported("list of indices")
        s.req("indices inside the permutation", z3.And(z(n) >= 0, z(p.off) >= 0, z(p.off + n) <= z(p.buf.size)))
        s.req_eq("the permutation is that of the generator's side", p.buf.size, N)
        w.append(MTerm.of(ctx.sel(N, ctx.inorm(p.off), ctx.inorm(n))).op("T").mul(Q(ctx, p.buf.ghost["perm"], N)))
    s.write(a[4], r, c, w[0].mul(G(ctx, this)).mul(w[1].op("T")))
C.append(Contract(H + "VirtualGenerator::copy_submatrix", None, userblock, verify=False))
def permuted(s, f, this, a):
    """an internal generator: the user's matrix with rows and columns renumbered by the target's and the source's permutation"""
    ctx = s.ctx; o = this.get(); u = o.f["m_generator_in_user_numbering"]; r, c, ro, co = [ip(x.get()) for x in a[:4]]; nt, ns = gdims(ctx, u); z = ctx.zi
    s.req("the block is inside the generator's matrix", z3.And(z(ro) >= 0, z(co) >= 0, z(r) >= 0, z(c) >= 0, z(ro + r) <= z(nt), z(co + c) <= z(ns)))
    shape_ptr(s, a[4], r, c)
    S = lambda n, x, k: MTerm.of(ctx.sel(n, ctx.inorm(x), ctx.inorm(k)))
    s.write(a[4], r, c, S(nt, ro, r).op("T").mul(Q(ctx, "target", nt).mul(G(ctx, u)).mul(Q(ctx, "source", ns).op("T"))).mul(S(ns, co, c)))
C.append(Contract(H + "InternalGeneratorWithPermutation::copy_submatrix", mk_igp, permuted, title=H + "InternalGeneratorWithPermutation::copy_submatrix"))
# ---- compressors
def compressor(s, f, this, a):
    """either gives up, leaving one of U and V (or both) without the dimensions of the block, or U and V hold factors of positive rank with the dimensions of the block"""
    ctx = s.ctx; g, T, S, eps, rank, U, V = a; block(s, g, csz(T), csz(S), coff(T), coff(S))
    for m in (U, V): s.req_eq("the factors given are empty", rows(m), ip(0))
    asked = key(ctx, T, S, rank.get(), eps.get()); rank.set(ctx.fint("rank"))
    d = ctx.choose(4, "compressor")
    if d != 1: ctx.trace.append("the compressor gives up")
    if d == 0: return
    if d > 1:
        m, (r, c) = ((U, (csz(T), ctx.fint("width", 0))), (V, (ctx.fint("width", 0), csz(S))))[d - 2]; ctx.trace.append("after having set the size of %s" % "UV"[d - 2]); fresh_matrix(s, m, r, c, "UV"[d - 2], ctx.gen("prepared", r, c)); return
    k = IPoly.atom("rank{%s}" % asked); ctx.assume(k.z() >= 1); u, v = factors(ctx, T, S, k, asked)
    fresh_matrix(s, U, csz(T), k, "U", u); fresh_matrix(s, V, k, csz(S), "V", v)
def key(ctx, T, S, rank, eps):
    """the factors depend on the block, on the rank asked for and on the tolerance"""
    return "%s,%s;rank %r;eps %r" % (T.get().name, S.get().name, ctx.inorm(ip(rank)), ctx.mnorm(eps) if isinstance(eps, MTerm) else eps)
def factors(ctx, T, S, k, n): return ctx.gen("U{%s}" % n, csz(T), k), ctx.gen("V{%s}" % n, k, csz(S))
C.append(Contract(H + "VirtualLowRankGenerator::copy_low_rank_approximation", None, compressor, verify=False))
def args(it, f):
    ctx = it.ctx; a = []
    for p in f["p"]:
        t = strip(p["t"]); nm = p["n"] or "arg"
        if "Generator<" in t: a.append(mk_gen(it, nm, t))
        elif t.startswith("htool::Cluster<"): a.append(cluster_named(it, nm))
        elif t == "double": a.append(Cell(ctx, ctx.scal(nm, True), t, nm))
        elif t == "int": a.append(mk_int(it, nm))
        elif t.startswith("htool::HMatrix<"): a.append(mk_hm(it, nm))
        else: raise Unsupported("argument %s" % t)
    return a
def factors_of(it, l, T, S, rank, eps):
    """the factors of l are those of the compressor, or empty ones: none, or with the dimensions of the block when rank zero is asked for"""
    c = it.ctx; U, V = l.field("m_U"), l.field("m_V"); n = key(c, T, S, rank, eps); k = IPoly.atom("rank{%s}" % n)
    dims = [rows(U), cols(U), rows(V), cols(V)]; eq = lambda w: all(c.ieq(x, y) for x, y in zip(dims, w))
    if any(x == "the compressor gives up" for x in c.trace): return eq([0, 0, 0, 0]) or c.prove(z3.Or(c.zi(rows(U)) != c.zi(csz(T)), c.zi(cols(V)) != c.zi(csz(S)))), "given up, but factors are %r" % dims
    if c.prove(c.zi(rank) == 0): return eq([csz(T), 0, 0, csz(S)]), "rank zero: factors are %r" % dims
    if not eq([csz(T), k, k, csz(S)]): return False, "factors are %r" % dims
    s = Spec(it, "call", "?")
    for m, w in zip((U, V), factors(c, T, S, k, n)):
        ok, d = c.meq(mat(s, m), w)
        if not ok: return False, "factor - compressor's = %r" % (d,)
    return True, ""
def lrctor(s, f, this, a):
    ctx = s.ctx; g, lr, T, S, rank, eps = a; block(s, g, csz(T), csz(S), coff(T), coff(S)); r0 = ip(rank.get()); e = eps.get()
    def chk(it, o): return factors_of(it, o, T, S, r0, e)
    s.postchecks.append(("the factors are the compressor's for this block", chk))
    s.postchecks.append(("tolerance kept", lambda it, o: same(it, o.f["m_epsilon"].get(), e, "m_epsilon")))
C.append(Contract(H + "LowRankMatrix::LowRankMatrix", lambda it, f: (None, args(it, f)), lrctor, pred=lambda f: f.get("ctor") and len(f["p"]) == 6, inline_at_calls=True, title=H + "LowRankMatrix(generator, compressor, ..)"))
# ---- data of a block
def mk_block(it, f):
    """a block without data"""
    return mk_empty(it, "this"), args(it, f)
def mk_empty(it, name):
    ctx = it.ctx; h = mk_hm(it, name); o = h.get(); num_ = num(ctx)
    o.f["m_storage_type"] = Cell(ctx, ip(HIER), "int", name + ".m_storage_type"); o.f["m_dense_data"] = Cell(ctx, NULL, "std::unique_ptr<htool::Matrix<%s>>" % num_, name + ".m_dense_data"); o.f["m_low_rank_data"] = Cell(ctx, NULL, "std::unique_ptr<htool::LowRankMatrix<%s>>" % num_, name + ".m_low_rank_data")
    return h
def isdense(it, h, g):
    from .matrix import is_matrix
    c = it.ctx; o = h.get(); T, S = hT(h), hS(h); p, q = o.f["m_dense_data"].get(), o.f["m_low_rank_data"].get()
    if not c.ieq(o.f["m_storage_type"].get(), DENSE): return False, "not marked as dense"
    if not isinstance(p, Ptr) or p.cell is None: return False, "no dense data"
    if not (isinstance(q, Ptr) and q.cell is None): return False, "low-rank data kept"
    return is_matrix(it, p.cell, csz(T), csz(S), block(Spec(it, "call", "?"), g, csz(T), csz(S), coff(T), coff(S)), True)
def islow(it, h, g, r0, eps):
    c = it.ctx; o = h.get(); p, q = o.f["m_low_rank_data"].get(), o.f["m_dense_data"].get()
    if not c.ieq(o.f["m_storage_type"].get(), LOWRANK): return False, "not marked as low rank"
    if not isinstance(p, Ptr) or p.cell is None: return False, "no low-rank data"
    if not (isinstance(q, Ptr) and q.cell is None): return False, "dense data present"
    ok, d = factors_of(it, p.cell.get(), hT(h), hS(h), r0, eps)
    if ok: ok, d = same(it, p.cell.get().f["m_epsilon"].get(), eps, "m_epsilon")
    return ok, d
def loosen(s, h):
    for n in ("m_dense_data", "m_low_rank_data", "m_storage_type"): s.dontcare.add(id(h.get().f[n]))
def dense_data(s, f, this, a):
    ctx = s.ctx; block(s, a[0], csz(hT(this)), csz(hS(this)), coff(hT(this)), coff(hS(this))); loosen(s, this)
    s.postchecks.append(("the dense data are the generator's entries of the block", lambda it, r: isdense(it, this, a[0])))
C.append(Contract(HM + "compute_dense_data", mk_block, dense_data, inline_at_calls=True, title=HM + "compute_dense_data"))
def low_rank_data(s, f, this, a):
    ctx = s.ctx; block(s, a[0], csz(hT(this)), csz(hS(this)), coff(hT(this)), coff(hS(this))); loosen(s, this); r0 = ip(a[2].get()); e = a[3].get()
    s.postchecks.append(("the low-rank data are the compressor's factors of the block", lambda it, r: islow(it, this, a[0], r0, e)))
C.append(Contract(HM + "compute_low_rank_data", mk_block, low_rank_data, inline_at_calls=True, title=HM + "compute_low_rank_data"))
# ---- all the blocks
def mk_builder(it, f):
    ctx = it.ctx; t = strip(f["cls"]); o = Obj(ctx, t, "this"); T, S = cluster_named(it, "target_root"), cluster_named(it, "source_root")
    F = lambda n, v, ft: o.f.__setitem__(n, Cell(ctx, v, ft, n))
    o.f["m_target_root_cluster"] = T; o.f["m_source_root_cluster"] = S
    F("m_epsilon", ctx.scal("epsilon", True), "double"); F("m_eta", ctx.scal("eta", True), "double")
    for n in ("m_reqrank", "m_target_partition_number", "m_partition_number_for_symmetry"): F(n, ctx.fint(n, -1), "int")
    for n in ("m_maxblocksize", "m_mintargetdepth", "m_minsourcedepth"): F(n, ctx.fint(n, 0), "unsigned int")
    F("m_false_positive", ctx.fint("m_false_positive", 0), "int"); F("m_is_block_tree_consistent", z3.Bool("consistent"), "bool")
    for n in ("m_symmetry_type", "m_UPLO_type"): F(n, ctx.fint(n, 0), "char")
    lr = "htool::VirtualLowRankGenerator<%s, double>" % num(ctx); F("m_low_rank_generator", Ptr(Cell(ctx, Obj(ctx, lr, "compressor"), lr, "compressor")), "std::shared_ptr<%s>" % lr)
    F("m_admissibility_condition", Ptr(Cell(ctx, Obj(ctx, "htool::VirtualAdmissibilityCondition<double>", "admissibility"), "htool::VirtualAdmissibilityCondition<double>", "admissibility")), "std::shared_ptr<htool::VirtualAdmissibilityCondition<double>>")
    F("m_dense_blocks_generator", NULL, "std::shared_ptr<htool::VirtualDenseBlocksGenerator<%s>>" % num(ctx))
    hm = hmtype(ctx)
    def tasks(nm):
        n = IPoly.atom(nm + ".count"); ctx.assume(n.z() >= 0)
        def elem(k):
            ln = "%s<%r>" % (nm, ctx.inorm(ip(k))); h = mk_empty(it, ln); return Cell(ctx, Ptr(h), hm + " *", ln)
        F("m_%s_tasks" % nm, AbsList(ctx, "std::vector<%s *>" % hm, nm, n, elem), "std::vector<%s *>" % hm)
    tasks("admissible"); tasks("dense")
    return Cell(ctx, o, t, "this"), args(it, f)
class Tasks:
    """every iteration computes the data of its block, whatever the others do"""
    def __init__(s, it, loop, L, g, b): s.it = it; s.loop = loop; s.L = L; s.g = g; s.b = b
    def owns(s, o, k): return o.name.startswith("%s<" % s.L.name if k is None else "%s<%r>" % (s.L.name, k))
    def post(s, k):
        it = s.it; c = it.ctx; h = s.L.at(k).get().cell; b = s.b; r0 = b.f["m_reqrank"].get()
        if s.L.name == "dense": ok, d = isdense(it, h, s.g)
        elif any(x == "the compressor gives up" for x in c.trace): ok, d = isdense(it, h, s.g)
        else: ok, d = islow(it, h, s.g, r0, b.f["m_epsilon"].get())
        return [("the %s block has its data" % s.L.name, ok, d)]
    def after(s, K): s.it.ctx.statics = dict(s.it.ctx.statics); s.it.ctx.statics["done " + s.L.name] = s.it.ctx.inorm(K)
def tasks_of(it, loop):
    """the loop runs over one of the two lists of blocks; which one is told by its bound"""
    from ..loops import Snap
    c = it.ctx; o = it.fr.this if hasattr(it.fr, "this") else None
    b = it.fr.thislv.get() if it.fr.thislv is not None else None
    g = next(v for v in it.fr.env.values() if isinstance(v, Cell) and isinstance(v.get(), Obj) and "gen" in v.get().ghost)
    names = {x for x in ("m_admissible_tasks", "m_dense_tasks") if x in repr(loop.n.get("c"))}
    if len(names) != 1: return None
    return Tasks(it, loop, b.f[names.pop()].get(), g, b)
FOREACH[TB + "compute_blocks"] = tasks_of
def blocks(s, f, this, a):
    """every block of the two lists gets its data"""
    ctx = s.ctx; o = this.get(); T, S = o.f["m_target_root_cluster"], o.f["m_source_root_cluster"]; nt, ns = gdims(ctx, a[0]); s.dontcare.add(id(o.f["m_false_positive"]))
    # the blocks are inside the generator's matrix (they are blocks of the two trees)
    for n in ("admissible", "dense"):
        L = o.f["m_%s_tasks" % n].get(); mk = L.mk
        def elem(k, mk=mk):
            e = mk(k); h = e.get().cell; z = ctx.zi; ctx.assume(z3.And(z(coff(hT(h)) + csz(hT(h))) <= z(nt), z(coff(hS(h)) + csz(hS(h))) <= z(ns))); return e
        L.mk = elem
    for n in ("admissible", "dense"):
        L = o.f["m_%s_tasks" % n].get()
        s.postchecks.append(("every %s block has its data" % n, lambda it, r, n=n, L=L: ("done " + n in it.ctx.statics and it.ctx.ieq(it.ctx.statics["done " + n], L.length), "done: %r of %r" % (it.ctx.statics.get("done " + n), L.length))))
C.append(Contract(TB + "compute_blocks", mk_builder, blocks, title=TB + "compute_blocks"))
