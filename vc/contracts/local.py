"""Contracts of the local operators (include/htool/local_operators).  A local operator stands for a matrix A with as many rows
as its target cluster and as many columns as its source cluster; the interface contract of the virtual product functions is
given once and every implementation is verified against it."""
import z3
from ..terms import *
from ..engine import *
from .. import models as M
from ..contract import Contract, Spec, same
from .dense import mk_matrix, mk_scal, mk_int, mk_char, mk_ptr, shape_ptr, rows, cols, mat, opdims, num, gemv, rm, H
from . import cluster as CL, hmatrix as HM
C = []
KINDS = ("LocalOperator", "LocalDenseMatrix", "LocalHMatrix")
def cls_of(t): return [k for k in KINDS if "::" + k + "<" in strip(t)][0]
def mk_this(it, f):
    ctx = it.ctx; t = strip(f["cls"]); o = Obj(ctx, t, "this"); k = cls_of(t)
    o.f["m_target_cluster"] = CL.mk_cluster(it, "target", parts=False); o.f["m_source_cluster"] = CL.mk_cluster(it, "source", parts=False)
    o.f["m_symmetry"] = mk_char(it, "symmetry"); o.f["m_UPLO"] = mk_char(it, "UPLO")
    for n in ("m_target_use_permutation_to_mvprod", "m_source_use_permutation_to_mvprod"): o.f[n] = Cell(ctx, z3.Bool(n), "bool", n)
    for c in ("m_target_cluster", "m_source_cluster"): ctx.assume(z3.And(CL.fld(o.f[c], "m_size").z() >= 1))
    nr, nc = CL.fld(o.f["m_target_cluster"], "m_size"), CL.fld(o.f["m_source_cluster"], "m_size")
    if k == "LocalDenseMatrix": o.f["m_data"] = mk_matrix(it, "data", nr, nc)
    if k == "LocalHMatrix":
        T, S = (HM.cluster_named(it, "data." + x) for x in "TS"); T.get().f["m_size"].set(nr); S.get().f["m_size"].set(nc); o.f["m_data"] = HM.mk_hm(it, "data", T, S)
    args = []
    for p in f["p"]:
        x = strip(p["t"]); n = p["n"] or "arg%d" % len(args)
        args.append(mk_scal(it, n) if x in SCALARS else mk_char(it, n) if x == "char" else mk_int(it, n) if x == "int" else mk_ptr(it, n))
    return Cell(ctx, o, t, "this"), args
def F(this, n): return this.get().field(n).get()
def dims(this): return CL.fld(this.get().field("m_target_cluster"), "m_size"), CL.fld(this.get().field("m_source_cluster"), "m_size")
def opmat(s, this, sym=None, uplo=None):
    """the matrix the operator stands for"""
    ctx = s.ctx; k = cls_of(this.get().t); nr, nc = dims(this)
    if k == "LocalOperator": return ctx.gen("A", nr, nc)
    d = this.get().field("m_data")
    if k == "LocalDenseMatrix": return mat(s, d) if sym is None else M.symof(ctx, mat(s, d), uplo, sym == "H")
    HM.hwf(s, d); return HM.hmat(s, d)
def symmetric(s, this, sym, uplo):
    """a symmetric or hermitian operator is square, and says so"""
    ctx = s.ctx; nr, nc = dims(this); s.req("the triangle given is that of the operator", ctx.zi(uplo.get()) == ctx.zi(F(this, "m_UPLO"))); s.req("the symmetry given is that of the operator", ctx.zi(sym.get()) == ctx.zi(F(this, "m_symmetry")))
    s.req_eq("a symmetric operator is square", nr, nc); y = s.char(sym, "S" if ctx.real else "SH", "symmetry"); u = s.char(uplo, "LU", "UPLO"); return y, u
def transok(s, this, t):
    if cls_of(this.get().t) == "LocalHMatrix": HM.transok(s, this.get().field("m_data"), t)
def vec(s, f, this, a):
    t = s.char(a[0], "NTC", "trans"); transok(s, this, t); r, c = opdims(t, *dims(this))
    gemv(s, [None, a[1], None, a[2], a[3], a[4]], opmat(s, this).op(t, s.ctx.realscal), r, c)
def vecs(s, f, this, a):
    y, u = symmetric(s, this, a[6], a[5]); t = s.char(a[0], "NT" if y == "S" else "NC", "trans"); r, c = opdims(t, *dims(this))
    symkind(s, this, y); gemv(s, [None, a[1], None, a[2], a[3], a[4]], opmat(s, this, y, u).op(t, s.ctx.realscal), r, c)
def symkind(s, this, y):
    if cls_of(this.get().t) == "LocalHMatrix": s.req("the hierarchical matrix has the symmetry of the operator", s.ctx.zi(HM.hsyml(this.get().field("m_data"))) == ord(y))
def row(s, f, this, a):
    t = s.char(a[0], "NTC", "trans"); transok(s, this, t); r, c = opdims(t, *dims(this))
    rm(s, [None, None, a[1], None, a[2], a[3], a[4], a[5]], opmat(s, this).op(t, s.ctx.realscal), r, c)
def rows_(s, f, this, a):
    y, u = symmetric(s, this, a[7], a[6]); t = s.char(a[0], "NT" if y == "S" else "NC", "trans"); r, c = opdims(t, *dims(this))
    symkind(s, this, y); rm(s, [None, None, a[1], None, a[2], a[3], a[4], a[5]], opmat(s, this, y, u).op(t, s.ctx.realscal), r, c)
for k in KINDS:
    for nm, fn in (("local_add_vector_product", vec), ("local_add_vector_product_symmetric", vecs), ("local_add_matrix_product_row_major", row), ("local_add_matrix_product_symmetric_row_major", rows_)):
        C.append(Contract(H + k + "::" + nm, mk_this, fn, title=H + k + "::" + nm))
# ---- what every local operator offers, whatever the implementation
def perm(s, this, side):
    c = this.get().field("m_%s_cluster" % side); n = CL.fld(c, "m_size")
    return CL.P(s.ctx, "P{%s}" % c.get().name, n) if s.ctx.branch(F(this, "m_%s_use_permutation_to_mvprod" % side)) else MTerm.ident(n)
def globalop(s, this):
    """the operator in the numbering of its arguments: P_t A P_s^T"""
    ctx = s.ctx; y = ctx.concretize(F(this, "m_symmetry"), [ord(c) for c in ("NS" if ctx.real else "NSH")], "symmetry")
    if y is None: raise PathEnd("precondition false")
    if chr(y) != "N":
        nr, nc = dims(this); s.req_eq("a symmetric operator is square", nr, nc); u = ctx.concretize(F(this, "m_UPLO"), [ord("L"), ord("U")], "UPLO")
        if u is None: raise PathEnd("precondition false")
    return perm(s, this, "target").mul(opmat(s, this)).mul(perm(s, this, "source").op("T"))
def big(s, cell, N, mu=None):
    """the (global) argument: N entries, or mu x N by rows"""
    if mu is None: shape_ptr(s, cell, N, 1)
    else: shape_ptr(s, cell, mu, N)
def at(p, off): p = p.get(); return BPtr(p.buf, p.off + off)
def nglob(s, this):
    """the number of entries of the global argument: the source cluster lies inside"""
    c = this.get().field("m_source_cluster").get(); N = IPoly.atom("global<%s>" % c.name); s.ctx.assume(N.z() >= s.ctx.zi(c.f["m_offset"].get() + c.f["m_size"].get())); return N
def product(s, f, this, a, mult, trans):
    ctx = s.ctx; al, be = s.scalar(a[0]), s.scalar(a[2]); nr, nc = dims(this); G = globalop(s, this); off = CL.fld(this.get().field("m_source_cluster"), "m_offset"); N = ctx.inorm(nglob(s, this))
    mu = None
    if mult: mu = a[4].get(); s.req("at least one column", ctx.zi(mu) >= 1)
    loc, glo = (a[1], a[3]) if trans else (a[3], a[1])
    big(s, glo, N, mu)
    if mult: shape_ptr(s, loc, mu, nr)
    else: shape_ptr(s, loc, nr, 1)
    v = lambda p, n: s.view(p, mu, n, mu) if mult else s.view(p, n, 1, n)
    g = at(glo, off * mu if mult else off); L, X = v(loc, nr), v(g, nc)
    if trans: new, dst, n = (L.mul(G) if mult else G.op("T").mul(L)).scale(al).add(X.scale(be)), g, nc
    else: new, dst, n = (X.mul(G.op("T")) if mult else G.mul(X)).scale(al).add(L.scale(be)), loc, nr
    if mult: s.write(dst, mu, n, new, mu)
    else: s.write(dst, n, 1, new, n)
for nm, mu_, tr_ in (("add_vector_product_global_to_local", False, False), ("add_matrix_product_global_to_local", True, False), ("add_vector_product_transp_local_to_global", False, True), ("add_matrix_product_transp_local_to_global", True, True)):
    C.append(Contract(H + "LocalOperator::" + nm, mk_this, (lambda s, f, this, a, m=mu_, t=tr_: product(s, f, this, a, m, t)), title=H + "LocalOperator::" + nm, budget=200))
# ---- the part of the input that some other subdomain owns
def sub_vec(s, f, this, a):
    """out := G restricted to the columns [offset, offset+size) times in, with size*mu entries of in by rows"""
    ctx = s.ctx; G = globalop(s, this); nr, nc = dims(this); mu, o, n = (ctx.inorm(a[i].get()) for i in (2, 3, 4)); so = CL.fld(this.get().field("m_source_cluster"), "m_offset")
    s.req("at least one column", ctx.zi(mu) >= 1); s.req("offset of the part", ctx.zi(o) >= 0); s.req("size of the part", ctx.zi(n) >= 0); s.req("the part ends with the source cluster at most", ctx.zi(o + n) <= ctx.zi(so + nc))
    N = ctx.inorm(so + nc)
    if s.mode == "verify": shape_ptr(s, a[0], mu, a[4].get())
    shape_ptr(s, a[1], mu, nr)
    X = s.view(a[0], mu, n, mu); X = X.mul(MTerm.of(ctx.sel(N, o, n), "T")).mul(MTerm.of(ctx.sel(N, so, nc)))
    s.write(a[1], mu, nr, X.mul(G.op("T")), mu)
def sub(s, f, this, a):
    ctx = s.ctx; G = globalop(s, this); nr, nc = dims(this); mu, o, n = (ctx.inorm(a[i].get()) for i in (2, 3, 4)); so = ctx.inorm(CL.fld(this.get().field("m_source_cluster"), "m_offset"))
    s.req("at least one column", ctx.zi(mu) >= 1); s.req("offset of the part", ctx.zi(o) >= 0); s.req("size of the part", ctx.zi(n) >= 1)
    if s.mode == "verify": shape_ptr(s, a[0], mu, n); b = a[1].get().buf; ctx.assume_eq(b.size, mu * nr); b.size = ctx.inorm(mu * nr); b.content = MTerm.zero(mu, nr)
    else:
        s.ctx.oblig("%s: precondition: out is zero" % s.name, s.ctx.mzero(s.view(a[1], mu, nr)))
    lo = so if ctx.branch(ctx.zi(o) <= ctx.zi(so)) else o
    hi = o + n if ctx.branch(ctx.zi(o + n) <= ctx.zi(so + nc)) else so + nc
    if ctx.branch(ctx.zi(hi) <= ctx.zi(lo)): return
    lo, hi, n, o, so, nc, mu = (ctx.inorm(x) for x in (lo, hi, n, o, so, nc, mu)); L = ctx.inorm(hi - lo)
    X = s.view(a[0], mu, n, mu).mul(MTerm.of(ctx.sel(n, lo - o, L))).mul(MTerm.of(ctx.sel(nc, lo - so, L), "T"))
    s.write(a[1], mu, nr, X.mul(G.op("T")), mu)
C.append(Contract(H + "LocalOperator::local_sub_matrix_vector_product", mk_this, sub_vec, title=H + "LocalOperator::local_sub_matrix_vector_product"))
C.append(Contract(H + "LocalOperator::sub_matrix_product_to_local", mk_this, sub, title=H + "LocalOperator::sub_matrix_product_to_local", budget=200))
