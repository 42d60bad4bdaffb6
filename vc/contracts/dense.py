"""Contracts of the dense matrix container and of the dense linear algebra (include/htool/matrix)."""
import z3
from ..terms import *
from ..engine import *
from .. import models as M
from ..contract import Contract, Spec

def num(ctx): return "double" if ctx.real else "std::complex<double>"
def mk_matrix(it, name, r=None, c=None, content=None, cell=True, piv=True):
    ctx = it.ctx; t = "htool::Matrix<%s>" % num(ctx)
    r = ctx.fint(name + ".rows", 0) if r is None else ip(r); c = ctx.fint(name + ".cols", 0) if c is None else ip(c)
    o = Obj(ctx, t, name)
    buf = Buf(ctx, r * c, ctx.gen(name, r, c) if content is None else content, name, num(ctx)); buf.ghost["owner"] = o
    o.f["m_number_of_rows"] = Cell(ctx, r, "int", name + ".m_number_of_rows"); o.f["m_number_of_cols"] = Cell(ctx, c, "int", name + ".m_number_of_cols")
    o.f["m_data"] = Cell(ctx, BPtr(buf, 0), num(ctx) + " *", name + ".m_data"); o.f["m_is_owning_data"] = Cell(ctx, True, "bool", name + ".m_is_owning_data")
    n = ctx.fint(name + ".npiv", 0)
    o.f["m_pivots"] = Cell(ctx, Vec(ctx, IBuf(ctx, n, z3.Array("piv_" + name, z3.IntSort(), z3.IntSort()), name + ".pivots"), "int"), "std::vector<int>", name + ".m_pivots")
    return Cell(ctx, o, t, name) if cell else o
def mk_scal(it, name): return Cell(it.ctx, it.ctx.scal(name), num(it.ctx), name)
def mk_int(it, name, lo=0): return Cell(it.ctx, it.ctx.fint(name, lo), "int", name)
def mk_char(it, name): return Cell(it.ctx, it.ctx.fint(name), "char", name)
def mk_ptr(it, name, size=None):
    ctx = it.ctx; size = ctx.fint(name + ".size", 0) if size is None else ip(size)
    return Cell(ctx, BPtr(Buf(ctx, size, Fill(None), name, num(ctx)), 0), num(ctx) + " *", name)
def shape_ptr(s, cell, r, c):
    """give the (verify mode) argument buffer the r x c layout; in call mode the caller's buffer must provide it"""
    p = cell.get()
    if s.mode == "verify":
        b = p.buf; s.ctx.assume_eq(b.size, ip(r) * ip(c)) if not b.size.is_const() else None
        b.size = s.ctx.inorm(ip(r) * ip(c)); b.content = s.ctx.gen(b.name, r, c)
def rows(m): return m.get().field("m_number_of_rows").get()
def cols(m): return m.get().field("m_number_of_cols").get()
def mat(s, m):
    """the matrix held by a Matrix object"""
    o = m.get(); r, c = rows(m), cols(m); p = o.field("m_data").get()
    return s.view(p, r, c, r)
def setmat(s, m, t):
    o = m.get(); r, c = rows(m), cols(m); p = o.field("m_data").get()
    s.write(p, r, c, t, r)
def opdims(t, r, c): return (r, c) if t == "N" else (c, r)
def simple(it, f, **kw):
    """symbolic arguments from the parameter types"""
    args = []
    for p in f["p"]:
        t = strip(p["t"]); nm = p["n"] or "arg"
        if t.startswith("htool::Matrix<"): args.append(mk_matrix(it, nm))
        elif t in SCALARS: args.append(mk_scal(it, nm))
        elif t == "char": args.append(mk_char(it, nm))
        elif t in INTS: args.append(mk_int(it, nm))
        elif t.endswith("*") and pointee(t) in SCALARS: args.append(mk_ptr(it, nm))
        else: raise Unsupported("argument type %s" % t)
    return None, args
C = []
def contract(name, mk=simple, **kw):
    def d(fn): C.append(Contract(name, mk, fn, **kw)); return fn
    return d
H = "htool::"

# out := alpha op(A) in + beta out
@contract(H + "add_matrix_vector_product", pred=lambda f: len(f["p"]) == 6 and "Matrix<" in f["p"][2]["t"] and "HMatrix" not in f["p"][2]["t"])
def _(s, f, this, a):
    t = s.char(a[0], "NTC", "trans"); A = mat(s, a[2]); r, c = opdims(t, rows(a[2]), cols(a[2])); gemv(s, a, A.op(t, s.ctx.realscal), r, c)
def gemv(s, a, A, r, c):
    ctx = s.ctx; al, be = s.scalar(a[1]), s.scalar(a[4])
    shape_ptr(s, a[3], c, 1); shape_ptr(s, a[5], r, 1)
    r, c = ctx.inorm(r), ctx.inorm(c)
    # empty products are left to BLAS: m or n equal to 0 leaves out untouched (quick return)
    y = s.view(a[5], r, 1)
    if ctx.branch(z3.Or(r.z() == 0, c.z() == 0)): return
    s.write(a[5], r, 1, A.mul(s.view(a[3], c, 1)).scale(al).add(y.scale(be)))
for nm, herm in (("add_symmetric_matrix_vector_product", False), ("add_hermitian_matrix_vector_product", True)):
    def fn(s, f, this, a, herm=herm):
        u = s.char(a[0], "LU", "UPLO"); s.req_eq("A is square", rows(a[2]), cols(a[2])); n = s.ctx.inorm(rows(a[2]))
        gemv(s, a, M.symof(s.ctx, mat(s, a[2]), u, herm), n, n)
    C.append(Contract(H + nm, simple, fn, pred=lambda f: "HMatrix" not in f["p"][2]["t"]))

def gemm_spec(s, A, B, al, be, Cm, cc):
    r = A.mul(B).scale(al).add(Cm.scale(be)); setmat(s, cc, r)
def isdense(i): return lambda f: len(f["p"]) > i and f["p"][i]["t"].replace("const ", "").startswith("htool::Matrix<")
@contract(H + "add_matrix_matrix_product", pred=lambda f: len(f["p"]) == 7 and isdense(3)(f) and isdense(4)(f) and isdense(6)(f))
def _(s, f, this, a):
    ctx = s.ctx; ta, tb = s.char(a[0], "NTC", "transa"), s.char(a[1], "NTC", "transb")
    ar, ac = opdims(ta, rows(a[3]), cols(a[3])); br, bc = opdims(tb, rows(a[4]), cols(a[4]))
    s.req_eq("inner dimensions agree", ac, br); s.req_eq("rows of C", rows(a[6]), ar); s.req_eq("columns of C", cols(a[6]), bc)
    gemm_spec(s, mat(s, a[3]).op(ta, ctx.realscal), mat(s, a[4]).op(tb, ctx.realscal), s.scalar(a[2]), s.scalar(a[5]), mat(s, a[6]), a[6])
for nm, herm in (("add_symmetric_matrix_matrix_product", False), ("add_hermitian_matrix_matrix_product", True)):
    def fn(s, f, this, a, herm=herm):
        side, u = s.char(a[0], "LR", "side"), s.char(a[1], "LU", "UPLO"); ctx = s.ctx
        s.req_eq("A is square", rows(a[3]), cols(a[3])); s.req_eq("C has the rows of B", rows(a[6]), rows(a[4])); s.req_eq("C has the columns of B", cols(a[6]), cols(a[4]))
        s.req_eq("A multiplies B", rows(a[3]), rows(a[4]) if side == "L" else cols(a[4]))
        A = M.symof(ctx, mat(s, a[3]), u, herm); B = mat(s, a[4])
        gemm_spec(s, A if side == "L" else B, B if side == "L" else A, s.scalar(a[2]), s.scalar(a[5]), mat(s, a[6]), a[6])
    C.append(Contract(H + nm, simple, fn, pred=lambda f: len(f["p"]) == 7 and isdense(3)(f), only="c" if herm else None))
# row-major: in (k x mu) and out (m x mu) stored by rows: the buffers hold the transposes, mu x k and mu x m
@contract(H + "add_matrix_matrix_product_row_major", pred=lambda f: isdense(3)(f) and len(f["p"]) == 8)
def _(s, f, this, a):
    ctx = s.ctx; ta = s.char(a[0], "NTC", "transa"); tb = s.char(a[1], "N", "transb"); r, c = opdims(ta, rows(a[3]), cols(a[3]))
    rm(s, a, mat(s, a[3]).op(ta, ctx.realscal), r, c)
def rm(s, a, A, r, c):
    ctx = s.ctx; mu = a[7].get(); s.req("mu >= 0", ctx.zi(mu) >= 0)
    shape_ptr(s, a[4], mu, c); shape_ptr(s, a[6], mu, r)
    al, be = s.scalar(a[2]), s.scalar(a[5]); r, c, mu = ctx.inorm(r), ctx.inorm(c), ctx.inorm(mu)
    X = s.view(a[4], mu, c); Y = s.view(a[6], mu, r)
    s.write(a[6], mu, r, X.mul(A.op("T", ctx.realscal)).scale(al).add(Y.scale(be)))
for nm, herm in (("add_symmetric_matrix_matrix_product_row_major", False), ("add_hermitian_matrix_matrix_product_row_major", True)):
    def fn(s, f, this, a, herm=herm):
        side, u = s.char(a[0], "L", "side"), s.char(a[1], "LU", "UPLO"); s.req_eq("A is square", rows(a[3]), cols(a[3])); n = s.ctx.inorm(rows(a[3]))
        rm(s, a, M.symof(s.ctx, mat(s, a[3]), u, herm), n, n)
    C.append(Contract(H + nm, simple, fn, pred=lambda f: isdense(3)(f)))
@contract(H + "scale", pred=lambda f: len(f["p"]) == 2 and isdense(1)(f))
def _(s, f, this, a): setmat(s, a[1], mat(s, a[1]).scale(s.scalar(a[0])))
@contract(H + "transpose", pred=lambda f: len(f["p"]) == 2 and isdense(0)(f))
def _(s, f, this, a):
    s.req_eq("rows of B", rows(a[1]), cols(a[0])); s.req_eq("columns of B", cols(a[1]), rows(a[0])); setmat(s, a[1], mat(s, a[0]).op("T", s.ctx.realscal))
@contract(H + "triangular_matrix_matrix_solve", pred=lambda f: len(f["p"]) == 7 and isdense(5)(f) and isdense(6)(f))
def _(s, f, this, a):
    side, u, t, dg = s.char(a[0], "LR", "side"), s.char(a[1], "LU", "UPLO"), s.char(a[2], "NTC", "transa"), s.char(a[3], "NU", "diag"); ctx = s.ctx
    s.req_eq("A is square", rows(a[5]), cols(a[5])); s.req_eq("dimensions", rows(a[5]), rows(a[6]) if side == "L" else cols(a[6]))
    # a matrix factorised by lu_factorization carries its row exchanges: its lower factor is P L
    T = M.triof(ctx, mat(s, a[5]), u, dg); al = s.scalar(a[4]); B = mat(s, a[6]); P = pivots(s, a[5]) if u == "L" else None
    iA = M.inv(ctx, T)
    if P is not None: iA = iA.mul(P.op("T"))
    setmat(s, a[6], (iA.op(t, ctx.realscal).mul(B) if side == "L" else B.mul(iA.op(t, ctx.realscal))).scale(al))
def pivots(s, m):
    """the row permutation of a matrix, None when it has no pivots.  Pivot arrays are those getrf produces: one entry per row,
    1 <= ipiv[j] <= n, and the last row is never exchanged (ipiv[n-1] = n)"""
    ctx = s.ctx; b = m.get().field("m_pivots").get().buf; n = ctx.inorm(rows(m))
    if ctx.branch(ctx.zi(b.size) <= 0): return None
    s.req_eq("one pivot per row", b.size, n)
    if s.mode == "verify": b.ghost["range"] = (1, n + 1)
    s.req("pivots of getrf: the last row is not exchanged", z3.Select(b.arr, ctx.zi(n - 1)) == n.z())
    return M.permof(ctx, BPtr(b, 0), n)
@contract(H + "lu_factorization", pred=isdense(0))
def _(s, f, this, a):
    ctx = s.ctx; s.req_eq("A is square", rows(a[0]), cols(a[0])); n = ctx.inorm(rows(a[0])); A0 = mat(s, a[0]); setmat(s, a[0], A0)
    p = a[0].get().field("m_data").get(); pc = a[0].get().field("m_pivots").get()
    if ctx.empty(n, n):
        nb = IBuf(ctx, n, z3.K(z3.IntSort(), z3.IntVal(0)), "ipiv"); pc.cell.set(nb); return
    nm = M.lu_name(ctx, A0); F = MTerm.of(Atom("gen", nm, n, n, real=ctx.real)); setmat(s, a[0], F)
    nb = IBuf(ctx, n, z3.Array("ipiv(%s)" % nm, z3.IntSort(), z3.IntSort()), "ipiv"); nb.ghost["range"] = (1, n + 1); pc.cell.set(nb)
    if s.mode == "call": ctx.assume(z3.Implies(n.z() > 0, z3.Select(nb.arr, ctx.zi(n - 1)) == n.z()))
    M.lu_rule(ctx, M.permof(ctx, BPtr(nb, 0), n), M.triof(ctx, F, "L", "U"), M.triof(ctx, F, "U", "N"), A0, nm)
@contract(H + "lu_solve", pred=lambda f: isdense(1)(f) and isdense(2)(f))
def _(s, f, this, a):
    ctx = s.ctx; t = s.char(a[0], "NTC", "trans"); s.req_eq("A is square", rows(a[1]), cols(a[1])); s.req_eq("rows of B", rows(a[2]), rows(a[1])); n = ctx.inorm(rows(a[1]))
    b = a[1].get().field("m_pivots").get().buf; s.req_eq("one pivot per row", b.size, n)
    A = mat(s, a[1]); Mi = M.inv(ctx, M.triof(ctx, A, "U", "N")).mul(M.inv(ctx, M.triof(ctx, A, "L", "U"))).mul(M.permof(ctx, BPtr(b, 0), n).op("T")).op(t, ctx.realscal)
    setmat(s, a[2], Mi.mul(mat(s, a[2])))
@contract(H + "cholesky_factorization", pred=lambda f: isdense(1)(f))
def _(s, f, this, a):
    ctx = s.ctx; u = s.char(a[0], "LU", "UPLO"); s.req_eq("A is square", rows(a[1]), cols(a[1])); n = ctx.inorm(rows(a[1])); A0 = mat(s, a[1]); setmat(s, a[1], A0)
    if ctx.empty(n, n): return
    S = M.symof(ctx, A0, u, True); nm = M.chol_name(ctx, u, S); F = MTerm.of(Atom("gen", nm, n, n, real=ctx.real)); setmat(s, a[1], F)
    M.chol_rule(ctx, M.triof(ctx, F, u, "N"), u, S, nm)
@contract(H + "cholesky_solve", pred=lambda f: isdense(1)(f) and isdense(2)(f))
def _(s, f, this, a):
    ctx = s.ctx; u = s.char(a[0], "LU", "UPLO"); s.req_eq("A is square", rows(a[1]), cols(a[1])); s.req_eq("rows of B", rows(a[2]), rows(a[1]))
    T = M.inv(ctx, M.triof(ctx, mat(s, a[1]), u, "N")); Hh = T.op("C", ctx.realscal)
    setmat(s, a[2], (Hh.mul(T) if u == "L" else T.mul(Hh)).mul(mat(s, a[2])))
