"""Contracts of the low-rank matrix algebra (include/htool/hmatrix/lrmat).  A LowRankMatrix denotes the product U V.
Products that end in a recompression are specified up to the truncation that recompression performs at the tolerance of the
object (the size of that truncation is the subject of the contracts of SVD_truncation and recompression)."""
import z3
from ..terms import *
from ..engine import *
from .. import models as M
from ..contract import Contract, Spec, same
from ..loops import sum_term, LOOPINV
from .dense import mk_matrix, mk_scal, mk_int, mk_char, mk_ptr, shape_ptr, rows, cols, mat, setmat, opdims, isdense, num, rm, gemv, H, simple as dsimple
C = []
def contract(name, mk=None, **kw):
    def d(fn): C.append(Contract(name, mk or simple, fn, **kw)); return fn
    return d
def lrtype(ctx): return "htool::LowRankMatrix<%s, double>" % num(ctx) if any(k.startswith("htool::LowRankMatrix<%s, double>" % num(ctx)) for k in ctx.prog.records) else "htool::LowRankMatrix<%s>" % num(ctx)
def mk_lrmat(it, name, r=None, c=None, k=None, cell=True):
    ctx = it.ctx; t = lrtype(ctx); o = Obj(ctx, t, name)
    r = ctx.fint(name + ".rows", 1) if r is None else ip(r); c = ctx.fint(name + ".cols", 1) if c is None else ip(c); k = ctx.fint(name + ".rank", 0) if k is None else ip(k)
    o.f["m_U"] = mk_matrix(it, name + ".U", r, k); o.f["m_V"] = mk_matrix(it, name + ".V", k, c)
    o.f["m_epsilon"] = Cell(ctx, ctx.scal(name + ".eps", True), "double", name + ".m_epsilon")
    return Cell(ctx, o, t, name) if cell else o
def mk_cluster(it, name):
    ctx = it.ctx; t = "htool::Cluster<double>"; o = Obj(ctx, t, name)
    o.f["m_offset"] = Cell(ctx, ctx.fint(name + ".offset", 0), "int", name + ".m_offset"); o.f["m_size"] = Cell(ctx, ctx.fint(name + ".size", 1), "int", name + ".m_size")
    return Cell(ctx, o, t, name)
def simple(it, f, **kw):
    args = []
    for p in f["p"]:
        t = strip(p["t"]); nm = p["n"] or "arg"
        if t.startswith("htool::LowRankMatrix<"): args.append(mk_lrmat(it, nm))
        elif t.startswith("htool::Cluster<"): args.append(mk_cluster(it, nm))
        elif t.startswith("std::vector<") and tmpl(t)[1][0] in SCALARS:
            et = tmpl(t)[1][0]; n = it.ctx.fint(nm + ".size", 0); args.append(Cell(it.ctx, Vec(it.ctx, Buf(it.ctx, n, it.ctx.gen(nm, n, 1), nm, et), et), t, nm))
        elif t == "double" and not it.ctx.real: args.append(Cell(it.ctx, it.ctx.scal(nm, True), t, nm))
        else: args += dsimple(it, {"p": [p]})[1]
    return None, args
def UV(l): o = l.get(); return o.field("m_U"), o.field("m_V")
def lrank(l): return cols(UV(l)[0])
def lrows(l): return rows(UV(l)[0])
def lcols(l): return cols(UV(l)[1])
def lval(s, l):
    U, V = UV(l); s.req_eq("inner dimensions of the low-rank factors agree", cols(U), rows(V))
    return s.ctx.mnorm(mat(s, U).mul(mat(s, V)))
def wf(s, l):
    """well-formed low-rank operand of positive dimensions"""
    s.req("low-rank block is not empty", z3.And(s.ctx.zi(lrows(l)) >= 1, s.ctx.zi(lcols(l)) >= 1))
def matrix_cells(m):
    o = m.get(); out = [c for c in o.f.values()]
    p = o.field("m_data").get()
    if isinstance(p, BPtr): out.append(p.buf)
    pv = o.field("m_pivots").get()
    if isinstance(pv, Vec): out += [pv.cell, pv.buf]
    return out
def release(s, m):
    """the storage of a matrix may be replaced"""
    for c in matrix_cells(m): s.dontcare.add(id(c))
def fresh_matrix(s, m, r, c, name, content=None):
    ctx = s.ctx; o = m.get(); b = Buf(ctx, ctx.inorm(ip(r) * ip(c)), content if content is not None else ctx.gen(ctx.fresh(name), r, c), name, num(ctx))
    o.field("m_number_of_rows").set(ip(r)); o.field("m_number_of_cols").set(ip(c)); o.field("m_data").set(BPtr(b, 0)); o.field("m_is_owning_data").set(True)
    return mat(s, m)
def set_lr(s, l, val, rank_lo=0, rank_hi=None, rank=None):
    """U V := val; the factors are unspecified beyond that (and their rank, if it is given)"""
    ctx = s.ctx; U, V = UV(l); r, c = ctx.inorm(val.r), ctx.inorm(val.c)
    if s.mode == "verify":
        release(s, U); release(s, V); val = ctx.mnorm(val); hi = None if rank_hi is None else ctx.inorm(rank_hi)
        def post(it, ret):
            if not (ctx.ieq(rows(U), r) and ctx.ieq(cols(V), c)): return False, "U V is %r x %r instead of %r x %r" % (ctx.inorm(rows(U)), ctx.inorm(cols(V)), r, c)
            if not ctx.ieq(cols(U), rows(V)): return False, "U has %r columns and V %r rows" % (ctx.inorm(cols(U)), ctx.inorm(rows(V)))
            if hi is not None and not ctx.ile(cols(U), hi): return False, "rank %r is not known to be at most %r" % (ctx.inorm(cols(U)), hi)
            if rank is not None and not ctx.ieq(cols(U), rank): return False, "rank %r instead of %r" % (ctx.inorm(cols(U)), rank)
            for m in (U, V):
                if m.get().field("m_is_owning_data").get() is not True: return False, "factor does not own its data"
            got = ctx.mnorm(mat(s, U).mul(mat(s, V))); ok, d = ctx.meq(got, val)
            return ok or ctx.empty(r, c), "U V - expected = %r" % (d,)
        s.postchecks.append(("value of the low-rank matrix %s" % l.name, post))
        return
    k = ctx.fint("rank", rank_lo) if rank is None else ctx.inorm(rank)
    if rank_hi is not None: ctx.assume(k.z() <= ctx.zi(rank_hi))
    a = fresh_matrix(s, U, r, k, "U'"); b = fresh_matrix(s, V, k, c, "V'")
    if a.t and b.t: ctx.fold([M.single_atom(a), M.single_atom(b)], ctx.mnorm(val))
islr = lambda i: (lambda f: len(f["p"]) > i and f["p"][i]["t"].replace("const ", "").startswith("htool::LowRankMatrix<"))

@contract(H + "add_lrmat_vector_product")
def _(s, f, this, a):
    wf(s, a[2]); t = s.char(a[0], "NTC", "trans"); r, c = opdims(t, lrows(a[2]), lcols(a[2])); gemv(s, a, lval(s, a[2]).op(t, s.ctx.realscal), r, c)
@contract(H + "add_lrmat_matrix_product_row_major")
def _(s, f, this, a):
    wf(s, a[3]); t = s.char(a[0], "NTC", "transa"); s.char(a[1], "N", "transb"); r, c = opdims(t, lrows(a[3]), lcols(a[3])); rm(s, a, lval(s, a[3]).op(t, s.ctx.realscal), r, c)
def kind(p): return "L" if "LowRankMatrix<" in p["t"] else "D"
def dims(m, k): return (rows(m), cols(m)) if k == "D" else (lrows(m), lcols(m))
def val(s, m, k): return mat(s, m) if k == "D" else lval(s, m)
def product(s, f, this, a):
    """C := alpha op(A) op(B) + beta C, each of A, B, C dense or low-rank"""
    ctx = s.ctx; ka, kb, kc = kind(f["p"][3]), kind(f["p"][4]), kind(f["p"][6])
    for x, k in ((a[3], ka), (a[4], kb), (a[6], kc)):
        if k == "L": wf(s, x)
    ta, tb = s.char(a[0], "NTC", "transa"), s.char(a[1], "NTC", "transb")
    ar, ac = opdims(ta, *dims(a[3], ka)); br, bc = opdims(tb, *dims(a[4], kb)); cr, cc = dims(a[6], kc)
    s.req_eq("inner dimensions agree", ac, br); s.req_eq("rows of C", cr, ar); s.req_eq("columns of C", cc, bc)
    A, B = val(s, a[3], ka).op(ta, ctx.realscal), val(s, a[4], kb).op(tb, ctx.realscal)
    if kc == "L" and ka == kb == "D": s.req("operands are not empty", ctx.zi(ac) >= 1)
    al, be = s.scalar(a[2]), s.scalar(a[5]); v = ctx.mnorm(A.mul(B).scale(al).add(val(s, a[6], kc).scale(be)))
    if kc == "D": setmat(s, a[6], v)
    else: set_lr(s, a[6], v)
for nm in ("add_lrmat_matrix_product", "add_matrix_lrmat_product", "add_lrmat_lrmat_product", "add_matrix_matrix_product"):
    C.append(Contract(H + nm, simple, product, pred=lambda f: len(f["p"]) == 7 and any(islr(i)(f) for i in (3, 4, 6)) and not any("HMatrix<" in p["t"] for p in f["p"]), title=H + nm + " (low-rank)", budget=240))
@contract(H + "scale", pred=islr(1), title=H + "scale (low-rank)")
def _(s, f, this, a): wf(s, a[1]); set_lr(s, a[1], lval(s, a[1]).scale(s.scalar(a[0])), rank=lrank(a[1]))
@contract(H + "add_lrmat_lrmat", budget=240)
def _(s, f, this, a):
    """Y += X extended by zero to, or restricted to, the block of Y"""
    ctx = s.ctx; X, Xt, Xs, Y, Yt, Ys = a; wf(s, X); wf(s, Y)
    off = lambda c: c.get().field("m_offset").get()
    sz = lambda c: c.get().field("m_size").get()
    s.req_eq("rows of X", lrows(X), sz(Xt)); s.req_eq("columns of X", lcols(X), sz(Xs)); s.req_eq("rows of Y", lrows(Y), sz(Yt)); s.req_eq("columns of Y", lcols(Y), sz(Ys))
    def contains(p, q): return z3.And(ctx.zi(off(p)) <= ctx.zi(off(q)), ctx.zi(off(q) + sz(q)) <= ctx.zi(off(p) + sz(p)))
    ext = z3.And(contains(Yt, Xt), contains(Ys, Xs)); rst = z3.And(contains(Xt, Yt), contains(Xs, Ys))
    if s.mode == "call": s.req("one block contains the other", z3.Or(ext, rst))
    x, y = lval(s, X), lval(s, Y)
    if ctx.branch(ext):
        r = MTerm.of(ctx.sel(sz(Yt), off(Xt) - off(Yt), sz(Xt))); c = MTerm.of(ctx.sel(sz(Ys), off(Xs) - off(Ys), sz(Xs))); set_lr(s, Y, y.add(r.mul(x).mul(c.op("T"))))
    elif ctx.branch(rst):
        r = MTerm.of(ctx.sel(sz(Xt), off(Yt) - off(Xt), sz(Yt))); c = MTerm.of(ctx.sel(sz(Xs), off(Ys) - off(Xs), sz(Ys))); set_lr(s, Y, y.add(r.op("T").mul(x).mul(c)))
@contract(H + "recompression", pred=lambda f: islr(0)(f) and not f["p"][0]["t"].startswith("const"), budget=200)
def _(s, f, this, a):
    wf(s, a[0]); s.req("positive rank", s.ctx.zi(lrank(a[0])) >= 1); set_lr(s, a[0], lval(s, a[0]), rank_hi=lrank(a[0]))
    if s.mode == "verify":
        ctx = s.ctx; ctx.sumrules.append(M.tri_rule); e = s.scalar(a[0].get().field("m_epsilon"))
        def post(it, ret):
            t = truncs(ctx)
            if len(t) != 1: return False, "%d truncations" % len(t)
            return ctx.snorm(t[0][0] - e).is_zero(), "truncated at %r instead of the tolerance of the block" % (t[0][0],)
        s.postchecks.append(("truncated once, at the tolerance of the block", post))
@contract(H + "recompression", pred=lambda f: islr(0)(f) and f["p"][0]["t"].startswith("const"), title=H + "recompression (copy)")
def _(s, f, this, a):
    ctx = s.ctx; wf(s, a[0]); s.req("positive rank", ctx.zi(lrank(a[0])) >= 1); v = lval(s, a[0])
    if s.mode == "call":
        n = mk_lrmat(s.it, ctx.fresh("recompressed"), lrows(a[0]), lcols(a[0]), 0); set_lr(s, n, v); n.get().field("m_epsilon").set(a[0].get().field("m_epsilon").get()); s.ret = Ptr(n); return
    r, c, eps = lrows(a[0]), lcols(a[0]), a[0].get().field("m_epsilon").get()
    def post(it, ret):
        l = ret.cell; U, V = UV(l)
        if not (ctx.ieq(rows(U), r) and ctx.ieq(cols(V), c) and ctx.ieq(cols(U), rows(V))): return False, "dimensions"
        if l is a[0] or mat_buf(U) is mat_buf(UV(a[0])[0]): return False, "shares storage with the argument"
        ok, d = ctx.meq(ctx.mnorm(mat(s, U).mul(mat(s, V))), v); return ok, "U V - expected = %r" % (d,)
    s.postchecks.append(("value of the recompressed copy", post))
def mat_buf(m): p = m.get().field("m_data").get(); return p.buf if isinstance(p, BPtr) else None
def svd_truncation(s, f, this, a):
    """A = u S vt by the full decomposition; the rank k returned is the smallest one of 1..min(M,N) that leaves out singular values
    whose root sum of squares is below eps times that of all.  (In the algebra, what is left out counts as zero.)"""
    ctx = s.ctx; A, eps, u, vt, sv = a; m, n = ctx.inorm(rows(A)), ctx.inorm(cols(A)); s.req("A is not empty", z3.And(m.z() >= 1, n.z() >= 1)); A0 = mat(s, A); p = ctx.inorm(minof(ctx, m, n)); e = s.scalar(eps)
    if s.mode == "call":
        k = ctx.fint("truncated_rank", 1); ctx.assume(k.z() <= p.z()); k = p if ctx.branch(k.z() == p.z()) else k; fu, fv, svt = svd_effect(s, A, u, vt, sv, A0, m, n, p)
        svd_rules(ctx, fu, fv, svt, m, n, p, k, A0); s.ret = k; truncs(ctx).append((e, A0, k)); return
    fu, fv, svt = svd_effect(s, A, u, vt, sv, A0, m, n, p); cumulate(ctx, M.single_atom(svt)[0])
    def post(it, ret):
        k = ctx.inorm(ret)
        if not ctx.prove(z3.And(k.z() >= 1, k.z() <= p.z())): return False, "rank %r outside of 1..min(M,N)" % (k,)
        if not ctx.ieq(k, p) and not ctx.branch(k.z() == p.z()) and not ctx.prove(within(it, svt, p, tail(ctx, svt, p, k), e)): return False, "what the rank leaves out is not known to be within the tolerance | solver: unknown"
        if ctx.ieq(k, 1) or ctx.branch(k.z() == 1): return True, ""
        return ctx.prove(neg(within(it, svt, p, ctx.mnorm(tail(ctx, svt, p, k).add(term(ctx, svt, p, k - 1))), e))), "one singular value less is not known to be out of tolerance | solver: unknown"
    s.postchecks.append(("the rank is the smallest that meets the tolerance", post))
def truncs(ctx):
    """the truncations made on the path: (tolerance, matrix, rank)"""
    if not hasattr(ctx, "truncations"): ctx.truncations = []
    return ctx.truncations
def cumulate(ctx, sv):
    """sums of squares of consecutive singular values as differences of the sums F(i) of the first i"""
    def F(i):
        i = ctx.inorm(i); nm = "F{%s}(%r)" % (sv.name, i); ctx.realscal.add(nm)
        return MTerm.zero(1, 1) if ctx.ieq(i, 0) else MTerm.scalar(SPoly.atom(nm))
    def rule(ctx, w):
        if len(w) not in (2, 4) or w[0] != (sv, "T") or w[-1] != (sv, "N"): return None
        if len(w) == 2: return (F(sv.rows),)
        (a, o), (b, p) = w[1:3]
        if not (a.kind == b.kind == "sel" and o == "N" and p == "T" and ctx.ieq(a.off, b.off) and ctx.ieq(a.cols, b.cols)) or "k[" in repr(a.off): return None       # (not under the index of a counted loop, which is summed as it is)
        return (F(a.off + a.cols).add(F(a.off), -1),)
    ctx.wordrules.append(rule)
def neg(b): return (not b) if isinstance(b, bool) else z3.Not(b)
def entry(ctx, svt, p, i): return ctx.mnorm(svt if ctx.ieq(p, 1) else MTerm.of(ctx.sel(p, i, 1), "T").mul(svt))
def term(ctx, svt, p, i): return ctx.smul(entry(ctx, svt, p, i), entry(ctx, svt, p, i))
def tail(ctx, svt, p, j):
    """sum of the squares of the singular values from j on"""
    l = ctx.inorm(p - j)
    if ctx.ieq(l, 0): return MTerm.zero(1, 1)
    x = svt if ctx.ieq(j, 0) else MTerm.of(ctx.sel(p, j, l), "T").mul(svt)
    return ctx.mnorm(x.op("T", ctx.realscal).mul(x))
def within(it, svt, p, t, e):
    """sqrt(t) / sqrt(sum of all squares) < eps"""
    ctx = it.ctx; root = lambda x: ctx.scal("sqrt(%r)" % (ctx.mnorm(x),), True); nrm = root(svt.op("T", ctx.realscal).mul(svt))
    return it.cmp("<", it.sarith("/", root(t), nrm), MTerm.scalar(e))
def mentioned(it, n):
    """the variables that a statement mentions"""
    out, seen = [], set()
    def go(x):
        if isinstance(x, dict):
            if x.get("k") == "Ref" and x.get("id") in it.fr.env and x["id"] not in seen: seen.add(x["id"]); out.append(it.fr.env[x["id"]])
            for y in x.values(): go(y)
        elif isinstance(x, list):
            for y in x: go(y)
    go(n); return out
class SvdInv:
    """the number j of singular values kept and the sum of the squares of the others; every rank left so far was within the tolerance"""
    def __init__(s, it, loop):
        s.it = it; s.ctx = ctx = it.ctx; s.svt = None; used = mentioned(it, loop.n)
        for v in used:
            x = v.get() if isinstance(v, (Cell, Tmp)) else None
            if isinstance(x, Vec) and isinstance(x.buf, Buf) and isinstance(x.buf.content, MTerm):
                w = M.single_atom(ctx.mnorm(x.buf.content))
                if w and getattr(w[0], "tag", None) == "nonneg": s.svt = MTerm.of(w[0]); s.p = ctx.inorm(w[0].rows)
        if s.svt is None: raise Unsupported("singular values of the loop invariant")
        ints = [v for v in used if isinstance(v, Cell) and isinstance(v.get(), IPoly) and ctx.ieq(v.get(), s.p)]; errs = [v for v in used if isinstance(v, Cell) and isinstance(v.get(), MTerm) and ctx.mnorm(v.get()).is_zero()]
        eps = [v for v in used if isinstance(v, Cell) and v.name == "epsilon"]
        if len(ints) != 1 or len(errs) != 1 or len(eps) != 1: raise Unsupported("variables of the loop invariant %r" % ([[v.name for v in x] for x in (ints, errs, eps)],))
        s.j, s.err = ints[0], errs[0]; s.eps = it.spure(it.toscal(eps[0].get()))
    def facts(s, j, err):
        c = s.ctx; first = c.ieq(j, s.p)
        return [("the number of kept values is in range", z3.And(j.z() >= 1, j.z() <= s.p.z())), ("the rank left is within the tolerance", True if first else z3.Or(j.z() == s.p.z(), within(s.it, s.svt, s.p, err, s.eps)))]
    def holds(s):
        c = s.ctx; j, err = c.inorm(s.j.get()), c.mnorm(s.err.get()); ok, d = c.meq(err, tail(c, s.svt, s.p, j))
        return [("the error is the sum of the squares left out", ok, "%r" % (d,))] + [(l, e, "") for l, e in s.facts(j, err)]
    def assume(s):
        c = s.ctx; j = c.fint("kept", 1); c.assume(j.z() <= s.p.z()); 
        if c.branch(j.z() == s.p.z()): j = s.p; s.err.set(MTerm.zero(1, 1))
        else:
            if c.branch(j.z() == 1): j = ip(1)
            s.err.set(tail(c, s.svt, s.p, j))
        s.j.set(j)
        for l, e in s.facts(j, s.err.get()):
            if not isinstance(e, bool): c.assume(e)
LOOPINV[H + "SVD_truncation"] = lambda it, loop: SvdInv(it, loop) if loop.kind in ("Do", "While") else None
def minof(ctx, m, n):
    if ctx.ile(m, n): return m
    if ctx.ile(n, m): return n
    return m if ctx.branch(m.z() <= n.z()) else n
def svd_effect(s, A, u, vt, sv, A0, m, n, p):
    ctx = s.ctx; fu, fv, svt = M.svd_atoms(ctx, A0, m, n, p)
    if s.mode == "verify":
        for x in (A, u, vt): release(s, x)
        v = sv.get(); s.dontcare |= {id(v.cell), id(v.buf)}
        def post(it, ret):
            for x, k, val in ((u, m, fu), (vt, n, fv)):
                if not (ctx.ieq(rows(x), k) and ctx.ieq(cols(x), k)): return False, "%s has not the order of its side" % x.name
                ok, d = ctx.meq(mat(s, x), val)
                if not ok: return False, "%s: actual - expected = %r" % (x.name, d)
                if x.get().field("m_is_owning_data").get() is not True: return False, "%s does not own its data" % x.name
            b = sv.get().buf
            if not ctx.ieq(b.size, p): return False, "%r singular values instead of min(M,N)" % (ctx.inorm(b.size),)
            ok, d = ctx.meq(M.flat_read(ctx, BPtr(b, 0), p)[0], svt); return ok, "singular values: actual - expected = %r" % (d,)
        s.postchecks.append(("the singular values and vectors of A", post)); return fu, fv, svt
    fresh_matrix(s, u, m, m, "u", fu); fresh_matrix(s, vt, n, n, "vt", fv)
    sv.get().cell.set(Buf(ctx, p, svt, "singular_values", "double")); setmat(s, A, ctx.gen(ctx.fresh("destroyed"), m, n))
    return fu, fv, svt
def svd_rules(ctx, u, vt, svt, m, n, p, k, A0):
    """u diag(sv) vt = A0, whichever way the singular values are split between the two factors"""
    i = "k[svd%d]" % ctx.n; ctx.n += 1; ia = IPoly.atom(i)
    ent = ctx.mnorm(MTerm.of(ctx.sel(p, ia, 1), "T").mul(svt))
    def coef(kind_):
        if kind_ == "1": return SPoly.const(1)
        nme = "sqrt(%r)" % (ent,); ctx.realscal.add(nme); return SPoly.atom(nme)
    def diag(r, c, kd): return sum_term(ctx, MTerm.of(ctx.sel(r, ia, 1)).mul(MTerm.of(ctx.sel(c, ia, 1), "T")).scale(coef(kd)), i, k)
    fu, fv = M.single_atom(u), M.single_atom(vt)
    d1, d2 = diag(m, k, "s"), diag(k, k, "s"); rest = [] if ctx.ieq(k, n) else [(ctx.sel(n, 0, k), "T")]
    ctx.fold([fu, M.single_atom(d1), M.single_atom(d2)] + rest + [fv], A0)
    d3 = diag(k, n, "s")
    ctx.fold([fu, M.single_atom(d1), M.single_atom(d3), fv], A0)
C.append(Contract(H + "SVD_truncation", simple, svd_truncation, budget=240))
@contract(H + "LowRankMatrix::copy_to_dense", mk=lambda it, f: (mk_lrmat(it, "lrmat"), dsimple(it, f)[1]))
def _(s, f, this, a):
    wf(s, this); v = lval(s, this); shape_ptr(s, a[0], lrows(this), lcols(this)); s.write(a[0], lrows(this), lcols(this), v)
