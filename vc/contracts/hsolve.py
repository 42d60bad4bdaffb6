"""Contracts of the solves with a triangular hierarchical matrix (include/htool/hmatrix/linalg/triangular_hmatrix_*_solve.hpp) and of
the solves with its factors (factorization.hpp).

The factor of a square block A is one symbol F = fac(uplo, diag, A).  What it stands for: on a dense leaf, the triangle of the data (with
the row exchanges of the leaf, for the lower factor of an LU); on a divided block, the triangular matrix whose diagonal blocks are the
factors of the diagonal sub-blocks, whose other blocks in the triangle are the sub-blocks, and which is zero in the other triangle.
A right-hand side is F X for a matrix X (F is not singular): the solve must return X.
Facts about the block tree used (property P05): both clusters of A are the same node; if it has a rank its children, otherwise the parts
of the partition, tile it in order; every pair of them in the triangle is a block of A; off-diagonal ones have no symmetry."""
import z3
from ..terms import *
from ..engine import *
from .. import models as M
from ..contract import Contract, Spec, same
from ..loops import STATE
from .dense import rows, cols, mat, setmat, isdense, num, rm, pivots, H
from .hmatrix import hmtype, hT, hS, coff, csz, hsym, hsyml, hmat, mk_hm, cluster_named, matname, bz, ORD, DENSE, LOWRANK, HIER
from . import hmatrix as HMX, lrmat as LR
C = []
HM = H + "HMatrix::"; CT = "htool::Cluster<double>"; TDT = "htool::ClusterTreeData<double>"
And, Or, Imp = z3.And, z3.Or, z3.Implies
class Cut:
    """the sub-clusters of a cluster: positions 0 = cut(0) < cut(1) < ... < cut(K) = size"""
    def __init__(s, ctx, name, X, K): s.ctx = ctx; s.name = name; s.X = X; s.K = K; s.seen = []
    def __call__(s, k):
        c = s.ctx; k = c.inorm(ip(k))
        if c.ieq(k, 0): return ip(0)
        if c.ieq(k, s.K): return csz(s.X)
        a = IPoly.atom("%s.cut<%r>" % (s.name, k)); z = c.zi
        if not any(k == j for j, _ in s.seen):
            c.assume(Imp(And(z(k) > 0, z(k) < z(s.K)), And(a.z() > 0, a.z() < z(csz(s.X))))); c.assume(And(Imp(z(k) == 0, a.z() == 0), Imp(z(k) == z(s.K), a.z() == z(csz(s.X)))))
            for j, b in s.seen: c.assume(And(Imp(And(z(k) < z(j), z(k) >= 0), a.z() + (z(j) - z(k)) <= b.z()), Imp(And(z(j) < z(k), z(j) >= 0), b.z() + (z(k) - z(j)) <= a.z()), Imp(z(j) == z(k), a.z() == b.z())))
            old = s.seen; s.seen = old + [(k, a)]; c.journal.append((Undo(s, old), None))
        return a
class Undo:
    def __init__(s, o, old): s.o = o; s.old = old
    def restore(s, v): s.o.seen = s.old
def node(it, name):
    """a cluster that may be divided; its sub-clusters"""
    ctx = it.ctx; o = Obj(ctx, CT, name); A = IPoly.atom; X = Cell(ctx, o, CT, name)
    for n in ("offset", "size", "depth", "rank", "counter"): o.f["m_" + n] = Cell(ctx, A(name + "." + n), "unsigned int" if n == "depth" else "int", name + ".m_" + n)
    o.f["m_is_root"] = Cell(ctx, z3.Bool(name + ".is_root"), "bool", name + ".m_is_root"); ctx.assume(And(coff(X).z() >= 0, csz(X).z() >= 1, A(name + ".depth").z() >= 0)); r = A(name + ".rank").z()
    nk, npart = A(name + ".nchildren"), A(name + ".nparts"); ctx.assume(And(nk.z() >= 0, npart.z() >= 1)); o.ghost["nchildren"] = nk
    o.ghost["cut"] = {"child": Cut(ctx, name + ".child", X, nk), "part": Cut(ctx, name + ".part", X, npart)}; td = Obj(ctx, TDT, name + ".data"); tdc = Cell(ctx, td, TDT, name + ".data")
    def elem(tag, n):
        cut = o.ghost["cut"][tag]
        def mk(k):
            k = ctx.inorm(ip(k)); nm = "%s.%s<%r>" % (name, tag, k); y = Obj(ctx, CT, nm); Y = Cell(ctx, y, CT, nm); a, b = cut(k), cut(k + 1)
            y.f["m_offset"] = Cell(ctx, ctx.inorm(coff(X) + a), "int", nm + ".m_offset"); y.f["m_size"] = Cell(ctx, ctx.inorm(b - a), "int", nm + ".m_size"); y.f["m_tree_data"] = Cell(ctx, Ptr(tdc), "std::shared_ptr<%s>" % TDT, nm + ".m_tree_data")
            y.f["m_depth"] = Cell(ctx, A(name + "." + tag + ".depth"), "unsigned int", nm + ".m_depth"); y.f["m_counter"] = Cell(ctx, A(nm + ".counter"), "int", nm + ".m_counter"); y.f["m_rank"] = Cell(ctx, A(nm + ".rank"), "int", nm + ".m_rank")
            for j in list(L.memo):
                z = ctx.zi; ctx.assume(Imp(z(k) == z(j), And(A(nm + ".counter").z() == A("%s.%s<%r>.counter" % (name, tag, j)).z(), A(nm + ".rank").z() == A("%s.%s<%r>.rank" % (name, tag, j)).z())))
            y.ghost["elemof"] = (L, k); y.ghost["of"] = (X, tag, k); ctx.assume(Imp(And(k.z() >= 0, k.z() < n.z()), And((b - a).z() >= 1, a.z() >= 0, b.z() <= csz(X).z())))
            return Cell(ctx, Ptr(Y), "std::unique_ptr<%s>" % CT, nm)
        L = AbsList(ctx, "std::vector<%s>" % ("std::unique_ptr<%s>" % CT if tag == "child" else "const %s *" % CT), "%s.%ss" % (name, tag), n, mk); return L
    kids, parts = elem("child", nk), elem("part", npart); o.f["m_children"] = Cell(ctx, kids, kids.t, name + ".m_children")
    td.f["m_clusters_on_partition"] = Cell(ctx, parts, parts.t, name + ".m_clusters_on_partition"); o.f["m_tree_data"] = Cell(ctx, Ptr(tdc), "std::shared_ptr<%s>" % TDT, name + ".m_tree_data")
    ctx.assume(Imp(nk.z() == 0, r >= 0)); return X
def mk_sq(it, name):
    """a square block on the diagonal"""
    X = node(it, name + ".X"); h = mk_hm(it, name, T=X, S=X); return h
def simple(it, f, **kw):
    args = []; first = True
    for p in f["p"]:
        t = strip(p["t"]); nm = p["n"] or "arg"
        if t.startswith("htool::HMatrix<"): args.append(mk_sq(it, nm) if first else mk_hm(it, nm)); first = False
        else: args += LR.simple(it, {"p": [p]})[1]
    return None, args
def square(s, h, u=None):
    """the block is on the diagonal and can be used as a triangular factor"""
    ctx = s.ctx; z = ctx.zi; T, S = hT(h), hS(h); st = z(h.get().field("m_storage_type").get())
    s.req("the factor is a block on the diagonal", T is S or ctx.prove(And(z(coff(T)) == z(coff(S)), z(csz(T)) == z(csz(S)))))
    if s.mode == "verify":
        HMX.leaf_inv(ctx, h); X = T.get(); r = z(X.f["m_rank"].get()); n = z(X.ghost["nchildren"])
        ctx.assume(st != LOWRANK); ctx.assume(Imp(st == HIER, n >= 1)); ctx.assume(Or(r < 0, r >= 0))
        if u is not None:
            y = z(hsym(h)); yl = z(hsyml(h)); ul = z(h.get().field("m_UPLO").get()); ctx.assume(Imp(y != ORD["N"], ul == ord(u)))
def fac(ctx, h, u, d):
    n = csz(hT(h)); return MTerm.of(Atom("gen", "fac%s%s{%s}" % (u, d, matname(h)), n, n, real=ctx.real, tag=("fac", u, d, matname(h))))
def leaf_value(s, h, u, d):
    """the factor of a dense leaf"""
    D = h.get().field("m_dense_data").get().cell; T = M.triof(s.ctx, mat(s, D), u, d); P = pivots(s, D) if u == "L" else None
    return T if P is None else P.mul(T)
class Blocks:
    """the sub-blocks of a divided square block, as a rewriting rule of words"""
    def __init__(s, it, h): s.it = it; s.ctx = it.ctx; s.h = h; s.X = hT(h); s.kids = []; s.name = h.get().ghost["hname"]; it.ctx.wordrules.append(s.rule)
    def reg(s, Y):
        s.kids.append(Y)
    def child(s, lo, ln):
        for Y in s.kids:
            if s.ctx.ieq(coff(Y) - coff(s.X), lo) and s.ctx.ieq(csz(Y), ln): return Y
        return None
    def rule(s, ctx, w):
        one = lambda fs: MTerm(1, 1, {tuple(fs): SPoly.const(1)})
        for i in range(1, len(w) - 1):
            (m, o), (a, oa), (b, ob) = w[i], w[i - 1], w[i + 1]
            isf = isinstance(m.tag, tuple) and m.tag[0] == "fac" and m.tag[3] == s.name + ".mat"; ism = m.name == s.name + ".mat"
            if not (isf or ism) or a.kind != "sel" or oa != "T" or b.kind != "sel" or ob != "N": continue
            R, Cc = (b, a) if OPS[o][0] else (a, b); z = ctx.zi
            x = None
            if isf:
                u, d = m.tag[1:3]; above = ctx.prove(z(R.off + R.cols) <= z(Cc.off)); below = not above and ctx.prove(z(Cc.off + Cc.cols) <= z(R.off))
                if above if u == "L" else below: return (None,)
                if below if u == "L" else above: x = ctx.gen(s.name + ".mat", csz(s.X), csz(s.X)).op(o, ctx.realscal); return (one(w[:i]).mul(x).mul(one(w[i + 1:])),)
                Y = s.child(R.off, R.cols)
                if Y is None or not (ctx.ieq(R.off, Cc.off) and ctx.ieq(R.cols, Cc.cols)): continue
                nm = s.subname(Y, Y) + ".mat"; x = MTerm.of(Atom("gen", "fac%s%s{%s}" % (u, d, nm), R.cols, R.cols, real=ctx.real, tag=("fac", u, d, nm)))
            else:
                Y, Z = s.child(R.off, R.cols), s.child(Cc.off, Cc.cols)
                if Y is None or Z is None: continue
                x = ctx.gen(s.subname(Y, Z) + ".mat", R.cols, Cc.cols)
            return (one(w[:i - 1]).mul(x.op(o, ctx.realscal)).mul(one(w[i + 2:])),)
        return None
    def subname(s, Y, Z):
        if s.ctx.ieq(coff(Y), coff(Z)) and s.ctx.ieq(csz(Y), csz(Z)): Z = Y
        return "%s.sub<%s|%s>" % (s.name, Y.name, Z.name)
OPS = HMX.OPS
def stored(s, h, Y, Z):
    """is the block (Y, Z) of h stored?  Always without symmetry; otherwise on the side of the stored triangle and on the diagonal"""
    z = s.ctx.zi; u = z(h.get().field("m_UPLO").get()); a, b = z(coff(Y)), z(coff(Z))
    return Or(z(hsym(h)) == ORD["N"], a == b, And(u == ord("L"), a > b), And(u == ord("U"), a < b))
def sub(s, f, this, a):
    """at a call: the block of the two clusters asked for, when they are sub-clusters of this"""
    ctx = s.ctx; h = this; B = h.get().ghost.get("blocks"); it = s.it
    if B is None: raise Unsupported("get_sub_hmatrix at a call")
    Y, Z = [x if isinstance(x.get(), Obj) else x.get().cell for x in a]
    for Q in (Y, Z):
        if Q.get().ghost.get("of", (None,))[0] is not hT(h): raise Unsupported("sub-block of other clusters")
        if not any(Q is k for k in B.kids): B.reg(Q)
    if not ctx.branch(stored(s, h, Y, Z)): s.ret = Ptr(None); return
    nm = B.subname(Y, Z); dg = ctx.prove(ctx.zi(coff(Y)) == ctx.zi(coff(Z)))
    g = h.get().ghost.setdefault("subs", {})
    if nm not in g:
        k = mk_hm(it, nm, T=Y, S=Y if dg else Z); g[nm] = k; ctx.journal.append((Pop(g, nm), None)); z = ctx.zi
        if dg: ctx.assume(Imp(z(hsym(h)) != ORD["N"], And(z(hsym(k)) == z(hsym(h)), z(k.get().field("m_UPLO").get()) == z(h.get().field("m_UPLO").get())))); ctx.assume(Imp(z(hsym(h)) == ORD["N"], z(hsym(k)) == ORD["N"]))
        else: ctx.assume(And(z(hsym(k)) == ORD["N"], z(hsyml(k)) == ORD["N"]))
    s.ret = Ptr(g[nm])
class Pop:
    def __init__(s, g, k): s.g = g; s.k = k
    def restore(s, v): s.g.pop(s.k, None)
C.append(Contract(HM + "get_sub_hmatrix", None, sub, verify=False))
# ---- row-major solve: B^T := alpha B^T op(F)^-T
def rowmajor(s, f, this, a):
    ctx = s.ctx; side = s.char(a[0], "L", "side"); u, t, d = s.char(a[1], "LU", "UPLO"), s.char(a[2], "NTC", "transa"), s.char(a[3], "NU", "diag"); al = s.scalar(a[4]); h, B = a[5], a[6]
    square(s, h, u); n = csz(hT(h)); s.req_eq("columns of the transposed right-hand side", cols(B), n); F = fac(ctx, h, u, d)
    if s.mode == "call": setmat(s, B, mat(s, B).mul(M.inv(ctx, F).op(t, ctx.realscal).op("T", ctx.realscal)).scale(al)); return
    kids = h.get().field("m_children").get().length
    if ctx.branch(ctx.zi(kids) == 0): ctx.assume(ctx.zi(h.get().field("m_storage_type").get()) == DENSE); F = leaf_value(s, h, u, d)
    else: h.get().ghost["blocks"] = Blocks(s.it, h)
    Y = ctx.gen("X", rows(B), n); p = B.get().field("m_data").get(); O = F.op(t, ctx.realscal); ctx.statics = dict(ctx.statics); ctx.statics["solve"] = (h, O, Y, (u == "L") == (t == "N"), al, p.buf if isinstance(p, BPtr) else None)
    ctx.adef[next(iter(p.buf.content.t))[0][0].key()] = Y.mul(O.op("T", ctx.realscal)); setmat(s, B, Y.scale(al))
C.append(Contract(H + "internal_triangular_hmatrix_matrix_solve_row_major", simple, rowmajor, title=H + "internal_triangular_hmatrix_matrix_solve_row_major", budget=300))
class Subst:
    """block forward (backward) substitution: after k blocks these are solved, the later ones are as they were"""
    def __init__(s, it, loop, info, outer=None):
        s.it = it; s.ctx = it.ctx; s.h, s.O, s.Y, s.fwd, s.al, s.buf = info; s.X = hT(s.h); s.outer = outer; s.loop = loop; s.cut = s.X.get().ghost["cut"]["part" if s.ctx.prove(s.ctx.zi(s.X.get().f["m_rank"].get()) < 0) else "child"]
        s.owns = {id(s.buf)}; s.k = None
    def pr(s, a, b):
        """projector on the blocks a, ..., b - 1 as a selector times its transpose"""
        c = s.ctx; n = csz(s.X); lo, hi = s.cut(a), s.cut(b); S = MTerm.of(c.sel(n, lo, hi - lo)); return S.mul(S.op("T"))
    def blk(s, r): return r if s.fwd else s.cut.K - 1 - r
    def done(s, r): return s.pr(0, r) if s.fwd else s.pr(s.cut.K - r, s.cut.K)
    def todo(s, r): return s.pr(r, s.cut.K) if s.fwd else s.pr(0, s.cut.K - r)
    def between(s, r, q): return s.pr(r, q) if s.fwd else s.pr(s.cut.K - q, s.cut.K - r)
    def one(s, r): b = s.blk(r); return s.pr(b, b + 1)
    def start(s):
        c = s.ctx; OT = s.O.op("T", c.realscal); v = s.Y.mul(OT).scale(s.al)
        if s.outer is None: return [(s.buf, v)]
        return [(s.buf, s.outer.before(s.outer.k))]
    def before(s, r):
        """content before round r, with block r apart"""
        c = s.ctx; OT = s.O.op("T", c.realscal); return s.Y.mul(s.done(r)).add(s.Y.mul(OT).mul(s.one(r))).add(s.Y.mul(OT).mul(s.todo(r + 1))).scale(s.al)
    def after(s, r):
        c = s.ctx; OT = s.O.op("T", c.realscal); return s.Y.mul(s.done(r)).add(s.Y.mul(s.one(r))).add(s.Y.mul(OT).mul(s.todo(r + 1))).scale(s.al)
    def mid(s, r, pieces):
        c = s.ctx; OT = s.O.op("T", c.realscal); v = s.Y.mul(s.done(r)).add(s.Y.mul(OT).mul(s.todo(r + 1)))
        for p in pieces: v = v.add(s.Y.mul(p).mul(OT).mul(s.one(r)))
        return v.scale(s.al)
    def pre(s, k):
        s.k = k; c = s.ctx; z = c.zi
        if s.outer is None: return [(s.buf, s.before(k))]
        o = s.outer; r = o.k
        if c.branch(z(k) < z(r)): return [(s.buf, o.mid(r, [o.one(k), o.between(k + 1, r), o.one(r)]))]
        if c.branch(z(k) == z(r)): return [(s.buf, o.mid(r, [o.one(r)]))]
        return [(s.buf, o.after(r))]
    def post(s, k):
        c = s.ctx; z = c.zi
        if s.outer is None: return [(s.buf, s.after(k))]
        o = s.outer; r = o.k
        if c.branch(z(k) < z(r)): return [(s.buf, o.mid(r, [o.between(k + 1, r), o.one(r)]))]
        return [(s.buf, o.after(r))]
    def end(s):
        if s.outer is None: return [(s.buf, s.Y.scale(s.al))]
        return [(s.buf, s.outer.after(s.outer.k))]
    def enter(s, k): s.ctx.substs = getattr(s.ctx, "substs", []) + [s]
    def leave(s): s.ctx.substs = s.ctx.substs[:-1]
def subst(it, loop, W):
    c = it.ctx; info = c.statics.get("solve")
    if info is None or "blocks" not in info[0].get().ghost or id(info[5]) not in W: return None
    st = getattr(c, "substs", [])
    if len(st) > 1: return None
    return Subst(it, loop, info, st[0] if st else None)
STATE[H + "internal_triangular_hmatrix_matrix_solve_row_major"] = subst
# ---- the other solves, over the contract of the row-major one
def solve(s, f, this, a):
    """B := alpha op(F)^-1 B (side L) or alpha B op(F)^-1 (side R)"""
    ctx = s.ctx; side, u, t, d = s.char(a[0], "LR", "side"), s.char(a[1], "LU", "UPLO"), s.char(a[2], "NTC", "transa"), s.char(a[3], "NU", "diag"); al = s.scalar(a[4]); h, B = a[5], a[6]
    square(s, h, u); n = csz(hT(h)); s.req_eq("dimension of the right-hand side", rows(B) if side == "L" else cols(B), n); I = M.inv(ctx, fac(ctx, h, u, d)).op(t, ctx.realscal)
    setmat(s, B, (I.mul(mat(s, B)) if side == "L" else mat(s, B).mul(I)).scale(al))
C.append(Contract(H + "internal_triangular_hmatrix_matrix_solve", simple, solve, title=H + "internal_triangular_hmatrix_matrix_solve"))
def solve_lr(s, f, this, a):
    """the same for a low-rank right-hand side: the matrix it represents, of the same rank"""
    ctx = s.ctx; side, u, t, d = s.char(a[0], "LR", "side"), s.char(a[1], "LU", "UPLO"), s.char(a[2], "NTC", "transa"), s.char(a[3], "NU", "diag"); al = s.scalar(a[4]); h, B = a[5], a[6]
    square(s, h, u); LR.wf(s, B); n = csz(hT(h)); U, V = LR.UV(B); s.req_eq("dimension of the right-hand side", rows(U) if side == "L" else cols(V), n); I = M.inv(ctx, fac(ctx, h, u, d)).op(t, ctx.realscal); v = LR.lval(s, B)
    if ctx.branch(ctx.zi(LR.lrank(B)) == 0): LR.set_lr(s, B, v, rank=LR.lrank(B)); return       # zero: nothing to solve
    LR.set_lr(s, B, ctx.mnorm((I.mul(v) if side == "L" else v.mul(I)).scale(al)), rank=LR.lrank(B))
C.append(Contract(H + "internal_triangular_hmatrix_lrmat_solve", simple, solve_lr, title=H + "internal_triangular_hmatrix_lrmat_solve"))
def factors(s, h, t): 
    """op of the inverse of the matrix that lu_factorization has factorised"""
    ctx = s.ctx; return M.inv(ctx, fac(ctx, h, "U", "N")).mul(M.inv(ctx, fac(ctx, h, "L", "U"))).op(t, ctx.realscal)
def spd(s, h, u):
    """inverse of the matrix that cholesky_factorization has factorised: L L^H or U^H U"""
    ctx = s.ctx; I = M.inv(ctx, fac(ctx, h, u, "N")); Ih = I.op("C", ctx.realscal); return Ih.mul(I) if u == "L" else I.mul(Ih)
def perm(s, h): from .cluster import P; return P(s.ctx, "P{%s}" % hT(h).get().name, csz(hT(h)))
def lu(s, f, this, a, user):
    ctx = s.ctx; t = s.char(a[0], "NTC", "trans"); h, X = a[1], a[2]; square(s, h); s.req_eq("rows of the right-hand side", rows(X), csz(hT(h))); I = factors(s, h, t)
    if user: I = perm(s, h).mul(I).mul(perm(s, h).op("T"))
    setmat(s, X, I.mul(mat(s, X)))
def chol(s, f, this, a, user):
    ctx = s.ctx; u = s.char(a[0], "LU", "UPLO"); h, X = a[1], a[2]; square(s, h, u); s.req_eq("rows of the right-hand side", rows(X), csz(hT(h))); I = spd(s, h, u)
    if user: I = perm(s, h).mul(I).mul(perm(s, h).op("T"))
    setmat(s, X, I.mul(mat(s, X)))
ish = lambda f: "HMatrix<" in f["p"][1]["t"]
for nm, fn, user in (("internal_lu_solve", lu, False), ("lu_solve", lu, True), ("internal_cholesky_solve", chol, False), ("cholesky_solve", chol, True)):
    C.append(Contract(H + nm, simple, (lambda s, f, this, a, fn=fn, user=user: fn(s, f, this, a, user)), pred=ish, title=H + nm + " (hierarchical)"))
