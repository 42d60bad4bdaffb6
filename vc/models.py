"""Assumed contracts of everything outside the repository: BLAS/LAPACK, the C++ standard library, MPI."""
import z3
from fractions import Fraction
from .terms import *
from .engine import *

N, T, C = ord("N"), ord("T"), ord("C")

def iv(interp, lv): return lv
def cellval(lv): return lv.get() if hasattr(lv, "get") else lv

class Blas:
    """assumed contracts of the Fortran routines, by routine name without type letter"""
    def __init__(s, it, vals): s.it = it; s.ctx = it.ctx; s.v = vals
    def ptr(s, i):
        p = s.v[i]
        return p
    def i(s, i):
        v = s.load(s.v[i]); return s.ctx.inorm(v)
    def load(s, p):
        if isinstance(p, Ptr): return p.cell.get()
        if isinstance(p, BPtr): return s.ctx.elem_get(p.buf, p.off)
        if isinstance(p, Opaque) and p.what.startswith("str:") and len(p.what) > 4: return IPoly.const(ord(p.what[4]))
        raise Unsupported("blas argument %r" % (p,))
    def ch(s, i, cands, what): 
        c = s.ctx.concretize(s.load(s.v[i]), [ord(x) for x in cands], what)
        if c is None: 
            s.ctx.oblig("%s argument is one of %s" % (what, cands), False, "path: " + " & ".join(s.ctx.trace[-8:])); raise PathEnd("bad char")
        s.ctx.oblig("%s argument is one of %s" % (what, cands), True)
        return chr(c)
    def sc(s, i): return s.load(s.v[i])
    def dims(s, *xs):
        for nm, x in xs: s.ctx.require("%s >= 0" % nm, x.z() >= 0)
    def opview(s, p, op, r, c, ld, nm):
        """op(X) of size r x c, X stored at p"""
        rr, cc = (c, r) if op != "N" else (r, c)
        s.ldok(ld, rr, nm)
        v = s.rd(p, rr, cc, ld)
        return s.ctx.mnorm(v.op(op, s.ctx.realscal))
    def ldok(s, ld, rows, nm): s.ctx.require("leading dimension of %s >= max(1, rows)" % nm, z3.Or(ld.z() >= rows.z()) if not s.ctx.prove(ld.z() >= rows.z()) else True)
    def rd(s, p, r, c, ld):
        if isinstance(p, BPtr): return s.ctx.view(p, r, c, ld)
        if isinstance(p, Ptr) and p.cell is None:
            s.ctx.require("null data only for empty blocks", z3.Or(r.z() <= 0, c.z() <= 0)); return MTerm.zero(r, c)
        if isinstance(p, Ptr) and isinstance(p.cell.get(), MTerm): return p.cell.get()
        raise Unsupported("blas data %r" % (p,))
    def wr(s, p, r, c, ld, m):
        if isinstance(p, BPtr): return s.ctx.write_view(p, r, c, ld, m)
        if isinstance(p, Ptr) and p.cell is None:
            s.ctx.require("null data only for empty blocks", z3.Or(r.z() <= 0, c.z() <= 0)); return
        if isinstance(p, Ptr) and isinstance(p.cell.get(), MTerm): s.it.store(p.cell, m); return
        raise Unsupported("blas data %r" % (p,))
    def axpby(s, beta, old, add):
        b = s.scalar(beta)
        o = old.scale(b) if b.t else MTerm.zero(old.r, old.c)
        return s.ctx.mnorm(o.add(add))
    def scalar(s, m):
        sp = s.it.spure(m)
        if sp is None: raise Unsupported("scaling by a matrix entry")
        return s.ctx.snorm(sp)
    def smul(s, a, m):
        if s.it.spure(a) is None:          # a scalar made of matrix entries: a 1x1 product next to a vector
            a = s.ctx.mnorm(a)
            if s.ctx.ieq(m.c, 1): return m.mul(a)
            if s.ctx.ieq(m.r, 1): return a.mul(m)
        return m.scale(s.scalar(a))
    def vec(s, p, n, inc):
        """n-vector with increment inc as an n x 1 term"""
        if inc.is_const() and inc.cval() == 1: return s.rd(p, n, ip(1), n)
        return s.ctx.mnorm(s.rd(p, ip(1), n, inc).op("T", s.ctx.realscal))
    def wvec(s, p, n, inc, m):
        if inc.is_const() and inc.cval() == 1: return s.wr(p, n, ip(1), n, m)
        return s.wr(p, ip(1), n, inc, m.op("T", s.ctx.realscal))
    # ---- routines
    def gemv(s):
        tr = s.ch(0, "NTC", "trans"); m, n = s.i(1), s.i(2); s.dims(("m", m), ("n", n)); al = s.sc(3); lda = s.i(5); s.ldok(lda, m, "A")
        A = s.rd(s.ptr(4), m, n, lda); ix, iy = s.i(7), s.i(10)
        lx, ly = (n, m) if tr == "N" else (m, n)
        # reference BLAS returns at once when m = 0 or n = 0
        c = s.ctx
        if c.branch(z3.Or(m.z() == 0, n.z() == 0)): return
        m, n = c.inorm(m), c.inorm(n)
        x = s.vec(s.ptr(6), lx, ix); be = s.sc(8); y = s.vec(s.ptr(9), ly, iy) if s.scalar(be).t else MTerm.zero(ly, 1)
        s.wvec(s.ptr(9), ly, iy, s.axpby(be, y, s.smul(al, A.op(tr, c.realscal).mul(x))))
    def gemm(s):
        ta, tb = s.ch(0, "NTC", "transa"), s.ch(1, "NTC", "transb"); m, n, k = s.i(2), s.i(3), s.i(4)
        s.dims(("m", m), ("n", n), ("k", k)); al = s.sc(5); be = s.sc(10)
        ldc = s.i(12); s.ldok(ldc, m, "C")
        c = s.ctx
        if c.branch(z3.Or(m.z() == 0, n.z() == 0)): return
        A = s.opview(s.ptr(6), ta, m, k, s.i(7), "A"); B = s.opview(s.ptr(8), tb, k, n, s.i(9), "B")
        Cm = s.rd(s.ptr(11), m, n, ldc) if s.scalar(be).t else MTerm.zero(m, n)
        s.wr(s.ptr(11), m, n, ldc, s.axpby(be, Cm, s.smul(al, A.mul(B))))
    gemm3m = gemm
    def symv(s, herm=False):
        u = s.ch(0, "LU", "uplo"); n = s.i(1); s.dims(("n", n)); al = s.sc(2); lda = s.i(4); s.ldok(lda, n, "A")
        if s.ctx.branch(n.z() == 0): return
        A = symof(s.ctx, s.rd(s.ptr(3), n, n, lda), u, herm); x = s.vec(s.ptr(5), n, s.i(6)); be = s.sc(7)
        y = s.vec(s.ptr(8), n, s.i(9)) if s.scalar(be).t else MTerm.zero(n, 1)
        s.wvec(s.ptr(8), n, s.i(9), s.axpby(be, y, s.smul(al, A.mul(x))))
    def hemv(s): return s.symv(True)
    def symm(s, herm=False):
        side = s.ch(0, "LR", "side"); u = s.ch(1, "LU", "uplo"); m, n = s.i(2), s.i(3); s.dims(("m", m), ("n", n)); al = s.sc(4); be = s.sc(9)
        ka = m if side == "L" else n
        if s.ctx.branch(z3.Or(m.z() == 0, n.z() == 0)): return
        lda = s.i(6); s.ldok(lda, ka, "A"); s.ldok(s.i(8), m, "B"); s.ldok(s.i(11), m, "C")
        A = symof(s.ctx, s.rd(s.ptr(5), ka, ka, lda), u, herm); B = s.rd(s.ptr(7), m, n, s.i(8))
        Cm = s.rd(s.ptr(10), m, n, s.i(11)) if s.scalar(be).t else MTerm.zero(m, n)
        P = A.mul(B) if side == "L" else B.mul(A)
        s.wr(s.ptr(10), m, n, s.i(11), s.axpby(be, Cm, s.smul(al, P)))
    def hemm(s): return s.symm(True)
    def axpy(s):
        n = s.i(0); al = s.sc(1)
        if s.ctx.branch(n.z() <= 0): return
        s.flat2(s.ptr(2), s.ptr(4), n, s.i(3), s.i(5), lambda x, y: s.ctx.mnorm(y.add(s.smul(al, x))))
    def scal(s):
        n = s.i(0); al = s.sc(1)
        if s.ctx.branch(n.z() <= 0): return
        p = s.ptr(2); inc = s.i(3)
        flat_map(s.ctx, p, n, inc, lambda x: s.ctx.mnorm(s.smul(al, x)), s)
    def flat2(s, px, py, n, ix, iy, f):
        c = s.ctx
        if ix.is_const() and iy.is_const() and ix.cval() == 1 and iy.cval() == 1 and isinstance(px, BPtr) and isinstance(py, BPtr):
            X, shx = flat_read(c, px, n); Y, shy = flat_read(c, py, n, shx)
            if shx is None: X, shx = flat_read(c, px, n, shy)
            if shx is not None and shy is not None and c.ieq(shx[0], shy[0]) and c.ieq(shx[1], shy[1]):
                flat_write(c, py, n, f(X, Y)); return
        x = s.vec(px, n, ix); y = s.vec(py, n, iy); s.wvec(py, n, iy, f(x, y))
    def nrm2(s):
        raise Unsupported("nrm2")
    def trsm(s):
        side, u, tr, dg = s.ch(0, "LR", "side"), s.ch(1, "LU", "uplo"), s.ch(2, "NTC", "transa"), s.ch(3, "NU", "diag")
        m, n = s.i(4), s.i(5); s.dims(("m", m), ("n", n)); al = s.sc(6); ka = m if side == "L" else n
        if s.ctx.branch(z3.Or(m.z() == 0, n.z() == 0)): return
        s.ldok(s.i(8), ka, "A"); s.ldok(s.i(10), m, "B")
        A = s.rd(s.ptr(7), ka, ka, s.i(8)); B = s.rd(s.ptr(9), m, n, s.i(10))
        iA = inv(s.ctx, triof(s.ctx, A, u, dg)).op(tr, s.ctx.realscal)
        s.wr(s.ptr(9), m, n, s.i(10), s.ctx.mnorm(s.smul(al, iA.mul(B) if side == "L" else B.mul(iA))))
    def laswp(s):
        n, lda, k1, k2, incx = s.i(0), s.i(2), s.i(3), s.i(4), s.i(6); ip_ = s.ptr(5)
        if not (k1.is_const() and k1.cval() == 1): raise Unsupported("laswp k1")
        inc = s.ctx.concretize(incx, [1, -1], "incx")
        if inc is None: raise Unsupported("laswp incx")
        B = s.rd(s.ptr(1), k2, n, lda)
        P = permof(s.ctx, ip_, k2)
        s.wr(s.ptr(1), k2, n, lda, s.ctx.mnorm((P.op("T") if inc == 1 else P).mul(B)))
    def getrf(s):
        m, n = s.i(0), s.i(1); lda = s.i(3); s.dims(("m", m), ("n", n))
        if not s.ctx.ieq(m, n): raise Unsupported("rectangular LU")
        s.ldok(lda, m, "A")
        c = s.ctx; A0 = s.rd(s.ptr(2), m, n, lda); nm = lu_name(c, A0)
        F = Atom("gen", nm, m, n, real=c.real); s.wr(s.ptr(2), m, n, lda, MTerm.of(F))
        pb = s.ptr(4)
        if not isinstance(pb, BPtr): raise Unsupported("ipiv")
        c.require("pivot array holds min(m,n) entries", z3.And(c.zi(pb.off) == 0, c.zi(pb.buf.size) >= m.z()))
        pb.buf.ghost_set(c, ("ipiv", nm)) if hasattr(pb.buf, "ghost_set") else None
        pb.buf.setc(z3.Array("ipiv(%s)" % nm, z3.IntSort(), z3.IntSort()))
        P = permof(c, pb, m); L = triof(c, MTerm.of(F), "L", "U"); U = triof(c, MTerm.of(F), "U", "N")
        lu_rule(c, P, L, U, A0, nm)
        if isinstance(s.v[5], Ptr) and s.v[5].cell: s.v[5].cell.set(IPoly.atom(c.fresh("info")))
    def getrs(s):
        tr = s.ch(0, "NTC", "trans"); n, nrhs = s.i(1), s.i(2); lda, ldb = s.i(4), s.i(7); s.dims(("n", n), ("nrhs", nrhs)); s.ldok(lda, n, "A"); s.ldok(ldb, n, "B")
        c = s.ctx
        if c.branch(z3.Or(n.z() == 0, nrhs.z() == 0)): return
        A = s.rd(s.ptr(3), n, n, lda); B = s.rd(s.ptr(6), n, nrhs, ldb)
        P = permof(c, s.ptr(5), n); L = triof(c, A, "L", "U"); U = triof(c, A, "U", "N")
        M = inv(c, U).mul(inv(c, L)).mul(P.op("T")).op(tr, c.realscal)
        s.wr(s.ptr(6), n, nrhs, ldb, c.mnorm(M.mul(B)))
    def potrf(s):
        u = s.ch(0, "LU", "uplo"); n = s.i(1); lda = s.i(3); s.dims(("n", n)); s.ldok(lda, n, "A"); c = s.ctx
        if c.branch(n.z() == 0): return
        A0 = s.rd(s.ptr(2), n, n, lda); S = symof(c, A0, u, True); nm = chol_name(c, u, S)
        F = Atom("gen", nm, n, n, real=c.real); s.wr(s.ptr(2), n, n, lda, MTerm.of(F))
        Tm = triof(c, MTerm.of(F), u, "N"); chol_rule(c, Tm, u, S, nm)
        if isinstance(s.v[4], Ptr) and s.v[4].cell: s.v[4].cell.set(IPoly.atom(c.fresh("info")))
    def potrs(s):
        u = s.ch(0, "LU", "uplo"); n, nrhs = s.i(1), s.i(2); lda, ldb = s.i(4), s.i(6); s.dims(("n", n), ("nrhs", nrhs)); s.ldok(lda, n, "A"); s.ldok(ldb, n, "B"); c = s.ctx
        if c.branch(z3.Or(n.z() == 0, nrhs.z() == 0)): return
        A = s.rd(s.ptr(3), n, n, lda); B = s.rd(s.ptr(5), n, nrhs, ldb); Tm = inv(c, triof(c, A, u, "N"))
        H = Tm.op("C", c.realscal)
        s.wr(s.ptr(5), n, nrhs, ldb, c.mnorm((H.mul(Tm) if u == "L" else Tm.mul(H)).mul(B)))
    # ---- orthogonal factorisations.  A call with lwork = -1 only writes the wanted size of the workspace
    def query(s, ilw, iw, need, nm):
        c = s.ctx; w = s.ptr(iw); lw = s.i(ilw)
        if lw.is_const() and lw.cval() == -1:
            key = ("lwork", nm, repr(c.inorm(need)) if not isinstance(need, list) else repr([c.inorm(x) for x in need]))
            if key not in c._named:
                v = IPoly.atom(c.fresh("lwork")); c._named[key] = v
                for x in (need if isinstance(need, list) else [need]): c.assume(z3.And(v.z() >= c.zi(x), v.z() >= 1))
            if isinstance(w, BPtr): c.elem_set(w.buf, w.off, s.it.toscal(c._named[key]))
            else: s.it.store(w.cell, s.it.toscal(c._named[key]))
            return True
        for x in (need if isinstance(need, list) else [need]): c.require("the workspace of %s is large enough" % nm, lw.z() >= c.zi(x))
        c.require("the workspace of %s has at least one entry" % nm, lw.z() >= 1)
        if not isinstance(w, BPtr): raise Unsupported("workspace %r" % (w,))
        c.require("the workspace of %s has lwork entries" % nm, c.zi(w.buf.size) >= c.zi(w.off) + lw.z()); flat_write(c, w, lw, MTerm.of(Atom("gen", c.fresh("work"), lw, ip(1), real=c.real)))
        return False
    def info(s, i):
        if isinstance(s.v[i], Ptr) and s.v[i].cell: s.v[i].cell.set(IPoly.atom(s.ctx.fresh("info")))
    def least(s, m, n):
        c = s.ctx
        if c.ile(m, n): return m
        if c.ile(n, m): return n
        return m if c.branch(m.z() <= n.z()) else n
    def gesvd(s):
        c = s.ctx; s.ch(0, "A", "jobu"); s.ch(1, "A", "jobvt"); m, n = s.i(2), s.i(3); s.dims(("m", m), ("n", n)); lda, ldu, ldvt = s.i(5), s.i(8), s.i(10)
        s.ldok(lda, m, "A"); s.ldok(ldu, m, "U"); s.ldok(ldvt, n, "VT"); il = 12; p = s.least(m, n); q = n if p is m else m
        s.info(len(s.v) - 1)
        if s.query(il, 11, [3 * p + q, 5 * p] if c.real else [2 * p + q], "gesvd"): return
        if not c.real:
            w = s.ptr(13)
            if isinstance(w, BPtr): c.require("rwork holds 5 min(m,n) entries", c.zi(w.buf.size) >= c.zi(w.off) + 5 * p.z())
        A0 = s.rd(s.ptr(4), m, n, lda); m, n, p = c.inorm(m), c.inorm(n), c.inorm(p); u, vt, sv = svd_atoms(c, A0, m, n, p)
        s.wr(s.ptr(7), m, m, ldu, u); s.wr(s.ptr(9), n, n, ldvt, vt); flat_write(c, s.ptr(6), p, sv); s.wr(s.ptr(4), m, n, lda, MTerm.of(Atom("gen", c.fresh("destroyed"), m, n, real=c.real)))
    def geqrf(s):
        """A = Q R with Q of order m the product of min(m,n) reflectors, kept below the diagonal; R in the upper triangle"""
        c = s.ctx; m, n = s.i(0), s.i(1); lda = s.i(3); s.dims(("m", m), ("n", n)); s.ldok(lda, m, "A"); s.info(7)
        if s.query(6, 5, n, "geqrf"): return
        if not c.ile(n, m): raise Unsupported("QR of a wide matrix")
        m, n = c.inorm(m), c.inorm(n); A0 = s.rd(s.ptr(2), m, n, lda); nm = repr(c.mnorm(A0)); F = MTerm.of(Atom("gen", "QR{%s}" % nm, m, n, real=c.real, tag=("qr", nm)))
        s.wr(s.ptr(2), m, n, lda, F); flat_write(c, s.ptr(4), n, MTerm.of(Atom("gen", "tauqr{%s}" % nm, n, ip(1), real=c.real)))
        top = F if c.ieq(m, n) else MTerm.of(c.sel(m, 0, n), "T").mul(F); R = triof(c, c.mnorm(top), "U", "N"); Q = Atom("gen", "Q{%s}" % nm, m, m, real=c.real)
        c.fold([(Q, "N")] + ([] if c.ieq(m, n) else [(c.sel(m, 0, n), "N")]) + [single_atom(R)], A0)
    def gelqf(s):
        c = s.ctx; m, n = s.i(0), s.i(1); lda = s.i(3); s.dims(("m", m), ("n", n)); s.ldok(lda, m, "A"); s.info(7)
        if s.query(6, 5, m, "gelqf"): return
        if not c.ile(m, n): raise Unsupported("LQ of a tall matrix")
        m, n = c.inorm(m), c.inorm(n); A0 = s.rd(s.ptr(2), m, n, lda); nm = repr(c.mnorm(A0)); F = MTerm.of(Atom("gen", "LQ{%s}" % nm, m, n, real=c.real, tag=("lq", nm)))
        s.wr(s.ptr(2), m, n, lda, F); flat_write(c, s.ptr(4), m, MTerm.of(Atom("gen", "taulq{%s}" % nm, m, ip(1), real=c.real)))
        left = F if c.ieq(m, n) else F.mul(MTerm.of(c.sel(n, 0, m))); L = triof(c, c.mnorm(left), "L", "N"); Q = Atom("gen", "Q{%s}" % nm, n, n, real=c.real)
        c.fold([single_atom(L)] + ([] if c.ieq(m, n) else [(c.sel(n, 0, m), "T")]) + [(Q, "N")], A0)
    def mq(s, kind):
        """C := op(Q) C or C op(Q) with the Q of geqrf or gelqf, of which all reflectors are given"""
        c = s.ctx; side = s.ch(0, "LR", "side"); tr = s.ch(1, "NT" if c.real else "NC", "trans"); m, n, k = s.i(2), s.i(3), s.i(4); s.dims(("m", m), ("n", n), ("k", k)); lda, ldc = s.i(6), s.i(9); ka = m if side == "L" else n
        c.require("number of reflectors is at most the order", k.z() <= ka.z()); s.ldok(lda, ka if kind == "qr" else k, "A"); s.ldok(ldc, m, "C"); s.info(12)
        if s.query(11, 10, n if side == "L" else m, "m" + kind): return
        if c.branch(z3.Or(m.z() == 0, n.z() == 0, k.z() == 0)): return
        A = s.rd(s.ptr(5), ka, k, lda) if kind == "qr" else s.rd(s.ptr(5), k, ka, lda); a = single_atom(c.mnorm(A)); t = getattr(a[0], "tag", None) if a and a[1] == "N" else None
        if not (isinstance(t, tuple) and t[0] == kind): raise Unsupported("reflectors of %r" % (A,))
        tau, _ = flat_read(c, s.ptr(7), k)
        if not isinstance(tau, MTerm) or single_atom(c.mnorm(tau)) is None or single_atom(c.mnorm(tau))[0].name != "tau%s{%s}" % (kind, t[1]): raise Unsupported("scalar factors of the reflectors")
        Q = MTerm.of(Atom("gen", "Q{%s}" % t[1], ka, ka, real=c.real), tr); Cm = s.rd(s.ptr(8), m, n, ldc)
        s.wr(s.ptr(8), m, n, ldc, c.mnorm(Q.mul(Cm) if side == "L" else Cm.mul(Q)))
    def ormqr(s): return s.mq("qr")
    def ormlq(s): return s.mq("lq")
    unmqr, unmlq = ormqr, ormlq

def svd_atoms(c, A0, m, n, p):
    nm = repr(c.mnorm(A0))
    return c.gen("svdU{%s}" % nm, m, m), c.gen("svdV{%s}" % nm, n, n), MTerm.of(Atom("gen", "sv{%s}" % nm, p, 1, real=True, tag="nonneg"))

def lu_name(c, A0): return "LU(%r)" % (c.mnorm(A0),)
def chol_name(c, u, S): return "CH%s(%r)" % (u, c.mnorm(S))
def single_atom(m):
    if len(m.t) == 1:
        (w, c), = m.t.items()
        if len(w) == 1 and c.is_const() and c.cval() == 1: return w[0]
    return None
def symof(ctx, X, uplo, herm):
    """the symmetric (hermitian) matrix whose uplo triangle is that of X"""
    X = ctx.mnorm(X); a = single_atom(X); herm = herm and not ctx.real
    if a is not None:
        if a[0].sym and not herm: return X
        if a[0].herm and herm: return X
        t = getattr(a[0], "tag", None)
        if isinstance(t, tuple) and t[0] == "stored" and t[1] == uplo and t[2] == ("H" if herm else "S") and a[1] == "N": return t[3]
    if X.is_zero(): return X
    return MTerm.of(Atom("gen", "%s%s{%r}" % ("herm" if herm else "sym", uplo, X), X.r, X.c, real=ctx.real, sym=not herm, herm=herm))
def triof(ctx, X, uplo, diag):
    X = ctx.mnorm(X)
    return MTerm.of(Atom("gen", "tri%s%s{%r}" % (uplo, diag, X), X.r, X.c, real=ctx.real))
def tri_rule(ctx, w, dep, k, K):
    """sum over j of (rows 0..j of column j of Z) is the upper triangle of Z, (rows j.. of column j) the lower one; also transposed"""
    kat = IPoly.atom(k)
    def single(a, o, p): return a[0].kind == "sel" and a[1] == o and ctx.ieq(a[0].cols, 1) and ctx.ieq(a[0].off, kat)
    def band(a, o):
        """S_I with I = [0,k] or [k,K)"""
        if a[0].kind != "sel" or a[1] != o: return None
        if ctx.ieq(a[0].off, 0) and ctx.ieq(a[0].cols, kat + 1): return "U"
        if ctx.ieq(a[0].off, kat) and ctx.ieq(a[0].cols, ip(K) - kat): return "L"
        return None
    for tr in (False, True):
        u = tuple(ctx.norm_f(fop(f, "T")) for f in reversed(w)) if tr else w
        n = len(u); d = sorted(n - 1 - x for x in dep) if tr else dep
        if len(d) != 4 or d[1] != d[0] + 1 or d[3] != d[2] + 1 or d[2] < d[1] + 2: continue
        b = band(u[d[0]], "N")
        if b is None or band(u[d[1]], "T") != b or not single(u[d[2]], "N", k) or not single(u[d[3]], "T", k): continue
        def cut(n, op):
            """the first K of n"""
            return MTerm(ip(1), ip(1), {(): SPoly.const(1)}) if ctx.ieq(n, K) else MTerm.of(ctx.sel(n, 0, ip(K)), op)
        Y = MTerm(frows(u[d[1] + 1]), fcols(u[d[2] - 1]), {u[d[1] + 1:d[2]]: SPoly.const(1)})
        if not ctx.ieq(u[d[1]][0].rows, K): Y = MTerm.of(ctx.sel(u[d[1]][0].rows, 0, ip(K)), "T").mul(Y)
        if not ctx.ieq(u[d[2]][0].rows, K): Y = Y.mul(MTerm.of(ctx.sel(u[d[2]][0].rows, 0, ip(K))))
        Z = triof(ctx, ctx.mnorm(Y), b, "N"); ra, rc = u[d[0]][0].rows, u[d[3]][0].rows
        if not ctx.ieq(ra, K): Z = MTerm.of(ctx.sel(ra, 0, ip(K))).mul(Z)
        if not ctx.ieq(rc, K): Z = Z.mul(MTerm.of(ctx.sel(rc, 0, ip(K)), "T"))
        if tr: Z = Z.op("T", ctx.realscal); return (n - 1 - d[3], n - d[0]), Z
        return (d[0], d[3] + 1), Z
    return None
def inv(ctx, X):
    X = ctx.mnorm(X); a = single_atom(X)
    if a is None:
        if list(X.t) == [()]: return X
        return MTerm.of(Atom("inv", "inv{%r}" % (X,), X.c, X.r, real=ctx.real, base=("?", repr(X))))
    r = MTerm.of(Atom("inv", "inv{%r}" % (a[0],), a[0].cols, a[0].rows, real=ctx.real, sym=a[0].sym, herm=a[0].herm, base=a[0].key()))
    return r.op(a[1], ctx.realscal)
def row_swap(ctx, a, b):
    """exchange of entries (r, j) and (r, ipiv[j]-1) of a matrix: X + e_r e_r^T X (T_j - I)"""
    X = a.buf.content
    da, db = ctx.decode(X, a.off, 1, 1, X.r), ctx.decode(X, b.off, 1, 1, X.r)
    if da is None or db is None or not ctx.ieq(da[0], db[0]): return False
    for x, y in ((da[1], db[1]), (db[1], da[1])):
        # y = ipiv[x] - 1 ?
        for arrs, (buf, idx, val) in ctx.reads.items():
            if ctx.ieq(val - 1, y) and ctx.ieq(idx, x) and isinstance(buf, IBuf):
                arr = buf.arr; off = ip(0); n = ctx.inorm(X.c)
                if not ctx.ieq(buf.size, n): continue
                nm = "T{%s;%r}" % (z3.simplify(arr), ctx.inorm(x))
                t = Atom("gen", nm, n, n, real=True, sym=True, tag=("swap", arr, ctx.inorm(x), n, lambda: permof(ctx, BPtr(buf, 0), n)))
                E = MTerm.of(ctx.sel(X.r, da[0], 1)) if not ctx.full(da[0], 1, X.r) else None
                Z = X if E is None else E.mul(E.op("T")).mul(X)
                a.buf.setc(ctx.mnorm(X.add(Z.mul(MTerm.of(t))).add(Z, -1))); return True
    return False
def permof(ctx, p, n):
    """permutation matrix of the pivot array: P = T_0 T_1 ... T_{n-1} with T_j the swap of j and ipiv[j]-1"""
    if not isinstance(p, BPtr) or not isinstance(p.buf, IBuf): raise Unsupported("pivot array")
    nm = str(z3.simplify(p.buf.arr)) + ("" if ctx.ieq(p.off, 0) else "+%r" % p.off)
    return MTerm.of(Atom("perm", "P{%s}" % nm, n, n, real=True))
def lu_rule(ctx, P, L, U, A0, nm):
    """P L U = A0; also for the inverses: U^-1 L^-1 P^T = A0^-1"""
    f = lambda m: single_atom(m)
    iA = inv(ctx, A0)
    ctx.fold([f(P), f(L), f(U)], A0)
    ctx.fold([f(inv(ctx, U)), f(inv(ctx, L)), f(P.op("T"))], iA)
def chol_rule(ctx, Tm, u, S, nm):
    f = single_atom(Tm); g = single_atom(Tm.op("C", ctx.realscal)); h = single_atom(inv(ctx, Tm)); hc = single_atom(inv(ctx, Tm).op("C", ctx.realscal)); iS = inv(ctx, S)
    if u == "L": ctx.fold([f, g], S); ctx.fold([hc, h], iS)
    else: ctx.fold([g, f], S); ctx.fold([h, hc], iS)

# ---- whole-buffer ("flat") accesses keep the shape of the content
def flat_read(ctx, p, n, shape=None):
    """n consecutive entries from p.  Returns (term, shape) where shape is (rows, cols) of the term"""
    n = ctx.inorm(n); p = ctx.seg(p, n, ip(1), n, False); buf = p.buf
    if buf.freed: ctx.oblig("no use after free of %s" % buf.name, False); raise PathEnd("uaf")
    if isinstance(buf.content, Ragged):
        ctx.require("range [%r,+%r) inside %s" % (ctx.inorm(p.off), n, buf.name), z3.And(ctx.zi(p.off) >= 0, ctx.zi(p.off + n) <= ctx.zi(buf.size)))
        b = buf.content.block(ctx, ctx.inorm(p.off))
        if b is None: raise Unsupported("place %r in the blocks of %s" % (ctx.inorm(p.off), buf.name))
        X, off = b; return flat_read(ctx, BPtr(Buf(ctx, X.r * X.c, X, buf.name + " block", buf.et), off), n, shape)
    if isinstance(buf.content, Fill):
        ctx.require("range [%r,+%r) inside %s" % (ctx.inorm(p.off), n, buf.name), z3.And(ctx.zi(p.off) >= 0, ctx.zi(p.off + n) <= ctx.zi(buf.size)))
        if shape is None:
            if buf.content.v is None: return None, None
            return Fill(buf.content.v), None
        return ctx.fillterm(buf, buf.content.v, shape[0], shape[1]), shape
    X = buf.content
    if ctx.ieq(p.off, 0) and ctx.ieq(n, X.r * X.c): return X, (ctx.inorm(X.r), ctx.inorm(X.c))
    # whole columns
    qr = exact(ctx, n, X.r); qo = exact(ctx, p.off, X.r)
    if not ctx.ieq(X.c, 1) and qr and qo:
        return ctx.view(p, X.r, qr[0], X.r), (ctx.inorm(X.r), qr[0])
    return ctx.view(p, n, 1, n), (n, IPoly.const(1))
def grow_num(ctx, b, x):
    """the vector b with x appended"""
    n = ctx.inorm(b.size); X = b.content
    if isinstance(X, Fill): X = MTerm.zero(n, ip(1)) if ctx.ieq(n, 0) else ctx.fillterm(b, X.v, n, ip(1))
    if not ctx.ieq(X.c, 1): raise Unsupported("push_back on a reshaped vector")
    e = MTerm.of(ctx.sel(n + 1, n, 1)).mul(x) if not ctx.ieq(n, 0) else x
    Y = e if ctx.ieq(n, 0) else MTerm.of(ctx.sel(n + 1, 0, n)).mul(X).add(e)
    nb = Buf(ctx, n + 1, ctx.mnorm(MTerm(n + 1, 1, Y.t)), b.name, b.et); nb.ghost = {"append": (b, x), "vector": True}; return nb
def exact(ctx, n, d):
    for q, r in ctx.inorm(n).divs(ctx.inorm(d)):
        if not r.t: return q, r
    return None
def flat_write(ctx, p, n, m):
    """write the entries of m (column major) to n consecutive places from p"""
    n = ctx.inorm(n); p = ctx.seg(p, n, ip(1), n, True); buf = p.buf
    if ctx.par is not None: ctx.par_write(buf)
    if ctx.ieq(p.off, 0) and ctx.ieq(n, buf.size):
        buf.setc(m if isinstance(m, Fill) else ctx.mnorm(m)); return
    if isinstance(m, Fill):
        X = buf.content
        if isinstance(X, Fill): 
            if m.v is not None and X.v is not None and ctx.mzero(m.v.add(X.v, -1)): return
            r, c = buf.size, IPoly.const(1)
            ctx.write_view(p, n, 1, n, ctx.fillterm(buf, m.v, n, IPoly.const(1))); return
        qr = exact(ctx, n, X.r)
        if not ctx.ieq(X.c, 1) and qr: ctx.write_view(p, X.r, qr[0], X.r, ctx.fillterm(buf, m.v, X.r, qr[0])); return
        ctx.write_view(p, n, 1, n, ctx.fillterm(buf, m.v, n, IPoly.const(1))); return
    if ctx.ieq(m.c, 1): ctx.write_view(p, n, 1, n, m); return
    if not isinstance(buf.content, Fill) and not ctx.ieq(buf.content.r, m.r) and ctx.ieq(buf.content.c, 1):
        raise Unsupported("matrix written into part of a vector")
    if isinstance(buf.content, Fill):
        sh = ctx.bshape(buf, m.r)
        if sh is None: raise Unsupported("layout of partial write")
    ctx.write_view(p, m.r, m.c, m.r, m)
def flat_map(ctx, p, n, inc, f, b):
    if inc.is_const() and inc.cval() == 1 and isinstance(p, BPtr):
        X, sh = flat_read(ctx, p, n)
        if X is None: return
        if isinstance(X, Fill): flat_write(ctx, p, n, Fill(f(X.v))); return
        flat_write(ctx, p, n, f(X)); return
    b.wvec(p, n, inc, f(b.vec(p, n, inc)))

ROUT = ("gemv gemm gemm3m symv hemv symm hemm axpy scal trsm laswp getrf getrs potrf potrs gesvd geqrf gelqf ormqr unmqr ormlq unmlq").split()

class Models:
    def __init__(self):
        self.fn = {}; self.defs = []; self.trusted = set(); self.extra = []
        for r in ROUT:
            for L in "sdcz": self.fn["%s%s_" % (L, r)] = self.blas(r)
        from . import stdlib
        stdlib.register(self)
        from . import pairs
        pairs.register(self)
        from . import mpi
        mpi.register(self)
    def blas(self, r):
        def m(it, f, this, nodes, e):
            self.trusted.add("BLAS/LAPACK " + r)
            vals = [it.rval(a) for a in nodes]
            getattr(Blas(it, vals), r)(); return None
        return m
    def lookup(self, name, f):
        m = self.fn.get(name)
        if m is None:
            for x in self.extra:
                m = x(name, f)
                if m: return m
        if m is not None and name.startswith("std::"): self.trusted.add(name)
        return m
    def overrides(self, name, f): return False
    def default_ctor(self, it, t): return self._try("default_ctor", it, t)
    def ctor(self, it, e, t): return self._try("ctor", it, e, t)
    def copy(self, it, t, src, kind): return self._try("copy", it, t, src, kind)
    def field(self, it, o, n): return self._try("field", it, o, n)
    def deref(self, it, p): return self._try("deref", it, p)
    def decay(self, it, v): return self._try("decay", it, v)
    def ptradd(self, it, p, i): return self._try("ptradd", it, p, i)
    def global_var(self, it, e):
        r = self._try("global_var", it, e)
        if r is None: raise Unsupported("global %s" % e.get("qn", e["n"]))
        return r
    def binop(self, it, op, a, b):
        r = self._try("binop", it, op, a, b)
        return NotImplemented if r is None else r
    def virtual(self, it, f, this, nodes, e):
        r = self._try("virtual", it, f, this, nodes, e)
        return NotImplemented if r is None else r
    def valuefn(self, name): return None
    def _try(self, what, *a):
        for m in self.hooks.get(what, []):
            r = m(*a)
            if r is not None: return r
        return None
    hooks = {}
def hook(name):
    def d(f): Models.hooks.setdefault(name, []).append(f); return f
    return d
