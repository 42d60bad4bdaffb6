"""Contracts of the distributed operator (include/htool/distributed_operator).  G is the global matrix in the numbering of the
partitions; the local operators of a process add up to the rows of G of its part.  One generic process is verified (vc/mpi.py)."""
import z3
from ..terms import *
from ..engine import *
from .. import models as M, mpi
from ..mpi import rank, nprocs, RK, Part, gather, on
from ..contract import Contract, Spec, same
from ..loops import mentions_atom
from .dense import mk_scal, mk_int, mk_char, mk_ptr, num, gemv, rm, H
C = []
IP, LO, DO = H + "IPartition::", H + "VirtualLocalOperator::", H + "DistributedOperator::"
def mk(it, f):
    ctx = it.ctx; mpi.start(ctx); t = strip(f["cls"]); o = Obj(ctx, t, "this"); y = mk_char(it, "symmetry"); o.f["m_symmetry"] = y; o.f["m_UPLO"] = mk_char(it, "UPLO")
    c = ctx.concretize(y.get(), [ord(x) for x in ("NS" if ctx.real else "NSH")], "symmetry")
    if c is None: raise PathEnd("precondition false")
    sym = chr(c); T = Part(ctx, "T"); S = T if sym != "N" else Part(ctx, "S"); ctx.symkind = sym; ctx.TS = (T, S)
    def part(p, nm): q = Obj(ctx, "htool::IPartition<%s>" % num(ctx), nm); q.ghost["part"] = p; return Cell(ctx, q, q.t, nm)
    o.f["m_target_partition"] = part(T, "target_partition"); o.f["m_source_partition"] = part(S, "source_partition"); o.f["m_use_permutation"] = Cell(ctx, z3.Bool("use_permutation"), "bool", "m_use_permutation")
    o.f["m_comm"] = Cell(ctx, Opaque("comm"), "MPI_Comm", "m_comm"); o.f["infos"] = Cell(ctx, Opaque("std::map"), "std::map<std::string, std::string>", "infos")
    n = IPoly.atom("operators<%s>" % RK); ctx.assume(n.z() >= 0)
    def elem(k):
        ob = Obj(ctx, "htool::VirtualLocalOperator<%s>" % num(ctx), opname(ctx.inorm(ip(k)))); return Cell(ctx, Ptr(Cell(ctx, ob, ob.t, ob.name)), "const %s *" % ob.t, ob.name)
    o.f["m_local_operators"] = Cell(ctx, AbsList(ctx, "std::vector<const htool::VirtualLocalOperator<%s> *>" % num(ctx), "local_operators", n, elem), "std::vector<const htool::VirtualLocalOperator<%s> *>" % num(ctx), "m_local_operators")
    def rule(c, w, dep, k, K):
        """the local operators of a process sum up to its rows of the global matrix"""
        i = dep[0]
        if len(dep) != 1 or not c.ieq(K, n) or w[i][0].name != opname(IPoly.atom(k)): return None
        return (i, i + 1), T.sel(rank).op("T").mul(G(c)).op(w[i][1], c.realscal)
    ctx.sumrules.append(rule)
    a = []
    for p in f["p"]:
        x = strip(p["t"]); nm = p["n"] or "arg%d" % len(a)
        if nm == "work" and ctx.choose(2, "work given") == 0: a.append(Cell(ctx, NULL, p["t"], "work")); ctx.trace.append("work null")
        else: a.append(mk_int(it, nm) if x == "int" else mk_ptr(it, nm))
    return Cell(ctx, o, t, "this"), a
def opname(k): return "Op<%r|%s>" % (k, RK)
def G(ctx):
    T, S = ctx.TS; return ctx.gen("G", T.total, S.total, sym=ctx.symkind == "S", herm=ctx.symkind == "H")
# ---- interfaces
def part(this): return this.get().ghost["part"]
def ckidx(s, i): s.req("number of a part", z3.And(s.ctx.zi(i) >= 0, s.ctx.zi(i) < nprocs.z()))
def _size(s, f, this, a): i = a[0].get(); ckidx(s, i); s.ret = part(this).size(i)
def _off(s, f, this, a): i = a[0].get(); ckidx(s, i); s.ret = part(this).offset(i)
def _tot(s, f, this, a): s.ret = part(this).total
def _isloc(s, f, this, a): s.ret = z3.Bool("%s.is_renumbering_local" % part(this).name)
def P(s, p): return MTerm.of(Atom("perm", "P{%s}" % p.name, p.total, p.total, real=True))
def ren(s, f, this, a, op):
    p = part(this); x = s.view(a[0], p.total, 1); s.write(a[1], p.total, 1, P(s, p).op(op).mul(x))
def renl(s, f, this, a, op):
    p = part(this); i = s.ctx.inorm(a[0].get()); ckidx(s, i); n = p.size(i); x = s.view(a[1], n, 1); s.write(a[2], n, 1, p.perm(i).op(op).mul(x))
for n, g in (("get_size_of_partition", _size), ("get_offset_of_partition", _off), ("get_global_size", _tot), ("is_renumbering_local", _isloc), ("global_to_partition_numbering", lambda s, f, t, a: ren(s, f, t, a, "T")), ("partition_to_global_numbering", lambda s, f, t, a: ren(s, f, t, a, "N")),
             ("local_to_local_partition_numbering", lambda s, f, t, a: renl(s, f, t, a, "T")), ("local_partition_to_local_numbering", lambda s, f, t, a: renl(s, f, t, a, "N"))):
    C.append(Contract(IP + n, None, g, verify=False))
def lop(s, this): return s.ctx.gen(this.get().name, s.ctx.TS[0].size(rank), s.ctx.TS[1].total)
def lprod(s, f, this, a, mult, trans):
    """out := alpha A in + beta out (A^T for the transposed ones; rows of mu numbers for the matrix ones)"""
    ctx = s.ctx; al, be = s.scalar(a[0]), s.scalar(a[2]); A = lop(s, this); A = A.op("T") if trans else A; mu = ctx.inorm(a[4].get()) if mult else None
    if mult: s.req("at least one column", ctx.zi(mu) >= 1); X, Y = s.view(a[1], mu, A.c), s.view(a[3], mu, A.r); s.write(a[3], mu, A.r, X.mul(A.op("T")).scale(al).add(Y.scale(be)))
    else: X, Y = s.view(a[1], A.c, 1), s.view(a[3], A.r, 1); s.write(a[3], A.r, 1, A.mul(X).scale(al).add(Y.scale(be)))
for n, m, t in (("add_vector_product_global_to_local", 0, 0), ("add_matrix_product_global_to_local", 1, 0), ("add_vector_product_transp_local_to_global", 0, 1), ("add_matrix_product_transp_local_to_global", 1, 1)):
    C.append(Contract(LO + n, None, (lambda s, f, this, a, m=m, t=t: lprod(s, f, this, a, m, t)), verify=False))
def lsub(s, f, this, a):
    ctx = s.ctx; mu, o, n = (ctx.inorm(a[i].get()) for i in (2, 3, 4)); A = lop(s, this); Y = s.view(a[1], mu, A.r)
    ctx.oblig("%s: precondition: out is zero" % s.name, ctx.mzero(Y)); s.req("at least one column", ctx.zi(mu) >= 1); s.req("range of the part", z3.And(ctx.zi(o) >= 0, ctx.zi(n) >= 1, ctx.zi(o + n) <= ctx.zi(A.c)))
    s.write(a[1], mu, A.r, s.view(a[0], mu, n).mul(MTerm.of(ctx.sel(A.c, o, n), "T")).mul(A.op("T")))
C.append(Contract(LO + "sub_matrix_product_to_local", None, lsub, verify=False))
# ---- the distributed operator
def give(s, p, r, c, X):
    """(verify) the argument p holds X, r x c"""
    if s.mode != "verify": return
    b = p.get().buf; s.ctx.assume_eq(b.size, ip(r) * ip(c)); b.size = s.ctx.inorm(ip(r) * ip(c)); b.content = s.ctx.mnorm(X)
def room(s, p, r, c, nm=None):
    if s.mode != "verify": return
    give(s, p, r, c, s.ctx.gen((nm or p.get().buf.name) + "<%s>" % RK, r, c))
def cols(s, a, i):
    mu = s.ctx.inorm(a[i].get()); s.req("at least one column", s.ctx.zi(mu) >= 1); return mu
def workspace(s, p, n):
    if s.mode != "verify" or isinstance(p.get(), Ptr): 
        v = p.get()
        if not isinstance(v, Ptr): s.ctx.require("%s: precondition: the workspace holds %r elements" % (s.name, n), z3.And(s.ctx.zi(v.off) >= 0, s.ctx.zi(v.off + n) <= s.ctx.zi(v.buf.size))); v = s.ctx.seg(v, n, ip(1), n, True); v.buf.setc(Fill(None)) if s.ctx.ieq(v.off, 0) and s.ctx.ieq(v.buf.size, n) else None
        return
    b = p.get().buf; s.ctx.assume_eq(b.size, n); b.size = s.ctx.inorm(n); b.content = Fill(None); s.dontcare.add(id(b))
def glob2loc(s, f, this, a, mult):
    """each process multiplies its rows of G by the whole vector"""
    ctx = s.ctx; T, S = ctx.TS; n = T.size(rank); mu = cols(s, a, 2) if mult else None
    if mult: room(s, a[0], mu, S.total); room(s, a[1], mu, n); X = s.view(a[0], mu, S.total); s.write(a[1], mu, n, X.mul(G(ctx).op("T")).mul(T.sel(rank)))
    else: room(s, a[0], S.total, 1); room(s, a[1], n, 1); X = s.view(a[0], S.total, 1); s.write(a[1], n, 1, T.sel(rank).op("T").mul(G(ctx)).mul(X))
def whole(s, part, X, mult):
    """the vector made of the parts X of all the processes"""
    return gather(s.ctx, X, None, lambda k: part.sel(k).op("T")) if mult else gather(s.ctx, X, lambda k: part.sel(k))
def localarg(s, p, part, mult, mu, rowmajor=True):
    """(verify) the local argument is the part of an arbitrary global vector: every family of local vectors is of this form"""
    ctx = s.ctx; n = part.size(rank)
    if mult and rowmajor: give(s, p, mu, n, ctx.gen("IN", mu, part.total).mul(part.sel(rank))); return s.view(p, mu, n)
    m = mu if mult else ip(1)
    give(s, p, n, m, part.sel(rank).op("T").mul(ctx.gen("IN", part.total, m))); return s.view(p, n, m)
def tloc2glob(s, f, this, a, mult):
    ctx = s.ctx; T, S = ctx.TS; mu = cols(s, a, 2) if mult else None; X = localarg(s, a[0], T, mult, mu); W = whole(s, T, X, mult)
    if mult: room(s, a[1], mu, S.total); s.view(a[1], mu, S.total); s.write(a[1], mu, S.total, W.mul(G(ctx)))
    else: room(s, a[1], S.total, 1); s.view(a[1], S.total, 1); s.write(a[1], S.total, 1, G(ctx).op("T").mul(W))
def loc2loc(s, f, this, a, mult, trans):
    ctx = s.ctx; T, S = ctx.TS; mu = cols(s, a, 2) if mult else None; I, O = (T, S) if trans else (S, T); X = localarg(s, a[0], I, mult, mu); W = whole(s, I, X, mult); n = O.size(rank); A = G(ctx).op("T") if trans else G(ctx)
    wp = a[-1]; sz = (S.total + (S.size(rank) * nprocs if trans else 0)) * (mu if mult else 1); workspace(s, wp, sz)
    if mult: room(s, a[1], mu, n, "OUT"); s.view(a[1], mu, n); s.write(a[1], mu, n, W.mul(A.op("T")).mul(O.sel(rank)))
    else: room(s, a[1], n, 1, "OUT"); s.view(a[1], n, 1); s.write(a[1], n, 1, O.sel(rank).op("T").mul(A).mul(W))
def l2g(s, f, this, a, which):
    ctx = s.ctx; p = ctx.TS[which]; mu = cols(s, a, 2)
    X = localarg(s, a[0], p, True, mu); room(s, a[1], mu, p.total); s.view(a[1], mu, p.total); s.write(a[1], mu, p.total, whole(s, p, X, True))
def isub(s, f, this, a):
    ctx = s.ctx; T, S = ctx.TS; mu = cols(s, a, 2); o, n = ctx.inorm(a[3].get()), ctx.inorm(a[4].get()); s.req("range of the part", z3.And(ctx.zi(o) >= 0, ctx.zi(n) >= 1, ctx.zi(o + n) <= ctx.zi(S.total))); m = T.size(rank)
    room(s, a[0], mu, n); room(s, a[1], mu, m); s.write(a[1], mu, m, s.view(a[0], mu, n).mul(MTerm.of(ctx.sel(S.total, o, n), "T")).mul(G(ctx).op("T")).mul(T.sel(rank)))
def c(n, g, **kw): C.append(Contract(DO + n, mk, g, title=DO + n, **kw))
for w, m in (("vector", 0), ("matrix", 1)):
    c("internal_%s_product_global_to_local" % w, lambda s, f, t, a, m=m: glob2loc(s, f, t, a, m))
    c("internal_%s_product_transp_local_to_global" % w, lambda s, f, t, a, m=m: tloc2glob(s, f, t, a, m))
    c("internal_%s_product_local_to_local" % w, lambda s, f, t, a, m=m: loc2loc(s, f, t, a, m, 0))
    c("internal_%s_product_transp_local_to_local" % w, lambda s, f, t, a, m=m: loc2loc(s, f, t, a, m, 1))
c("internal_sub_matrix_product_to_local", isub)
c("local_to_global_target", lambda s, f, t, a: l2g(s, f, t, a, 0)); c("local_to_global_source", lambda s, f, t, a: l2g(s, f, t, a, 1))
# ---- user numbering, by columns
def useperm(s, this): return s.ctx.branch(this.get().field("m_use_permutation").get())
def user_global(s, f, this, a, mult, trans):
    ctx = s.ctx; T, S = ctx.TS; I, O = (T, S) if trans else (S, T); mu = cols(s, a, 2) if mult else ip(1); A = G(ctx).op("T") if trans else G(ctx)
    if s.mode == "verify": give(s, a[0], I.total, mu, ctx.gen("IN", I.total, mu))
    room(s, a[1], O.total, mu, "OUT"); X = s.view(a[0], I.total, mu); s.view(a[1], O.total, mu)
    if useperm(s, this): A = P(s, O).mul(A).mul(P(s, I).op("T"))
    s.write(a[1], O.total, mu, A.mul(X))
def user_local(s, f, this, a, mult, trans):
    ctx = s.ctx; T, S = ctx.TS; I, O = (T, S) if trans else (S, T); mu = cols(s, a, 2) if mult else ip(1); A = G(ctx).op("T") if trans else G(ctx); n = O.size(rank)
    X = localarg(s, a[0], I, mult, mu, False); room(s, a[1], n, mu, "OUT"); s.view(a[1], n, mu); p = useperm(s, this); W = gather(ctx, X, (lambda k: I.sel(k).mul(I.perm(k).op("T"))) if p else (lambda k: I.sel(k)))
    sz = (S.total + (S.size(rank) * nprocs if trans else 0)) * mu; workspace(s, a[-1], sz)
    Y = O.sel(rank).op("T").mul(A).mul(W)
    s.write(a[1], n, mu, O.perm(rank).mul(Y) if p else Y)
for w, m in (("vector", 0), ("matrix", 1)):
    for tr, t in (("", 0), ("transp_", 1)):
        c("%s_product_%sglobal_to_global" % (w, tr), lambda s, f, th, a, m=m, t=t: user_global(s, f, th, a, m, t))
        c("%s_product_%slocal_to_local" % (w, tr), lambda s, f, th, a, m=m, t=t: user_local(s, f, th, a, m, t))
