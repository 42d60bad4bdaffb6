"""Contracts of the builder of cluster trees (include/htool/clustering/tree_builder/recursive_build.hpp)."""
import z3
from ..terms import *
from ..engine import *
from .. import models as M, pairs
from ..loops import LOOPINV, sum_term, one, Rest, Gen, ListRef
from ..contract import Contract, Spec
from .dense import H
from . import cluster as CL, splitting as SP
bz = lambda b: b if z3.is_expr(b) else z3.BoolVal(bool(b))
C = []
TB = H + "ClusterTreeBuilder::"; TBT = "htool::ClusterTreeBuilder<double>"
def perm_of(ctx, p, N):
    """the matrix of the permutation that p points to (the identity when there is none), or None"""
    if isinstance(p, BPtr) and isinstance(p.buf, IBuf) and ctx.ieq(p.off, 0):
        x = getattr(ctx, "permof", {}).get(p.buf.arr.get_id())
        if x is not None: return x[1]
        for P, o, n in p.buf.ghost.get("stable", []):
            if ctx.ieq(o, 0) and ctx.ieq(n, N): return MTerm.of(Atom("perm", P, N, N, real=True))
        return None
    return MTerm.ident(N) if not isinstance(p, BPtr) else None
def mk_fn(it, f):
    ctx = it.ctx; d, N = ctx.fint("dim", 1), ctx.fint("points", 0); out = []
    off, size = ctx.fint("offset", 0), ctx.fint("size", 0); given = ctx.choose(2, "permutation") == 0
    for p in f["p"]:
        t, n = p["t"], p["n"]
        if n == "coordinates": v = BPtr(Buf(ctx, N * d, ctx.gen("x", d, N), n), 0)
        elif n == "weights" or n == "radii": v = BPtr(Buf(ctx, N, ctx.gen(n, N, 1), n), 0)
        elif n == "center": b = Buf(ctx, d, ctx.gen("center", d, 1), n); b.ghost["vector"] = True; v = Vec(ctx, b, "double")
        elif n == "spatial_dimension": v = d
        elif n == "offset": v = off
        elif n == "size": v = size
        elif "permutation" in n:
            if given: b = IBuf(ctx, N, z3.Array("permutation", z3.IntSort(), z3.IntSort()), "permutation"); b.ghost["stable"] = [("P{p}", ip(0), N)]; v = BPtr(b, 0)
            else: v = NULL
        else: raise Unsupported("argument " + n)
        out.append(Cell(ctx, v, t, n))
    ctx.npoints = N
    return Cell(ctx, Obj(ctx, TBT, "this"), TBT, "this"), out
def ones(n): return MTerm.of(Atom("ones", "", n, ip(1), real=True))
def total(s, w, P, N, off, size):
    """sum of the weights of the points in the range"""
    ctx = s.ctx; k = "k[wt]"; e = MTerm.of(ctx.sel(N, off + IPoly.atom(k), 1)); return ctx.mnorm(sum_term(ctx, ctx.mnorm(e.op("T").mul(P.op("T")).mul(w)), k, size))
def center(s, d, N, X, w, P, off, size):
    """weighted mean of the points in the range"""
    ctx = s.ctx; S = MTerm.of(ctx.sel(N, off, size)); m = ctx.mnorm(X.mul(P).mul(S).mul(S.op("T")).mul(P.op("T")).mul(w)); return ctx.mnorm(m), total(s, w, P, N, off, size)
def center_contract(s, f, this, a):
    d, xs, ws, off, size, p = [x.get() for x in a]; ctx = s.ctx; N = ctx.npoints
    P = perm_of(ctx, p, N)
    if P is None: s.req("a permutation of the points", False); return
    s.req("the range is within the points", z3.And(ctx.zi(off) >= 0, ctx.zi(size) >= 0, ctx.zi(ip(off) + size) <= ctx.zi(N)))
    if not isinstance(p, BPtr): s.req("without a permutation the range is all the points", z3.And(ctx.zi(off) == 0))
    X, w = s.view(xs, d, N, d), s.view(ws, N, 1, N); m, t = center(s, d, N, X, w, P, off, size); one_ = MTerm.scalar(SPoly.const(1))
    q = s.it.sarith("/", one_, t); want = ctx.mnorm(MTerm(d, 1, ctx.smul(m, q).t)) if not ctx.mzero(m) else m
    if s.mode == "call":
        b = Buf(ctx, d, want, ctx.fresh("center")); b.ghost["vector"] = True; s.ret = Vec(ctx, b, "double"); return
    def post(it, ret):
        v = ret.get() if hasattr(ret, "get") else ret
        if not isinstance(v, Vec) or not ctx.ieq(v.buf.size, d): return False, "%r" % (v,)
        ok, dd = ctx.meq(ctx.view(BPtr(v.buf, 0), d, 1, d), want); return ok, "%r instead of %r" % (dd, want)
    s.postchecks.append(("the weighted mean of the points of the range", post))
C.append(Contract(TB + "compute_center", mk_fn, center_contract))
def dist(s, d, N, X, r, c, P, i, ab):
    """distance from c to the far side of the ball around the i-th point of the permutation"""
    ctx = s.ctx; e = P.mul(MTerm.of(ctx.sel(N, i, 1))); u = ctx.mnorm(X.mul(e).add(c, -1)); q = ctx.mnorm(u.op("T").mul(u)); q = ctx.scal("abs(%r)" % (q,), True) if ab else q; q = ctx.scal("sqrt(%r)" % (q,), True)      # (a sum of squares is its own modulus)
    return ctx.mnorm(q.add(ctx.mnorm(e.op("T").mul(r))))
def radius_name(X, r, c, P, off): return "encl{%r|%r|%r|%r|%r}" % (X, r, c, P, off)
class RadInv:
    """after j rounds the radius is the largest distance so far (0 at first)"""
    def __init__(s, it, loop):
        s.it = it; s.ctx = it.ctx; s.n_ = loop.n; env = [v for v in it.fr.env.values() if isinstance(v, Cell)]
        r = [v for v in env if isinstance(v.get(), MTerm) and v.name == "radius"]
        if len(r) != 1 or getattr(s.ctx, "rad", None) is None: raise Unsupported("loop over the points")
        s.r = r[0]; s.d, s.N, s.X, s.w, s.c, s.P, s.off, s.size = s.ctx.rad
    def setup(s):
        decl = {d["id"] for d in s.n_["i"].get("d", [])} if isinstance(s.n_.get("i"), dict) else set(); own = [s.it.fr.env[i] for i in decl if i in s.it.fr.env]
        if len(own) != 1: raise Unsupported("loop over the points")
        s.j = own[0]; s.prev = None
    def mods(s): return [s.r, s.j]
    def at(s, j): return s.ctx.scal(radius_name(s.X, s.w, s.c, s.P, s.off) + "<%r>" % (j,), True)
    def holds(s):
        c = s.ctx; j = c.inorm(s.j.get()); z = c.zi; v = c.mnorm(s.it.toscal(s.r.get())); out = [("the index is in range", z3.And(z(j) >= 0, z(j) <= z(s.size)), "")]
        if s.prev is None: return out + [("the radius is 0 and the index the first", c.ieq(j, 0) and c.mzero(v), "%r" % (v,))]
        ts = [dist(s, s.d, s.N, s.X, s.w, s.c, s.P, s.off + s.prev, ab) for ab in (True, False)]; want = [c.scal("max(%r,%r)" % x, True) for t in ts for x in ((s.at(s.prev), t), (t, s.at(s.prev)))]
        return out + [("one point per round", c.ieq(j, s.prev + 1), "%r" % (j,)), ("the radius encloses the next point", any(c.meq(v, w)[0] for w in want), "%r instead of %r" % (v, want[0]))]
    def assume(s):
        c = s.ctx; j = c.fint("point", 0); c.assume(j.z() <= c.zi(s.size)); s.j.set(j); s.prev = j; s.r.set(s.at(j))
def radius_contract(s, f, this, a):
    d, xs, rs, cv, off, size, p = [x.get() for x in a]; ctx = s.ctx; N = ctx.npoints; P = perm_of(ctx, p, N)
    if P is None: s.req("a permutation of the points", False); return
    s.req("the range is within the points", z3.And(ctx.zi(off) >= 0, ctx.zi(size) >= 0, ctx.zi(ip(off) + size) <= ctx.zi(N)))
    if not isinstance(p, BPtr): s.req("without a permutation the range is all the points", z3.And(ctx.zi(off) == 0))
    s.req("a center of the dimension of the points", isinstance(cv, Vec) and ctx.ieq(cv.buf.size, d))
    X, r, c = ctx.mnorm(s.view(xs, d, N, d)), ctx.mnorm(s.view(rs, N, 1, N)), ctx.mnorm(s.view(BPtr(cv.buf, 0), d, 1, d))
    if s.mode == "call": s.ret = ctx.scal(radius_name(X, r, c, P, off) + "<%r>" % (ctx.inorm(size),), True); return
    ctx.rad = (d, N, X, r, c, P, off, size)
    def post(it, ret):
        v = ctx.mnorm(it.toscal(ret.get() if hasattr(ret, "get") else ret)); want = ctx.scal(radius_name(X, r, c, P, off) + "<%r>" % (ctx.inorm(size),), True)
        ok, dd = ctx.meq(v, want); return ok, "%r" % (dd,)
    s.postchecks.append(("the largest distance to the far side of a point of the range", post))
C.append(Contract(TB + "compute_radius", mk_fn, radius_contract))
LOOPINV[TB + "compute_radius"] = lambda it, loop: RadInv(it, loop) if loop.kind == "For" and any(isinstance(v, Cell) and v.name == "radius" for v in it.fr.env.values()) and not any(isinstance(v, (Cell, Tmp)) and v.name == "u" for v in it.fr.env.values()) else None

# ---- a new child of a cluster
AC = H + "TreeNode::add_child"
def kids(o): return o.f["m_children"]
def mk_add(it, f):
    ctx = it.ctx; c = CL.mk_cluster(it, "this"); o = c.get(); n = ctx.fint("this.nchildren", 0); t = "std::vector<std::unique_ptr<%s>>" % CL.CT
    v = PyVec(ctx, t); v.cell.set((Rest(n),)); o.f["m_children"] = Cell(ctx, v, t, "this.m_children"); d = ctx.fint("dim", 1); b = Buf(ctx, d, ctx.gen("center", d, 1), "center"); b.ghost["vector"] = True; a = []
    for k, p in enumerate(f["p"]):
        nm = ("radius", "center", "rank", "offset", "size", "counter", "on")[k]; x = ctx.scal("radius", True) if k == 0 else Vec(ctx, b, "double") if k == 1 else z3.Bool("on") if k == 6 else ctx.fint(nm, 0)
        a.append(Cell(ctx, x, strip(p["t"]).rstrip(" &"), nm))
    td = o.f["m_tree_data"].get().cell.get(); n = ctx.fint("parts", 0); l = PyVec(ctx, "std::vector<const %s *>" % CL.CT); td.f["m_clusters_on_partition"] = Cell(ctx, PartList(ctx, l.t, n), l.t, "parts")
    return c, a
class PartList:
    """the clusters of the partition: entries before, and the ones written since"""
    def __init__(s, ctx, t, n): s.ctx = ctx; s.t = t; s.n0 = n; s.cell = Cell(ctx, (n, ()), t, "clusters_on_partition")
    @property
    def length(s): return s.cell.v[0]
    def resize(s, n): s.cell.set((s.ctx.inorm(n), s.cell.v[1] + (("resize", s.ctx.inorm(n)),)))
    def put(s, i, v): s.cell.set((s.cell.v[0], s.cell.v[1] + (("put", s.ctx.inorm(i), v),)))
    def ref(s, i): s.ctx.require("index %r within the clusters of the partition" % (i,), z3.And(s.ctx.zi(i) >= 0, s.ctx.zi(i) < s.ctx.zi(s.length))); return PartRef(s, i)
class PartRef:
    lvalue = True
    def __init__(s, l, i): s.l = l; s.i = i; s.name = "part"; s.t = "const %s *" % CL.CT
    def get(s): raise Unsupported("cluster of the partition")
    def set(s, v): s.l.put(s.i, v)
def add(s, f, this, a):
    """a new child with the range, rank, number, centre and radius given, one level below, on the data of the tree; registered as the cluster of the partition of its rank when it is one"""
    c = s.ctx; o = this.get(); rad, cen, rank, off, size, cnt, on = [x.get() for x in a]; on = bz(on); v = o.field("m_children").get(); old = v.items if isinstance(v, PyVec) else None
    d, td = o.field("m_depth").get(), o.field("m_tree_data").get(); L = cen.buf.size; X = c.mnorm(s.view(BPtr(cen.buf, 0), L, 1, L)) if not c.ieq(L, 0) else None
    s.req("a part has a number", Imp_(on, c.zi(rank) >= 0))
    if s.mode == "call":
        if old is None: raise Unsupported("children")
        w = node(s.it, c.fresh("child"), off, size, rank, cnt, c.inorm(ip(d) + 1), (X, L), rad, td, on)
        v.cell.set(old + (Cell(c, Ptr(w), "std::unique_ptr<%s>" % CL.CT, "child"),)); s.ret = Ptr(w); return
    pl = td.cell.get().f["m_clusters_on_partition"].get(); s.dontcare |= {id(v.cell), id(pl.cell)}; n0 = pl.length
    def chk(it, r):
        if not isinstance(r, Ptr) or r.cell is None: return False, "no child"
        w = r.cell.get(); g = lambda n: w.f[n].get() if n in w.f else None; k = v.cell.get()
        if len(k) != len(old) + 1 or any(x is not y for x, y in zip(k, old)): return False, "children: %r" % (k,)
        if not isinstance(k[-1].get(), Ptr) or k[-1].get().cell is not r.cell: return False, "the child added is not the one returned"
        for n, e in (("m_rank", rank), ("m_offset", off), ("m_size", size), ("m_counter", cnt), ("m_depth", ip(d) + 1)):
            if not c.ieq(g(n), e): return False, "%s is %r instead of %r" % (n, g(n), e)
        if not c.meq(it.toscal(g("m_radius")), it.toscal(rad))[0]: return False, "radius %r" % (g("m_radius"),)
        y = g("m_center")
        if not isinstance(y, Vec) or y.buf is cen.buf or not c.ieq(y.buf.size, L) or X is not None and not c.meq(c.view(BPtr(y.buf, 0), L, 1, L), X)[0]: return False, "center"
        if not c.prove(z3.Not(bz(g("m_is_root")))): return False, "marked as root"
        if not isinstance(g("m_tree_data"), Ptr) or g("m_tree_data").cell is not td.cell: return False, "tree data not shared"
        if not (isinstance(g("m_children"), PyVec) and not g("m_children").items): return False, "children of the child"
        ev = pl.cell.v[1]
        if not ev: return c.prove(z3.Not(on)), "not registered as a part"
        if not c.prove(on): return False, "registered as a part"
        if ev[-1][0] != "put" or not c.ieq(ev[-1][1], rank) or not isinstance(ev[-1][2], Ptr) or ev[-1][2].cell is not r.cell and ev[-1][2].cell.get() is not w: return False, "registered as %r" % (ev,)
        if len(ev) == 1: return c.prove(c.zi(rank) < c.zi(n0)), "rank %r of %r parts" % (rank, n0)
        return len(ev) == 2 and ev[0][0] == "resize" and c.ieq(ev[0][1], ip(rank) + 1) and c.prove(c.zi(rank) + 1 > c.zi(n0)), "list of parts: %r" % (ev,)
    s.postchecks.append(("the new child has what is given, one level below, and is registered when it is a part", chk))
def Imp_(a, b): return z3.Implies(a, b)
def node(it, name, off, size, rank, cnt, depth, cen, rad, td, on):
    ctx = it.ctx; o = Obj(ctx, CL.CT, name); f = o.f; t = "std::vector<std::unique_ptr<%s>>" % CL.CT
    for n, v, ty in (("m_offset", off, "int"), ("m_size", size, "int"), ("m_rank", rank, "int"), ("m_counter", cnt, "int"), ("m_depth", depth, "unsigned int"), ("m_is_root", z3.BoolVal(False), "bool"), ("m_radius", rad, "double"), ("m_tree_data", td, "std::shared_ptr<%s>" % CL.TD), ("m_children", PyVec(ctx, t), t)): f[n] = Cell(ctx, v, ty, "%s.%s" % (name, n))
    X, L = cen; b = Buf(ctx, L, X, name + ".center"); b.ghost["vector"] = True; f["m_center"] = Cell(ctx, Vec(ctx, b, "double"), "std::vector<double>", name + ".m_center"); o.ghost["on"] = on
    return Cell(ctx, o, CL.CT, name)
C.append(Contract(AC, mk_add, add, pred=lambda f: "htool::Cluster<" in f["cls"] and "HMatrix<" not in f["cls"] and len(f["p"]) == 7, title=AC + " (clusters)"))

# ---- the strategies, by their interface
def sdirection(s, f, this, a):
    """a direction of the dimension of the points"""
    ctx = s.ctx; d = ctx.inorm(a[2].get()); c = a[0].get().cell; o, n, v = CL.fld(c, "m_offset"), CL.fld(c, "m_size"), a[1].get()
    s.req("the cluster is within the points", isinstance(v, Vec) and ctx.zi(ip(o) + n) <= ctx.zi(v.buf.size)); ctx.asked = getattr(ctx, "asked", []) + [("direction", c)]
    b = Buf(ctx, d, ctx.gen(ctx.fresh("direction"), d, 1), "direction"); b.ghost["vector"] = True; s.ret = Vec(ctx, b, "double")
C.append(Contract(H + "VirtualDirectionComputationStrategy::compute_direction", None, sdirection, verify=False))
def ssplit(s, f, this, a):
    """nothing, or as many parts as asked for that tile the cluster, each larger than the minimum (proved of both strategies)"""
    ctx = s.ctx; c = a[0].get().cell; off, size = CL.fld(c, "m_offset"), CL.fld(c, "m_size"); k, mn = ctx.inorm(a[4].get()), ctx.inorm(a[5].get()); z = ctx.zi; pv = a[7].get()
    s.req("at least one child", z(k) >= 1); s.req("the minimal size is not negative", z(mn) >= 0); s.req("the cluster is within the points", z(ip(off) + size) <= z(a[1].get().buf.size))
    n = ctx.fint("parts", 0); ctx.assume(z3.Or(n.z() == 0, z(n) == z(k))); nv = pairs.fresh_pairs(ctx, pv.t, n, ctx.fresh("parts")); A, B = nv.a.buf, nv.b.buf; g, h = (lambda x: z3.Select(A.arr, x)), (lambda x: z3.Select(B.arr, x))
    # the parts tile the cluster, so each is within it: by induction on the parts, from the first one on and from the last one back
    lo = lambda x: g(x) >= z(off); hi = lambda x: g(x) + h(x) <= z(ip(off) + size); i = z3.Int("i!til"); S = z3.Solver(); S.set("timeout", 4000); nz = z(n); S.add(z(mn) >= 0, nz > 0, *[y for x in (i, i + 1, nz - 1) for y in (g(0) == z(off), g(nz - 1) + h(nz - 1) == z(ip(off) + size), z3.Implies(z3.And(i >= 0, i < nz - 1), g(i + 1) == g(i) + h(i)), z3.Implies(z3.And(x >= 0, x < nz), h(x) > z(mn)))])
    S.add(z3.Not(z3.And(lo(z3.IntVal(0)), hi(nz - 1), z3.Implies(z3.And(i >= 0, i + 1 < nz), z3.And(z3.Implies(lo(i), lo(i + 1)), z3.Implies(hi(i + 1), hi(i)))))))
    if S.check() != z3.unsat: raise Unsupported("parts within the cluster")
    def facts(x):
        x = z(x); return [z3.Implies(z3.And(x >= 0, x < nz), z3.And(lo(x), hi(x), h(x) > z(mn)))]
    for b in (A, B): b.ghost["facts"] = (b.arr, facts)
    for x, y in ((pv.a, nv.a), (pv.b, nv.b)): s.dontcare |= {id(x.cell), id(x.buf)}; s.it.store(x.cell, y.buf)
    ctx.asked = getattr(ctx, "asked", []) + [("parts", c, k, mn, a[1].get())]
C.append(Contract(H + "VirtualSplittingStrategy::splitting", None, ssplit, verify=False))

# ---- the tree
CTV = "std::vector<std::unique_ptr<%s>>" % CL.CT
def mk_tree(it, f):
    ctx = it.ctx; N, d = ctx.fint("points", 1), ctx.fint("dim", 1); ctx.npoints = N; o = Obj(ctx, TBT, "this"); fl = o.f
    fl["m_minclustersize"] = Cell(ctx, ctx.fint("minclustersize", 0), "int", "m_minclustersize"); fl["m_partition_type"] = Cell(ctx, ctx.fint("type", 0), "htool::ClusterTreeBuilder<double>::PartitionType", "m_partition_type")
    pv = "std::vector<std::pair<int, int>>"; fl["m_partition"] = Cell(ctx, Sink(ctx, pv), pv, "m_partition")
    for n, t in (("m_direction_computation_strategy", "htool::VirtualDirectionComputationStrategy<double>"), ("m_splitting_strategy", "htool::VirtualSplittingStrategy<double>")): fl[n] = Cell(ctx, Ptr(Cell(ctx, Obj(ctx, t, n), t, n)), "std::shared_ptr<%s>" % t, n)
    out = []; T = ctx.tree = dict(N=N, d=d, nc=ctx.fint("children", 2), parts=ctx.fint("parts", 1), mn=fl["m_minclustersize"].get()); names = [p["n"] for p in f["p"]]
    given = "partition" in names and ctx.choose(2, "partition given") == 0; T["given"] = given
    for p in f["p"]:
        t, n = p["t"], p["n"]
        if n == "coordinates": v = BPtr(Buf(ctx, N * d, ctx.gen("x", d, N), n), 0)
        elif n in ("weights", "radii"): v = BPtr(Buf(ctx, N, ctx.gen(n, N, 1), n), 0) if ctx.choose(2, n) == 0 else NULL; T["null"] = T.get("null", ()) + ((n,) if v is NULL else ())
        elif n == "partition":
            v = NULL
            if given:
                arr = z3.Array("partition", z3.IntSort(), z3.IntSort()); g = lambda x: z3.Select(arr, x); P = T["parts"]; b = IBuf(ctx, ctx.inorm(P * 2), arr, "partition"); v = BPtr(b, 0)
                # the given parts are ranges of points
                def facts(x):
                    k = [q for q in (half(x), half(x - 1)) if q is not None]
                    return [z3.Implies(z3.And(ctx.zi(q) >= 0, ctx.zi(q) < ctx.zi(P)), z3.And(g(ctx.zi(q) * 2) >= 0, g(ctx.zi(q) * 2 + 1) >= 0, g(ctx.zi(q) * 2) + g(ctx.zi(q) * 2 + 1) <= N.z())) for q in k]
                b.ghost["facts"] = (arr, facts)
        elif n == "number_of_points": v = N
        elif n == "spatial_dimension": v = d
        elif n == "number_of_children": v = T["nc"]
        elif n.startswith("size"): v = T["parts"]
        else: raise Unsupported("argument " + n)
        out.append(Cell(ctx, v, t, n))
    return Cell(ctx, o, TBT, "this"), out
def half(x):
    """x / 2 when every coefficient is even"""
    return IPoly({m: k // 2 for m, k in x.t.items()}) if all(k % 2 == 0 for k in x.t.values()) else None
class Sink:
    """a member that is only written"""
    def __init__(s, ctx, t): s.ctx = ctx; s.t = t
    def push(s, it, *v): return None
def points(s, T):
    ctx = s.ctx; xs = T["x"]; N, d = T["N"], T["d"]; return ctx.mnorm(s.view(xs, d, N, d)), T["r"], T["w"]
def center_of(it, T, P, off, size):
    c = it.ctx; m, t = center(ItCtx(it), T["d"], T["N"], T["X"], T["w"], P, off, size); return c.mnorm(MTerm(T["d"], 1, c.smul(m, it.sarith("/", MTerm.scalar(SPoly.const(1)), t)).t)) if not c.mzero(m) else m
class ItCtx:
    def __init__(s, it): s.it = it; s.ctx = it.ctx
def radius_of(it, T, P, cen, off, size): return it.ctx.scal(radius_name(T["X"], T["r"], cen, P, off) + "<%r>" % (it.ctx.inorm(size),), True)
def fields(o): return {n: o.f[n].get() for n in ("m_offset", "m_size", "m_rank", "m_counter", "m_depth", "m_radius", "m_center", "m_is_root", "m_tree_data", "m_children") if n in o.f}
def differs(it, T, P, o, want):
    """'' or what distinguishes the node from what it should be"""
    c = it.ctx; g = fields(o)
    for n in ("m_offset", "m_size", "m_rank", "m_counter", "m_depth"):
        if not c.ieq(g[n], want[n]): return "%s is %r instead of %r" % (n, g[n], want[n])
    cen = center_of(it, T, P, want["m_offset"], want["m_size"]); v = g["m_center"]
    if not isinstance(v, Vec) or not c.ieq(v.buf.size, T["d"]): return "center %r" % (v,)
    ok, dd = c.meq(c.view(BPtr(v.buf, 0), T["d"], 1, T["d"]), cen)
    if not ok: return "center is off by %r" % (dd,)
    ok, dd = c.meq(c.mnorm(it.toscal(g["m_radius"])), radius_of(it, T, P, cen, want["m_offset"], want["m_size"]))
    if not ok: return "radius %r" % (g["m_radius"],)
    if not c.prove(z3.Not(bz(g["m_is_root"]))): return "marked as root"
    if not isinstance(g["m_tree_data"], Ptr) or g["m_tree_data"].cell is not T["td"].cell: return "data of another tree"
    if not (isinstance(g["m_children"], PyVec) and not g["m_children"].items): return "children of a new node"
    if not c.prove(bz(o.ghost.get("on", z3.BoolVal(False))) == bz(want["on"])): return "registered as a part: %r instead of %r" % (o.ghost.get("on"), want["on"])
    return ""
def level(it, T):
    """(depth of the partition, children per cluster above it, additional ones for the last cluster), None for a given partition"""
    c = it.ctx
    if T["given"]: return None
    if "level" not in T:
        z = c.zi
        if c.prove(z(T["parts"]) < z(T["nc"])): T["level"] = (IPoly.const(1), T["parts"], IPoly.const(0))
        elif c.prove(z(T["parts"]) >= z(T["nc"])):
            d = [x for x in getattr(c, "floorlogs", []) if c.ieq(x[0], T["nc"]) and c.ieq(x[1], T["parts"])]
            if not d: raise Unsupported("depth of the partition")
            T["level"] = (d[0][2], T["nc"], c.inorm(T["parts"] - c.models.power(it, T["nc"], d[0][2])))
        else: raise Unsupported("depth of the partition")
    return T["level"]
def good(it, T, o):
    """what is known of a node that waits: a range of points, no children, and the numbers of its place in the tree"""
    c = it.ctx; g = fields(o); z = c.zi; L = level(it, T); rk, cnt, d = z(g["m_rank"]), z(g["m_counter"]), z(g["m_depth"])
    out = [("the node is a range of points", z3.And(z(g["m_offset"]) >= 0, z(g["m_size"]) >= 0, z(ip(g["m_offset"]) + g["m_size"]) <= z(T["N"]))), ("the number of the node is not negative", cnt >= 0), ("its depth is not negative", d >= 0)]
    if L is None: return out + [("the node is in a part", z3.And(rk >= 0, rk < z(T["parts"]), d >= 1))]
    dop, m, add = L; pw = z(c.models.power(it, T["nc"], ip(g["m_depth"])))
    return out + [("a node above the partition has no part and its number is one of its level", z3.Implies(d < z(dop), z3.And(rk == -1, cnt < pw))), ("a node of the partition or below it has the number of its part", z3.Implies(d >= z(dop), z3.And(rk >= 0, rk < z(T["parts"]))))]
def fits(it, T, o):
    c = it.ctx; g = fields(o); out = [(l, e, "") for l, e in good(it, T, o)]
    return out + [("the node has no children yet", isinstance(g["m_children"], PyVec) and not g["m_children"].items, ""), ("the node belongs to the tree", isinstance(g["m_tree_data"], Ptr) and g["m_tree_data"].cell is T["td"].cell, "")]
def env(it, pred): return [v for v in it.fr.env.values() if isinstance(v, (Cell, Tmp)) and pred(v.get())]
def scratch(it):
    """local floating-point variables and vectors that nothing points to"""
    bs = {id(v.get().buf) for v in it.fr.env.values() if isinstance(v, (Cell, Tmp)) and isinstance(v.get(), BPtr)}; out = [v for v in it.fr.env.values() if isinstance(v, Cell) and isinstance(v.get(), MTerm)]
    for v in env(it, lambda v: isinstance(v, Vec) and v.et in SCALARS and id(v.buf) not in bs): out.append(v.get().cell)
    return out
def ptrvec(v): return isinstance(v, PyVec) and strip(v.t).startswith("std::vector<%s *" % CL.CT)
class KidsInv:
    """after p rounds the first p parts are children of the node, in order, each with the centre and radius of its points"""
    def __init__(s, it, loop):
        s.it = it; s.ctx = c = it.ctx; s.n_ = loop.n; s.T = c.tree
    def setup(s):
        c = s.ctx; it = s.it; T = s.T
        decl = {d["id"] for d in s.n_["i"].get("d", [])} if isinstance(s.n_.get("i"), dict) else set(); own = [it.fr.env[i] for i in decl if i in it.fr.env]
        if len(own) != 1: raise Unsupported("loop over the parts")
        s.j = own[0]; s.prev = None; s.item = getattr(c, "item", None)
        roots = env(it, lambda v: isinstance(v, Obj) and v.t == CL.CT)
        if len(roots) != 1: raise Unsupported("root of the tree")
        s.root = roots[0].get(); T["td"] = s.root.field("m_tree_data").get(); s.o = s.item.get() if s.item is not None else s.root; s.kids = s.o.field("m_children").get()
        st = env(it, lambda v: isinstance(v, PyVec) and tmpl(strip(v.t))[0] == "std::stack"); cs = env(it, ptrvec)
        if len(st) != 1: raise Unsupported("stack of nodes")
        s.list = [st[0].get()] if s.item is None else [x.get() for x in cs]; s.P = None; s.before = [list(x.items) for x in s.list]
        b = s.root.field("m_tree_data").get().cell.get().field("m_permutation").get().cell.get().buf; s.P = perm_of(c, BPtr(b, 0), T["N"])
        if s.P is None: raise Unsupported("permutation of the points")
        if "X" not in T: base(it, T, env(it, lambda v: isinstance(v, BPtr)))
        if s.item is None: s.part = lambda k: (c.name_int(T["of"][0](k)) if hasattr(c, "name_int") else None, None); s.n = T["parts"]
        else:
            pv = [x.get() for x in env(it, lambda v: isinstance(v, pairs.PairVec))]
            if len(pv) != 1: raise Unsupported("parts of the node")
            s.pv = pv[0]; s.n = s.pv.size()
        s.memo = {}; s.flags = [(v, bz(v.get())) for v in it.fr.env.values() if isinstance(v, Cell) and (isinstance(v.get(), bool) or z3.is_bool(v.get()))]
    def mods(s): return [s.kids.cell, s.j] + ([v for v, _ in s.flags] if s.item is not None and here(s.it, s.T, s.o)[0] else []) + [v.cell for v in s.list] + scratch(s.it)
    def want(s, k):
        c, T = s.ctx, s.T; k = c.inorm(ip(k)); g = fields(s.o); L = level(s.it, T)
        if s.item is None: return dict(m_offset=ElemRef(c, s.partbuf(), c.inorm(k * 2)).get(), m_size=ElemRef(c, s.partbuf(), c.inorm(k * 2 + 1)).get(), m_rank=k, m_counter=k, m_depth=IPoly.const(1), on=True)
        w = dict(m_offset=ElemRef(c, s.pv.a.buf, k).get(), m_size=ElemRef(c, s.pv.b.buf, k).get(), m_depth=c.inorm(ip(g["m_depth"]) + 1)); at, m, add = here(s.it, T, s.o); nk = asked(s.it, T, s.o)
        if at: w.update(m_rank=c.inorm(ip(g["m_counter"]) * m + k), m_counter=c.inorm(ip(g["m_counter"]) * m + k), on=True)
        else: w.update(m_rank=g["m_rank"], m_counter=c.inorm(ip(g["m_counter"]) * nk + k), on=False)
        return w
    def partbuf(s): return s.T["partition"]
    def elem(s, k):
        r = repr(s.ctx.inorm(ip(k)))
        if r not in s.memo:
            c = s.ctx; w = s.want(k); cen = center_of(s.it, s.T, s.P, w["m_offset"], w["m_size"])
            s.memo[r] = node(s.it, "child<%s>" % r, w["m_offset"], w["m_size"], w["m_rank"], w["m_counter"], w["m_depth"], (cen, s.T["d"]), radius_of(s.it, s.T, s.P, cen, w["m_offset"], w["m_size"]), s.T["td"], bz(w["on"]))
        return s.memo[r]
    def of(s, n, t): return AbsList(s.ctx, t, s.ctx.fresh("children"), n, lambda k: Cell(s.ctx, Ptr(s.elem(k)), t, "child"))
    def holds(s):
        c = s.ctx; j = c.inorm(s.j.get()); z = c.zi; out = [("the part is in range", z3.And(z(j) >= 0, z(j) <= z(s.n)), "")]; k = s.kids.items
        if s.flags: at = s.item is not None and here(s.it, s.T, s.o)[0]; out += [("flag %s" % v.name, z3.Or(bz(v.get()) == b, z3.BoolVal(at)), "changes above the partition or below it") for v, b in s.flags]
        if s.prev is None: return out + [("no child before the loop", not k and all(not x.items for x in s.list) and c.ieq(j, 0), "%r %r" % (k, s.before))]
        new = [v.items for v in [s.kids] + s.list]; bad = [v for v, o in zip(new, s.at) if len(v) != len(o) + 1 or any(x is not y for x, y in zip(v, o)) or not isinstance(v[-1], Cell) or not isinstance(v[-1].get(), Ptr)]
        if bad: return out + [("one child per part", False, "%r" % (bad,))]
        w = new[0][-1].get().cell; why = differs(s.it, s.T, s.P, w.get(), s.want(s.prev))
        return out + [("one child per part", c.ieq(j, s.prev + 1) and all(v[-1].get().cell is w for v in new), "%r" % (j,)), ("the child is the part", not why, why)]
    def assume(s):
        c = s.ctx; j = c.fint("part", 0); c.assume(j.z() <= c.zi(s.n)); s.j.set(j); s.prev = j; s.at = []
        if s.flags:
            at = s.item is not None and here(s.it, s.T, s.o)[0]
            for v, b in s.flags if at else (): v.set(z3.Bool(c.fresh("flag")))
        for v in [s.kids] + s.list:
            its = (ListRef(s.of(j, v.t)),); v.cell.set(its); s.at.append(its)
def here(it, T, o):
    """is the node one level above the partition; the children asked for there"""
    c = it.ctx; L = level(it, T)
    if L is None: return False, None, None
    return c.branch(c.zi(o.f["m_depth"].get()) == c.zi(L[0]) - 1), L[1], L[2]
def asked(it, T, o):
    """number of children asked of the splitting"""
    c = it.ctx; at, m, add = here(it, T, o)
    if not at: return T["nc"]
    return c.inorm(m + add) if c.branch(c.zi(o.f["m_counter"].get()) == c.zi(c.models.power(it, T["nc"], ip(o.f["m_depth"].get()))) - 1) else m
def base(it, T, ptrs):
    """the matrices of the points, their radii and weights"""
    ctx = it.ctx; s = Spec(it, "verify") if False else None
    by = {}
    for v in it.fr.env.values():
        if isinstance(v, (Cell, Tmp)) and isinstance(v.get(), BPtr): by[v.name] = v.get()
    N, d = T["N"], T["d"]; T["X"] = ctx.mnorm(ctx.view(by["coordinates"], d, N, d)); T["r"] = ctx.mnorm(ctx.view(by["radii"], N, 1, N)); T["w"] = ctx.mnorm(ctx.view(by["weights"], N, 1, N))
    T["ptrs"] = by
    if "partition" in by: T["partition"] = by["partition"].buf
class TreeInv:
    """every node that waits is a range of points without children yet; the node at hand gets as children the parts that the splitting made of it, or none; points are only rearranged within the node at hand"""
    def __init__(s, it, loop):
        s.it = it; s.ctx = it.ctx; s.T = it.ctx.tree
    def setup(s):
        it, c, T = s.it, s.ctx, s.T
        roots = env(it, lambda v: isinstance(v, Obj) and v.t == CL.CT); st = env(it, lambda v: isinstance(v, PyVec) and tmpl(strip(v.t))[0] == "std::stack")
        if len(roots) != 1 or len(st) != 1: raise Unsupported("root and stack of nodes")
        s.root = roots[0].get(); T["td"] = s.root.field("m_tree_data").get(); s.st = st[0].get(); td = T["td"].cell.get(); s.td = td; s.pb = td.field("m_permutation").get().cell.get(); s.x = None
        if "X" not in T: base(it, T, None)
        s.rk = s.root.field("m_children").get()
    def mods(s):
        out = [s.st.cell, s.pb.buf, s.rk.cell] + [s.td.field(n) for n in ("m_max_depth", "m_min_depth")] + scratch(s.it)
        for v in env(s.it, lambda v: isinstance(v, pairs.PairVec)): out += [v.get().a.cell, v.get().b.cell, v.get().a.buf, v.get().b.buf]
        return out
    def holds(s):
        it, c, T = s.it, s.ctx, s.T; its = s.st.items; out = [("the permutation has one entry per point", isinstance(s.pb, Vec) and c.ieq(s.pb.buf.size, T["N"]), ""), ("the permutation is one", perm_of(c, BPtr(s.pb.buf, 0), T["N"]) is not None, "")]
        if s.x is None:
            out.append(("the root has no children, or they wait", not s.rk.items and len(its) == 1 and isinstance(its[0], Cell) and its[0].get().cell.get() is s.root or len(its) == 1 and isinstance(its[0], ListRef) and len(s.rk.items) == 1 and isinstance(s.rk.items[0], ListRef), "%r" % (its,)))
            for n in T.get("null", ()):
                k = c.fint("point", 0); c.assume(k.z() < c.zi(T["N"])); p = T["ptrs"][n]; v = c.mnorm(it.toscal(c.elem_get(p.buf, c.inorm(p.off + k)))); e = MTerm.scalar(SPoly.const(1 if n == "weights" else 0)); out.append(("default " + n, c.ieq(p.buf.size, T["N"]) and c.meq(v, e)[0], "%r" % (v,)))
            return out + s.fit(its)
        # the node at hand: its children are what the splitting returned and they wait, with the others
        x, g = s.x.get(), s.g; kids = x.f["m_children"].get().items; asks = getattr(c, "asked", [])[s.na:]; sp = [a for a in asks if a[0] == "parts"]; L = level(it, T); nk = asked(it, T, x)
        out.append(("the node at hand keeps its numbers", all(c.ieq(x.f[n].get(), g[n]) for n in ("m_offset", "m_size", "m_rank", "m_counter", "m_depth")), ""))
        out.append(("the other nodes still wait", len(its) >= 1 and its[0] is s.rest, "%r" % (its,)))
        out.append(("the node is divided once, into the number of children of its level", len(sp) == 1 and sp[0][1] is s.x and c.ieq(sp[0][2], nk) and c.ieq(sp[0][3], T["mn"]) and sp[0][4] is s.pb, "%r instead of %r" % ([a[2:4] for a in sp], nk)))
        so = [x_ for x_ in getattr(c, "sorts", [])[s.ns:]]
        out.append(("points are rearranged within the node", all(b is s.pb.buf and c.prove(z3.And(c.zi(lo) >= c.zi(g["m_offset"]), c.zi(hi) <= c.zi(ip(g["m_offset"]) + g["m_size"]))) for b, lo, hi, o, n in so) and s.chain(so), "%r" % ([(r[1], r[2]) for r in so],)))
        pv = [y.get() for y in env(it, lambda v: isinstance(v, pairs.PairVec))]; k = pv[0].size() if len(pv) == 1 else None
        mx, mnn = s.td.field("m_max_depth").get(), s.td.field("m_min_depth").get(); d = g["m_depth"]; z = c.zi
        if k is None: raise Unsupported("parts of the node")
        if c.branch(c.zi(k) > 0):
            l = kids[0].l if len(kids) == 1 and isinstance(kids[0], ListRef) else None
            out.append(("one child per part", l is not None and c.ieq(l.length, k), "%r" % (kids,)))
            out.append(("the depths of the tree are unchanged", c.ieq(mx, s.d0[0]) and c.ieq(mnn, s.d0[1]), ""))
            if l is not None:
                ok, why = s.pushed(its[1:], l); out.append(("every child waits", ok, why)); return out + s.fit((ListRef(l),))
            return out
        out.append(("a node that is not divided has no children", not kids and len(its) == 1, "%r" % (kids,)))
        leaf = z(g["m_rank"]) >= 0; M_, m_ = z(s.d0[0]), z(s.d0[1])
        out.append(("the depths of the tree count the leaf", z3.If(leaf, z3.And(z(mx) == z3.If(M_ >= z(d), M_, z(d)), z(mnn) == z3.If(m_ <= z(d), m_, z(d))), z3.And(z(mx) == M_, z(mnn) == m_)), "%r %r" % (mx, mnn)))
        return out
    def chain(s, so):
        cur = s.arr
        for b, lo, hi, o, n in so:
            if o.get_id() != cur.get_id(): return False
            cur = n
        return s.pb.buf.arr.get_id() == cur.get_id()
    def pushed(s, its, l):
        """the new items of the stack are the children, each once"""
        if len(its) == 1 and isinstance(its[0], ListRef): return same_list(s.ctx, its[0].l, l)
        if len(its) == 1 and isinstance(its[0], Gen):
            gn = its[0]; e = l.at(IPoly.atom(gn.kn)).get(); 
            if s.ctx.ieq(gn.n, l.length) and isinstance(gn.v, Ptr) and gn.v.cell is not e.cell: raise Unsupported("the children wait in another order")
            return s.ctx.ieq(gn.n, l.length) and isinstance(gn.v, Ptr), "%r" % (gn.v,)
        return False, "%r" % (its,)
    def fit(s, its):
        it, c = s.it, s.ctx; out = []
        for v in its:
            if isinstance(v, Cell): out += fits(it, s.T, v.get().cell.get())
            elif isinstance(v, ListRef):
                k = c.fint("waiting", 0); c.assume(k.z() < c.zi(v.l.length)); out += fits(it, s.T, v.l.at(k).get().cell.get())
            else: out.append(("items of the stack", False, "%r" % (v,)))
        return out
    def assume(s):
        it, c, T = s.it, s.ctx, s.T; level(it, T); arr = z3.Array(c.fresh("permutation"), z3.IntSort(), z3.IntSort()); s.pb.buf.setc(arr); s.arr = arr; c.permof = dict(getattr(c, "permof", {})); c.permof[arr.get_id()] = (arr, MTerm.of(Atom("perm", str(arr), T["N"], T["N"], real=True)))
        s.rk.cell.set((Rest(c.fint("n_children", 0)),)); s.d0 = []
        for n in ("m_max_depth", "m_min_depth"): v = c.fint(n, 0); s.td.field(n).set(v); s.d0.append(v)
        if c.choose(2, "stack") == 0: s.st.cell.set(()); s.x = Cell(c, None, "?", "none"); return
        f = lambda n, lo: c.fint("node." + n, lo); d = T["d"]
        w = node(it, c.fresh("node"), f("offset", 0), f("size", 0), f("rank", -1), f("counter", 0), f("depth", 0), (c.gen(c.fresh("node.center"), d, 1), d), c.scal(c.fresh("node.radius"), True), T["td"], z3.Bool(c.fresh("on"))); w.get().f["m_is_root"] = Cell(c, z3.Bool(c.fresh("is_root")), "bool", "m_is_root")
        for l, e in good(it, T, w.get()): c.assume(e)
        s.x = c.item = w; s.g = fields(w.get()); s.na = len(getattr(c, "asked", [])); s.ns = len(getattr(c, "sorts", [])); s.rest = Rest(c.fint("n_waiting", 0)); s.st.cell.set((s.rest, Cell(c, Ptr(w), CL.CT + " *", "top")))
def same_list(c, a, b):
    if a is b: return True, ""
    if not c.ieq(a.length, b.length): return False, "%r items instead of %r" % (a.length, b.length)
    k = c.fint("item", 0); c.assume(k.z() < c.zi(a.length)); x, y = a.at(k).get(), b.at(k).get(); return isinstance(x, Ptr) and isinstance(y, Ptr) and x.cell is y.cell, "%r" % (x,)
def tree_inv(it, loop):
    if not env(it, lambda v: isinstance(v, PyVec) and tmpl(strip(v.t))[0] == "std::stack") or getattr(it.ctx, "tree", None) is None: return None
    if loop.kind == "While": return TreeInv(it, loop)
    if loop.kind == "For" and (getattr(it.ctx, "item", None) is None or not env(it, lambda v: ptrvec(v) and v.items)): return KidsInv(it, loop)
    return None
LOOPINV[TB + "create_cluster_tree"] = tree_inv
def tree(s, f, this, a):
    ctx = s.ctx
    if s.mode == "call": d = a[1].get(); tc = Cell(ctx, Obj(ctx, CL.TD, "data"), CL.TD, "data"); o = node(s.it, ctx.fresh("tree"), IPoly.const(0), a[0].get(), IPoly.const(-1), IPoly.const(0), IPoly.const(0), (ctx.gen(ctx.fresh("center"), d, 1), d), ctx.scal(ctx.fresh("radius"), True), Ptr(tc), False).get(); ctx.made = getattr(ctx, "made", []) + [(tc, this, [x.get() for x in a])]; s.ret = o; return
    T = ctx.tree; s.dontcare |= {id(this.get().f["m_partition_type"])}
    def post(it, ret):
        o = ret.get() if hasattr(ret, "get") else ret
        if not isinstance(o, Obj): return False, "%r" % (o,)
        g = fields(o)
        for n, e in (("m_offset", 0), ("m_size", T["N"]), ("m_rank", -1), ("m_counter", 0), ("m_depth", 0)):
            if not ctx.ieq(g[n], e): return False, "%s of the root is %r" % (n, g[n])
        if not ctx.prove(bz(g["m_is_root"])): return False, "not a root"
        if g["m_tree_data"].cell is not T["td"].cell: return False, "data of another tree"
        P = MTerm.ident(T["N"]); cen = center_of(it, T, P, IPoly.const(0), T["N"]); v = g["m_center"]
        if not isinstance(v, Vec) or not ctx.meq(ctx.view(BPtr(v.buf, 0), T["d"], 1, T["d"]), cen)[0]: return False, "center of the root"
        if not ctx.meq(ctx.mnorm(it.toscal(g["m_radius"])), radius_of(it, T, P, cen, IPoly.const(0), T["N"]))[0]: return False, "radius of the root %r" % (g["m_radius"],)
        lp = T["td"].cell.get().field("m_is_permutation_local").get()
        if not ctx.prove(bz(lp) == z3.BoolVal(bool(T["given"]))): return False, "local permutation: %r" % (lp,)
        return True, ""
    s.postchecks.append(("the root holds all the points, and the permutation is local when the partition is given", post))
C.append(Contract(TB + "create_cluster_tree", mk_tree, tree, pred=lambda f: len(f["p"]) == 8, budget=400))

def short(s, f, this, a):
    """the tree of the points with default radii and weights"""
    c = s.ctx; n = {p["n"]: x.get() for p, x in zip(f["p"], a)}; v = [n["number_of_points"], n["spatial_dimension"], n["coordinates"], NULL, NULL, n["number_of_children"], [y for x, y in n.items() if x.startswith("size")][0], n.get("partition", NULL)]
    def same(x, y):
        if isinstance(x, BPtr) or isinstance(y, BPtr): return isinstance(x, BPtr) and isinstance(y, BPtr) and x.buf is y.buf and c.ieq(x.off, y.off)
        return x is y or isinstance(x, Ptr) and isinstance(y, Ptr) and x.cell is y.cell if isinstance(x, Ptr) else c.ieq(ip(x), ip(y))
    def post(it, ret):
        o = ret.get() if hasattr(ret, "get") else ret; m = [x for x in getattr(c, "made", []) if isinstance(o, Obj) and isinstance(o.f["m_tree_data"].get(), Ptr) and o.f["m_tree_data"].get().cell is x[0]]
        return len(m) == 1 and m[0][1].get() is this.get() and len(m[0][2]) == 8 and all(same(x, y) for x, y in zip(m[0][2], v)), "%r instead of %r" % (m, v)
    s.postchecks.append(("the tree of these points with default radii and weights", post))
C.append(Contract(TB + "create_cluster_tree", mk_tree, short, pred=lambda f: len(f["p"]) in (5, 6)))
