"""Contracts of the splitting strategies (include/htool/clustering/tree_builder/splitting.hpp): the cluster is cut into exactly the
number of children asked for, contiguous, in order and each larger than the minimal size, or not at all."""
import z3
from ..terms import *
from ..engine import *
from .. import models as M, pairs
from ..loops import LOOPINV
from ..contract import Contract, Spec
from .dense import H
from . import cluster as CL
C = []
def mk(it, f):
    ctx = it.ctx; t = strip(f["cls"]); o = Obj(ctx, t, "this")
    if "GeometricSplitting" in t: o.f["regular_splitting"] = Cell(ctx, Obj(ctx, "htool::RegularSplitting<double>", "regular"), "htool::RegularSplitting<double>", "regular_splitting")
    c = CL.mk_cluster(it, "cluster", parts=False); N = ctx.fint("points", 0); d = ctx.fint("dim", 1)
    ctx.assume((CL.fld(c, "m_offset") + CL.fld(c, "m_size")).z() <= N.z())
    pb = IBuf(ctx, N, z3.Array("permutation", z3.IntSort(), z3.IntSort()), "permutation"); pb.ghost["range"] = (0, N)
    x = Buf(ctx, N * d, ctx.gen("x", d, N), "coordinates"); dr = Buf(ctx, d, ctx.gen("dir", d, 1), "dir"); dr.ghost["vector"] = True
    k, mn = ctx.fint("children", 1), ctx.fint("minimum", 0)
    out = pairs.fresh_pairs(ctx, "std::vector<std::pair<int, int>>", ctx.fint("before", 0), "partition")
    def cell(v, t, n): return Cell(ctx, v, t, n)
    ps = f["p"]
    a = [cell(Ptr(c), ps[0]["t"], "curr_cluster"), cell(Vec(ctx, pb, "int"), ps[1]["t"], "permutation"), cell(d, "int", "spatial_dimension"), cell(BPtr(x, 0), ps[3]["t"], "x"), cell(k, "int", "current_number_of_children"), cell(mn, "int", "minclustersize"), cell(Vec(ctx, dr, "double"), ps[6]["t"], "dir"), cell(out, ps[7]["t"], "current_partition")]
    return Cell(ctx, o, t, "this"), a
def sel(v, i): return z3.Select(v.buf.arr, i)
def tiling(ctx, pv, off, size, k, mn):
    """k parts, the first starts at off, each starts where the one before ends, the last ends at off + size, all larger than mn"""
    z = ctx.zi; f = lambda i: sel(pv.a, i); g = lambda i: sel(pv.b, i); i = z3.Int("i!til"); kz = z(k)
    return [("as many parts as children", z(pv.size()) == kz), ("the first part starts with the cluster", f(z3.IntVal(0)) == z(off)), ("the last part ends with the cluster", f(kz - 1) + g(kz - 1) == z(off + size)),
            ("each part starts where the one before ends", z3.Implies(z3.And(i >= 0, i < kz - 1), f(i + 1) == f(i) + g(i))), ("every part is larger than the minimum", z3.Implies(z3.And(i >= 0, i < kz), g(i) > z(mn)))]
def split(s, f, this, a):
    ctx = s.ctx; c = a[0].get().cell; off, size = CL.fld(c, "m_offset"), CL.fld(c, "m_size"); k, mn = ctx.inorm(a[4].get()), ctx.inorm(a[5].get()); pv = a[7].get(); z = ctx.zi
    s.req("at least one child", z(k) >= 1); s.req("the minimal size is not negative", z(mn) >= 0); s.req("the cluster is within the points", z(off + size) <= z(a[1].get().buf.size))
    s.dontcare |= {id(pv.a.cell), id(pv.b.cell), id(pv.a.buf), id(pv.b.buf)}; regular = "Regular" in f["cls"]
    if s.mode == "call":
        n = ctx.fint("parts", 0); nv = pairs.fresh_pairs(ctx, pv.t, n, ctx.fresh("parts"))
        for x, y in ((pv.a, nv.a), (pv.b, nv.b)): s.it.store(x.cell, y.buf)
        til = tiling(ctx, pv, off, size, k, mn); i = z3.Int("i!til")
        ctx.assume(z3.Or(n.z() == 0, z(n) == z(k)))
        ctx.assume(z3.Implies(n.z() != 0, z3.And(*[z3.ForAll([i], e) if "each" in l or "every" in l else e for l, e in til])))
        if regular: ctx.assume(z3.Implies(n.z() == 0, z(size) < z(k) * (z(mn) + 1)))
        return
    def post(it, ret):
        if ctx.branch(z(pv.size()) == 0):
            # nothing: only when no division into parts larger than the minimum exists (the geometric strategy wants more points than children)
            no = z(size) < z(k) * (z(mn) + 1)
            return ctx.prove(no if regular else z3.Or(no, z(size) <= z(k))), "no parts although %r points can be divided into %r parts larger than %r" % (size, k, mn)
        for l, e in tiling(ctx, pv, off, size, k, mn):
            if not ctx.prove(e): return False, l
        return True, ""
    s.postchecks.append(("nothing, or as many parts as children that tile the cluster, each larger than the minimum", post))
    if regular:
        def bal(it, ret):
            if ctx.branch(z(pv.size()) == 0): return True, ""
            i, j = z3.Int("i!bal"), z3.Int("j!bal"); kz = z(k); g = lambda x: sel(pv.b, x)
            return ctx.prove(z3.Implies(z3.And(i >= 0, i < kz - 1, j >= 0, j < kz - 1), g(i) == g(j))) and ctx.prove(z3.Implies(z3.And(i >= 0, i < kz - 1), z3.And(g(kz - 1) >= g(i), g(kz - 1) < g(i) + kz))), "sizes differ by more than the rounding"
        s.postchecks.append(("the parts have the same size, the last takes the rest of the division", bal))
C.append(Contract(H + "RegularSplitting::splitting", mk, split, title=H + "RegularSplitting::splitting"))
C.append(Contract(H + "GeometricSplitting::splitting", mk, split, title=H + "GeometricSplitting::splitting", budget=120))

class GeomInv:
    """after p rounds the first p parts tile [offset, count), the later ones are still empty"""
    def __init__(s, it, loop):
        s.it = it; s.ctx = it.ctx; s.e = {}
        for v in it.fr.env.values():
            if isinstance(v, (Cell, Tmp)): s.e[v.name] = v
        for n in ("offsets", "sizes", "count", "offset", "size", "first_point", "current_number_of_children"):
            if n not in s.e: raise Unsupported("variable %s of the loop invariant" % n)
    def v(s, n): return s.e[n].get()
    def facts(s):
        z = s.ctx.zi; p = [c for c in s.it.fr.env.values() if isinstance(c, Cell) and c.name == "p"]
        if not p: raise Unsupported("loop variable p")
        p = z(p[-1].get()); O, S = s.v("offsets").buf, s.v("sizes").buf; k = z(s.v("current_number_of_children")); off, size = z(s.v("offset")), z(s.v("size")); cnt = s.v("count")
        if not isinstance(cnt, BPtr): raise Unsupported("count")
        n = z(cnt.off); i = z3.Int("i!ginv"); o = lambda j: z3.Select(O.arr, j); g = lambda j: z3.Select(S.arr, j); A = lambda lo, hi, e: z3.ForAll([i], z3.Implies(z3.And(i >= lo, i < hi), e))
        return [("the number of parts is kept", z3.And(z(O.size) == k, z(S.size) == k)), ("the round is in range", z3.And(p >= 0, p <= z3.If(k >= 1, k - 1, 0))), ("the search position is in the cluster", z3.And(n >= off, n <= off + size)),
                ("the first part starts with the cluster", z3.And(z3.Implies(p > 0, o(z3.IntVal(0)) == off), z3.Implies(p == 0, n == off))),
                ("parts follow each other", A(0, p - 1, o(i + 1) == o(i) + g(i))), ("the last part ends at the search position", z3.Implies(p > 0, o(p - 1) + g(p - 1) == n)), ("later parts are empty", A(p, k, g(i) == 0)),
                ("the reference point has the dimension of the points", z(s.v("first_point").buf.size) == z(s.e["spatial_dimension"].get()))]
    def holds(s): return [(l, e, "") for l, e in s.facts()]
    def assume(s):
        # the reference point is some point
        d = s.ctx.inorm(s.e["spatial_dimension"].get()); fp = s.v("first_point"); b = Buf(s.ctx, d, s.ctx.gen(s.ctx.fresh("point"), d, 1), "first_point"); b.ghost["vector"] = True; fp.cell.set(b)
        for l, e in s.facts(): s.ctx.assume(e)
def geom(it, loop):
    if loop.kind != "For" or "GeometricSplitting" not in it.fr.f["qn"]: return None
    if not any(isinstance(v, (Cell, Tmp)) and v.name == "count" for v in it.fr.env.values()): return None
    if any(isinstance(v, (Cell, Tmp)) and v.name == "p" for v in it.fr.env.values()): return None      # the loop that copies the result
    return GeomInv(it, loop)
LOOPINV[H + "GeometricSplitting::splitting"] = geom

# ---- directions (ComputeBoundingBox has one path per order of the coordinates: out of reach, bounded only): a direction of the dimension of the points, computed from reads inside the arguments and nothing modified
def mk_dir(it, f):
    ctx = it.ctx; this, a = mk(it, {"cls": "htool::RegularSplitting<double>", "p": [dict(t="", n="")] * 8}); d = a[2].get(); N = a[1].get().buf.size; c = a[0].get().cell
    cb = Buf(ctx, d, ctx.gen("center", d, 1), "center"); cb.ghost["vector"] = True; c.get().f["m_center"] = Cell(ctx, Vec(ctx, cb, "double"), "std::vector<double>", "m_center")
    rad = Buf(ctx, N, ctx.gen("radii", N, 1), "radii"); w = Buf(ctx, N, ctx.gen("weights", N, 1), "weights")
    t = strip(f["cls"]); ps = f["p"]
    return Cell(ctx, Obj(ctx, t, "this"), t, "this"), [a[0], a[1], a[2], a[3], Cell(ctx, BPtr(rad, 0), ps[4]["t"], "radii"), Cell(ctx, BPtr(w, 0), ps[5]["t"], "weights")]
def direction(s, f, this, a):
    ctx = s.ctx; d = ctx.inorm(a[2].get()); s.req("dimension 2 or 3", z3.Or(ctx.zi(d) == 2, ctx.zi(d) == 3)); c = a[0].get().cell
    s.req("the cluster is within the points", ctx.zi(CL.fld(c, "m_offset") + CL.fld(c, "m_size")) <= ctx.zi(a[1].get().buf.size))
    if s.mode == "call":
        b = Buf(ctx, d, ctx.gen(ctx.fresh("direction"), d, 1), "direction"); b.ghost["vector"] = True; s.ret = Vec(ctx, b, "double"); return
    s.postchecks.append(("a direction of the dimension of the points", lambda it, ret: (isinstance(ret, Vec) and ctx.ieq(ret.buf.size, d), "size %r" % (ret,))))
for n in ("ComputeLargestExtent",): C.append(Contract(H + n + "::compute_direction", mk_dir, direction, title=H + n + "::compute_direction"))
def evp(n):
    def g(s, f, this, a):
        ctx = s.ctx; m = a[0].get(); s.req("a %d x %d matrix" % (n, n), z3.And(ctx.zi(m.field("m_number_of_rows").get()) == n, ctx.zi(m.field("m_number_of_cols").get()) == n)); b = Buf(ctx, IPoly.const(n), ctx.gen(ctx.fresh("eigenvector"), n, 1), "eigenvector"); b.ghost["vector"] = True; s.ret = Vec(ctx, b, "double")
    return g
for n in (2, 3): C.append(Contract(H + "solve_EVP_%d" % n, None, evp(n), verify=False))
