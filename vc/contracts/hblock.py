"""Contracts of the accessors, copies and dense conversions of a hierarchical matrix (include/htool/hmatrix/hmatrix.hpp)."""
import re, z3
from ..terms import *
from ..engine import *
from .. import models as M
from ..contract import Contract, Spec, same
from ..loops import WORKLIST, LOOPINV, Gen
from .dense import num, H, mk_ptr, shape_ptr
from .hmatrix import *
from .hmatrix import bz, nid
from . import cluster as CL
C = []
HM = H + "HMatrix::"
def mk_this(it, f):
    a = []
    for p in f["p"]:
        t = strip(p["t"]); nm = p["n"] or "arg"
        if t.startswith("htool::Cluster<"): a.append(cluster_named(it, nm))
        elif t.startswith("htool::HMatrix<"): a.append(mk_hm(it, nm))
        else: a.append(mk_ptr(it, nm))
    return (mk_hm(it, "this") if not f.get("ctor") else None), a
def sameid(ctx, a, b):
    """the two clusters are the same node of the same tree"""
    x, y = a.get(), b.get(); g = lambda n: ctx.zi(x.field(n).get()) == ctx.zi(y.field(n).get())
    t = x.field("m_tree_data").get().cell is y.field("m_tree_data").get().cell
    return z3.And(bz(t), *[g(n) for n in ("m_offset", "m_size", "m_depth", "m_counter")])
class SearchWork(LeafWork):
    """the node of the tree with the two clusters asked for: nodes taken off the list before do not have them"""
    def __init__(s, it, loop, q):
        LeafWork.__init__(s, it, loop, q); s.key = [v for v in it.fr.env.values() if isinstance(v, Cell) and isinstance(v.get(), Obj) and v.get().t.startswith("htool::Cluster<") and v.name in ("target_cluster", "source_cluster")]
        if len(s.key) != 2: raise Unsupported("arguments of the search")
    def match(s, h): return z3.And(sameid(s.ctx, s.key[0], hT(h)), sameid(s.ctx, s.key[1], hS(h)))
    def step(s, x, p, acc):
        c = s.ctx; h = s.split(x)[0].cell
        return LeafWork.step(s, x, p, acc) + [("a node that has the clusters asked for is returned", c.prove(z3.Not(s.match(h))), "")]
    def found(s, x, v):
        h = s.split(x)[0].cell
        return [("the node returned is the current one", isinstance(v, Ptr) and v.cell is h, "%r" % (v,)), ("the node returned has the clusters asked for", s.ctx.prove(s.match(h)), "")]
    def leave(s, x): s.ctx.statics = dict(s.ctx.statics); s.ctx.statics["search"] = s.split(x)[0].cell
    def exhausted(s): s.ctx.statics = dict(s.ctx.statics); s.ctx.statics["search"] = None
WORKLIST[HM + "get_sub_hmatrix"] = lambda it, loop, q: SearchWork(it, loop, q)
def sub(s, f, this, a):
    ctx = s.ctx
    if s.mode == "verify":
        def chk(it, ret):
            if "search" not in ctx.statics: return False, "returns before the search"
            h = ctx.statics["search"]
            return isinstance(ret, Ptr) and ret.cell is h, "%r after %s" % (ret, "an exhausted search" if h is None else "finding a node")
        s.postchecks.append(("the node with the clusters asked for, null when there is none", chk)); return
    raise Unsupported("get_sub_hmatrix at a call")
C.append(Contract(HM + "get_sub_hmatrix", mk_this, sub, title=HM + "get_sub_hmatrix"))

# ---- conversions to dense.  Ghost: the leaves and the mirrored leaves tile the block; a leaf on the diagonal of a symmetric block stores both triangles
LEAF = re.compile(r"(.*)\.(leaf|mleaf)<(.*)>\.([TS])\.offset")
def side(ctx, at):
    """(block, list, index, T or S) when the selection is the range of a leaf"""
    if at.kind != "sel" or at.off is None: return None
    ns = [m for t in at.off.t for x in t for m in [LEAF.fullmatch(x)] if m]
    return ns[0].groups() if len(ns) == 1 and ctx.ieq(at.cols, IPoly.atom(ns[0].group(0)[:-6] + "size")) else None
def distinct(ctx, i, j):
    if i == j: return False
    if all(re.fullmatch(r"k\[\d+\]", x) for x in (i, j)): return ctx.prove(z3.Int(i) != z3.Int(j))
    return False
def tiling(s, h):
    """facts about the tiling, as rewriting rules of words and sums: blocks of different leaves do not meet, nor do a leaf and the
    mirror image of one; the restriction of the assembled leaves to the block of a leaf is that leaf"""
    ctx = s.ctx; nm = h.get().ghost["hname"]; T, S = hT(h), hS(h); t0, s0, r, c = coff(T), coff(S), csz(T), csz(S); pl = plain(ctx, h); pk = next(iter(pl.t))[0][0].key(); rest = nm + ".rest"
    def block(lo, hi):
        """the block with the rows of lo and the columns of hi: (list, index, mirrored)"""
        a, b = side(ctx, lo), side(ctx, hi)
        if a is None or b is None or a[:3] != b[:3] or a[0] != nm or a[3] == b[3]: return None
        return a[1], a[2], a[3] == "S"
    sel = lambda f, o: f[0].kind == "sel" and f[1] == o
    one = lambda fs: MTerm(1, 1, {tuple(fs): SPoly.const(1)})
    def rule(ctx, w):
        n = len(w)
        for i in range(n):
            if not sel(w[i], "T"): continue
            for j in range(i + 2, n):
                if not sel(w[j], "N"): continue
                b = block(w[i][0], w[j][0])
                if b is None: continue
                mid = w[i + 1:j]; lst, idx, mir = b
                if len(mid) == 1:
                    m, o = mid[0]; sw = OPS[o][0] == 1       # the block of m itself is (t, s) when mir == sw
                    if m.key() == pk:
                        if mir != sw: return (None,)         # nothing of the assembled leaves where the mirror images are
                        z = ctx.gen("%s.%s<%s>.mat" % (nm, lst, idx), *((w[j][0].cols, w[i][0].cols) if sw else (w[i][0].cols, w[j][0].cols)))
                        return (one(w[:i]).mul(z.op(o, ctx.realscal)).mul(one(w[j + 1:])),)
                    if m.name == rest and mir == sw: return (None,)      # the rest vanishes on the leaves
                elif len(mid) >= 3 and sel(mid[0], "N") and sel(mid[-1], "T"):
                    b2 = block(mid[0][0], mid[-1][0])
                    if b2 is None: continue
                    # words may be transposed as a whole: only whether both blocks are on the same side counts
                    if mir != b2[2] or (lst == b2[0] and distinct(ctx, idx, b2[1])): return (None,)
        return None
    ctx.wordrules.append(rule); ctx.disj = True
    n1, n2 = IPoly.atom(nm + ".leaf.count"), IPoly.atom(nm + ".mleaf.count")
    def cover(lst, n, mir):
        def f(ctx, w, dep, k, K):
            i = dep[0]
            if not ctx.ieq(K, n) or len(dep) != 4 or dep != [i, i + 1, i + 3, i + 4]: return None
            a, at, x, bt, b = w[i:i + 5]
            if not (sel(a, "N") and sel(at, "T") and sel(bt, "N") and sel(b, "T")): return None
            p, q = block(a[0], b[0]), block(at[0], bt[0])
            if p is None or p != q or p[0] != lst or p[1] != k: return None
            m, o = x
            if p[2] != (mir != (OPS[o][0] == 1)): return None
            R = ctx.gen(rest, r, c)
            if lst == "leaf":
                if not (m.kind == "gen" and m.name == ctx.statics.get("before")): return None
                X = MTerm.of(m); 
                return (i, i + 5), (X if has_mirror is False else X.add(R, -1)).op(o, ctx.realscal)
            if m.name == rest: return (i, i + 5), R.op(o, ctx.realscal)
            return None
        return f
    has_mirror = ctx.concretize(hsyml(h), [ORD["N"], ORD["S"], ORD["H"]], "symmetry of the leaves") != ORD["N"]
    ctx.sumrules.append(cover("leaf", n1, False))
    if has_mirror: ctx.sumrules.append(cover("mleaf", n2, True))
def expose(h): h.get().ghost["exposed"] = True
def to_dense(s, f, this, a):
    """ptr := the matrix assembled from the leaves and their mirror images"""
    ctx = s.ctx; h = a[0]; hwf(s, h); r, c = csz(hT(h)), csz(hS(h)); shape_ptr(s, a[1], r, c)
    if s.mode == "verify":
        expose(h); h.get().field("m_children"); b = a[1].get().buf; ctx.statics = dict(ctx.statics); ctx.statics["before"] = next(iter(b.content.t))[0][0].name; tiling(s, h)
    s.write(a[1], r, c, plain(ctx, h).add(mirror(s, h)))
C.append(Contract(H + "copy_to_dense", simple, to_dense, pred=lambda f: "HMatrix<" in f["p"][0]["t"], title=H + "copy_to_dense"))
def mk_user(it, f):
    """clusters whose permutation maps the range of the block onto itself (roots, and clusters of the partition when the permutation is
    local); with symmetric leaves both sides belong to one tree, so there is one permutation"""
    ctx = it.ctx; T, S = CL.mk_cluster(it, "target"), CL.mk_cluster(it, "source")
    for x in (T, S): ctx.assume(ctx.zi(csz(x)) >= 1)
    h = mk_hm(it, "hmatrix", T, S); y = ctx.concretize(hsyml(h), [ORD["N"], ORD["S"]] + ([] if ctx.real else [ORD["H"]]), "symmetry of the leaves")
    if y is None: raise PathEnd("symmetry")
    if y != ORD["N"]:
        a, b = T.get().ghost["perm"], S.get().ghost["perm"]; st = a.ghost["stable"] + b.ghost["stable"]; a.ghost["stable"] = b.ghost["stable"] = st
        n = it.ctx.statics; b.arr = a.arr; b.size = a.size; N = a.size
        for x in (T, S): ctx.assume(ctx.zi(coff(x) + csz(x)) <= ctx.zi(N))
        S.get().f["m_tree_data"].v = T.get().f["m_tree_data"].v
    return None, [h, mk_ptr(it, "ptr")]
def user(s, f, this, a):
    """ptr := P_t A P_s^T, A the matrix assembled from the leaves and their mirror images"""
    ctx = s.ctx; h = a[0]; hwf(s, h); r, c = csz(hT(h)), csz(hS(h)); shape_ptr(s, a[1], r, c)
    P = lambda x, n: CL.P(ctx, "P{%s}" % x.get().name, n)
    PT, PS = P(hT(h), r), P(hS(h), c)
    if s.mode == "verify":
        expose(h); h.get().field("m_children"); b = a[1].get().buf; ctx.statics = dict(ctx.statics); B = b.content; ctx.statics["before"] = next(iter(B.t))[0][0].name; b.content = ctx.mnorm(PT.mul(B).mul(PS.op("T"))); tiling(s, h)
    s.write(a[1], r, c, PT.mul(plain(ctx, h).add(mirror(s, h))).mul(PS.op("T")))
C.append(Contract(H + "copy_to_dense_in_user_numbering", mk_user, user, title=H + "copy_to_dense_in_user_numbering"))

# ---- copies
def tree_data(it, h):
    """parameters and strategies of a block tree"""
    ctx = it.ctx; t = hmtype(ctx).replace("htool::HMatrix<", "htool::HMatrixTreeData<"); nm = h.get().ghost["hname"] + ".tree_data"; o = Obj(ctx, t, nm)
    for f in ctx.prog.records[t]["fields"]:
        n, ft = f["n"], strip(f["t"])
        if ft == "double": v = SPoly.atom(nm + "." + n)
        elif ft == "bool": v = z3.Bool(nm + "." + n)
        elif ft in INTS: v = IPoly.atom(nm + "." + n)
        elif ft.startswith("std::shared_ptr"): v = Ptr(Cell(ctx, Opaque(nm + "." + n), "?", nm + "." + n))
        else: v = Opaque(nm + "." + n)
        o.f[n] = Cell(ctx, v, f["t"], nm + "." + n)
    return Cell(ctx, Ptr(Cell(ctx, o, t, nm)), "std::shared_ptr<%s>" % t, h.get().ghost["hname"] + ".m_tree_data")
def whole(it, h):
    """h with every field present"""
    o = h.get(); ctx = it.ctx; nm = o.ghost["hname"]
    if "m_tree_data" not in o.f: o.f["m_tree_data"] = tree_data(it, h)
    if "m_depth" not in o.f: d = IPoly.atom(nm + ".depth"); ctx.assume(d.z() >= 0); o.f["m_depth"] = Cell(ctx, d, "unsigned int", nm + ".m_depth")
    if "m_is_root" not in o.f: o.f["m_is_root"] = Cell(ctx, z3.Bool(nm + ".is_root"), "bool", nm + ".m_is_root")
    for n in ("m_children", "m_dense_data", "m_low_rank_data"): o.field(n)
    return h
def leafdata(ctx, o):
    """which data the block stores"""
    return {n: o.field(n).get() for n in ("m_dense_data", "m_low_rank_data")}
def is_copy(rhs, src, kids):
    """postconditions: ret (or this) is a deep copy of rhs, whose fields before the call are src"""
    from .matrix import is_matrix, State
    def fields(o): return o.get() if hasattr(o, "get") else o
    def scalars(it, o):
        c = it.ctx
        for n in ("m_target_cluster", "m_source_cluster"):
            p = o.f[n].get()
            if not isinstance(p, Ptr) or p.cell is not src[n].cell: return False, n
        for n in ("m_symmetry", "m_UPLO", "m_symmetry_type_for_leaves", "m_UPLO_for_leaves", "m_storage_type", "m_depth", "m_is_root"):
            ok, d = same(it, o.f[n].get(), src[n], n)
            if not ok: return ok, d
        return True, ""
    def tree(it, o):
        p, q = o.f["m_tree_data"].get(), src["m_tree_data"]
        if not isinstance(p, Ptr) or p.cell is None: return False, "no tree data"
        if p.cell is q.cell: return False, "tree data shared with the source"
        for n, c in q.cell.get().f.items():
            v, w = p.cell.get().f[n].get(), c.get()
            if isinstance(w, Ptr): ok, d = v.cell is w.cell, n
            elif isinstance(w, Opaque): ok, d = v is w, n
            else: ok, d = same(it, v, w, n)
            if not ok: return ok, "tree data: " + d
        return True, ""
    def children(it, o):
        c = it.ctx; L = resolve(o.f["m_children"].get()); n = kids.length
        if isinstance(L, PyVec) and not L.items: return c.ieq(n, 0), "no child"
        if isinstance(L, PyVec) and len(L.items) == 1 and isinstance(L.items[0], Gen): g = L.items[0]; got, kk, p = g.n, IPoly.atom(g.kn), g.v
        elif isinstance(L, AbsList): kk = IPoly.atom("some child"); got, p = L.length, L.at(kk).get()
        else: return False, "children %r" % (getattr(L, "items", L),)
        if not c.ieq(got, n): return False, "%r children instead of %r" % (got, n)
        c.assume(z3.And(kk.z() >= 0, kk.z() < c.zi(n)))
        if not isinstance(p, Ptr) or p.cell is None: return False, "child %r" % (p,)
        of = p.cell.get().ghost.get("copyof")
        if of is None: return False, "child is not a copy"
        w = kids.at(kk).get().cell
        return of is w or of.get().ghost["hname"] == w.get().ghost["hname"], "copy of %s instead of %s" % (of.get().ghost["hname"], w.get().ghost["hname"])
    def data(it, o):
        c = it.ctx
        for n, isnull in (("m_dense_data", src["m_dense_data"]), ("m_low_rank_data", src["m_low_rank_data"])):
            p = o.f[n].get(); null = isnull.isnull if isinstance(isnull, SymPtr) else isnull.cell is None
            has = not (p.cell is None if isinstance(p, Ptr) else None) if isinstance(p, Ptr) else None
            if has is None: return False, "%s: %r" % (n, p)
            if not c.prove(bz(null) == z3.BoolVal(not has)): return False, "%s %s" % (n, "present" if has else "absent")
            if not has: continue
            if n == "m_dense_data":
                ok, d = is_matrix(it, p.cell, *src["dense"], True, [src["dbuf"]])
                if not ok: return ok, "dense data: " + d
            else:
                l = p.cell.get()
                for m, st in zip(("m_U", "m_V"), src["lr"]):
                    ok, d = is_matrix(it, l.field(m), st.r, st.c, st.val, True, [st.buf])
                    if not ok: return ok, m + ": " + d
                ok, d = same(it, l.field("m_epsilon").get(), src["eps"], "m_epsilon")
                if not ok: return ok, d
        return True, ""
    return [("same clusters, symmetry, stored triangle, storage, depth", lambda it, r: scalars(it, fields(r))), ("same parameters, not shared", lambda it, r: tree(it, fields(r))), ("every child is copied, in order", lambda it, r: children(it, fields(r))), ("the data are deep copies", lambda it, r: data(it, fields(r)))]
def copy(s, f, this, a):
    """a deep copy of the argument"""
    ctx = s.ctx; rhs = a[0]
    if s.mode == "call":
        ctx.n += 1; o = Obj(ctx, hmtype(ctx), "copy of %s" % rhs.get().ghost["hname"]); o.ghost["copyof"] = rhs; o.ghost["hname"] = o.name; s.ret = o; return
    from .matrix import State
    hwf(s, rhs); whole(s.it, rhs); o = rhs.get(); src = {n: c.get() for n, c in o.f.items()}
    dm, lr = src["m_dense_data"].cell, src["m_low_rank_data"].cell; st = State(dm); src["dense"], src["dbuf"] = (st.r, st.c, st.val), st.buf
    src["lr"] = [State(lr.get().field(n)) for n in ("m_U", "m_V")]; src["eps"] = lr.get().field("m_epsilon").get()
    if this is not None:
        if rhs is this: return
        for c in this.get().f.values(): s.dontcare.add(id(c))
        w = this; s.postchecks += [(l, lambda it, r, fn=fn: fn(it, w)) for l, fn in is_copy(rhs, src, src["m_children"])]
        s.postchecks.append(("returns the matrix assigned to", lambda it, r: (getattr(r, "get", lambda: r)() is w.get(), "%r" % (r,)))); return
    s.postchecks += is_copy(rhs, src, src["m_children"])
def mk_copy(it, f):
    rhs = mk_hm(it, "rhs")
    if f.get("ctor"): return None, [whole(it, rhs)]
    t = whole(it, mk_hm(it, "this")); whole(it, rhs)
    return t, [t if it.ctx.branch(z3.Bool("self_assignment")) else rhs]
one_hm = lambda f: len(f["p"]) == 1 and "HMatrix<" in f["p"][0]["t"] and "&&" not in f["p"][0]["t"]
C.append(Contract(HM + "HMatrix", mk_copy, copy, pred=lambda f: f.get("ctor") and one_hm(f), title=HM + "HMatrix(const HMatrix&)"))
C.append(Contract(HM + "operator=", mk_copy, copy, pred=one_hm, title=HM + "operator=(const HMatrix&)"))
