"""Contracts of the construction of the block tree (include/htool/hmatrix/tree_builder/tree_builder.hpp, basic_types/tree.hpp).

The argument counts, for one arbitrary pair (i, j) of a row and a column, the tasks (leaves with data) whose block contains it:
D is the number of tasks that contain (i, j), M the number of tasks that contain (j, i) and are completed by their mirror image.
Facts about cluster trees used (they are property P01): the children of a cluster tile it, the parts of the partition tile the root,
a cluster of rank r >= 0 is inside part r, one of negative rank contains every part that it meets and no part contains it, leaves have
a rank, two clusters of one tree are nested or disjoint and a leaf contains no smaller cluster."""
import z3
from ..terms import *
from ..engine import *
from .. import models as M
from ..contract import Contract, Spec, same
from ..loops import COUNTED
from .dense import num, H
from .hmatrix import hmtype, hT, hS, coff, csz, bz
from .builder import mk_builder, TB
C = []
CT = "htool::Cluster<double>"; TDT = "htool::ClusterTreeData<double>"
INT = z3.IntSort()
def And(*a): return z3.And(*a)
def Or(*a): return z3.Or(*a)
def Imp(a, b): return z3.Implies(a, b)
class Tree:
    """a cluster tree, seen through the indices of xs: x -> term"""
    def __init__(s, ctx, name, xs):
        s.ctx = ctx; s.name = name; s.xs = xs; s.n = IPoly.atom(name + ".parts"); ctx.assume(s.n.z() >= 1)
        s.poff = z3.Function(name + ".poff", INT, INT); s.psz = z3.Function(name + ".psz", INT, INT); s.fixed = []
        s.part = {x: IPoly.atom("%s.part(%s)" % (name, x)) for x in xs}
        for x, k in s.part.items():
            ctx.assume(And(k.z() >= 0, k.z() < s.n.z(), xs[x] >= 0)); ctx.assume(s.inpart(xs[x], k.z())); s.register(k.z())
        s.same = z3.Bool(name + ".same_leaf") if len(xs) == 2 else None
        if s.same is not None: ctx.assume(Imp(xs["i"] == xs["j"], s.same))
    def inpart(s, x, k): return And(s.poff(k) <= x, x < s.poff(k) + s.psz(k))
    def valid(s, k): return And(k >= 0, k < s.n.z())
    def register(s, k):
        """facts about part number k"""
        c = s.ctx
        c.assume(Imp(s.valid(k), And(s.psz(k) >= 1, s.poff(k) >= 0, *[s.inpart(v, k) == (k == s.part[x].z()) for x, v in s.xs.items()])))
        for f in s.fixed: c.assume(Imp(And(s.valid(k), s.valid(f), k != f), Or(s.poff(k) + s.psz(k) <= s.poff(f), s.poff(f) + s.psz(f) <= s.poff(k))))
        s.fixed = s.fixed if any(f is k for f in s.fixed) else s.fixed
    def fix(s, k): s.register(k); s.fixed = s.fixed + [k]
def off(X): return coff(X).z()
def end(X): return (coff(X) + csz(X)).z()
def rank(X): return X.get().field("m_rank").get().z()
def inn(x, X): return And(off(X) <= x, x < end(X))
def within(X, a, b): return And(a <= off(X), end(X) <= b)
def inside(t, X, k): return within(X, t.poff(k), t.poff(k) + t.psz(k))
def disjoint(X, Y): return Or(end(X) <= off(Y), end(Y) <= off(X))
def sub(X, Y): return And(off(Y) <= off(X), end(X) <= end(Y))
def equal(X, Y): return And(off(X) == off(Y), csz(X).z() == csz(Y).z())
def isleaf(X): return X.get().ghost["count"].z() == 0
def ispart(X): t = X.get().ghost["tree"]; return And(rank(X) >= 0, off(X) == t.poff(rank(X)), csz(X).z() == t.psz(rank(X)))
def kid(X, x): return IPoly.atom("%s.kid(%s)" % (X.name, x))
def node(it, name, tree):
    """a cluster of the tree"""
    ctx = it.ctx; o = Obj(ctx, CT, name); A = IPoly.atom; F = lambda n, v, t="int": o.f.__setitem__(n, Cell(ctx, v, t, name + "." + n)); X = Cell(ctx, o, CT, name)
    for n in ("offset", "size", "depth", "rank", "counter"): F("m_" + n, A(name + "." + n), "unsigned int" if n == "depth" else "int")
    F("m_is_root", z3.Bool(name + ".is_root"), "bool"); cnt = A(name + ".nchildren"); o.ghost["count"] = cnt; o.ghost["tree"] = tree; r = rank(X)
    ctx.assume(And(off(X) >= 0, csz(X).z() >= 1, cnt.z() >= 0, A(name + ".depth").z() >= 0, r < tree.n.z(), Imp(cnt.z() == 0, r >= 0)))
    tree.register(r); ctx.assume(Imp(r >= 0, inside(tree, X, r)))
    for f in tree.fixed: ctx.assume(Imp(And(r < 0, tree.valid(f)), And(z3.Not(inside(tree, X, f)), Or(within_part(tree, f, X), end(X) <= tree.poff(f), tree.poff(f) + tree.psz(f) <= off(X)))))
    for x, v in tree.xs.items():
        k = tree.part[x].z(); ctx.assume(Imp(And(r < 0, inn(v, X)), within_part(tree, k, X)))
        ctx.assume(Imp(And(inn(v, X), cnt.z() > 0), And(kid(X, x).z() >= 0, kid(X, x).z() < cnt.z())))
    if tree.same is not None: 
        i, j = tree.xs["i"], tree.xs["j"]; ctx.assume(Imp(And(cnt.z() == 0, Or(inn(i, X), inn(j, X))), And(inn(i, X), inn(j, X)) == tree.same))
    def elem(k):
        k = ctx.inorm(ip(k)); Y = node(it, "%s.child<%r>" % (name, k), tree); rk = rank(Y)
        ctx.assume(And(sub(Y, X), Imp(r >= 0, rk == r), Imp(And(r < 0, rk >= 0), ispart(Y)), *[inn(v, Y) == And(inn(v, X), k.z() == kid(X, x).z()) for x, v in tree.xs.items()]))
        return Cell(ctx, Ptr(Y), "std::unique_ptr<%s>" % CT, Y.name)
    def part(k):
        k = ctx.inorm(ip(k)); Y = node(it, "%s.part<%r>" % (tree.name, k), tree); ctx.assume(And(rank(Y) == k.z(), ispart(Y))); return Cell(ctx, Ptr(Y), "const %s *" % CT, Y.name)
    def lazy(ob, n):
        if n == "m_children": L = AbsList(ctx, "std::vector<std::unique_ptr<%s>>" % CT, name + ".children", cnt, elem); o.ghost["kids"] = L; return Cell(ctx, L, L.t, name + ".m_children")
        if n == "m_tree_data":
            td = Obj(ctx, TDT, name + ".data"); L = AbsList(ctx, "std::vector<const %s *>" % CT, name + ".parts", tree.n, part); o.ghost["parts"] = L
            td.f["m_clusters_on_partition"] = Cell(ctx, L, L.t, name + ".m_clusters_on_partition"); return Cell(ctx, Ptr(Cell(ctx, td, TDT, td.t)), "std::shared_ptr<%s>" % TDT, name + ".m_tree_data")
        return None
    o.ghost["lazy"] = lazy
    return X
def within_part(t, k, X): return And(off(X) <= t.poff(k), t.poff(k) + t.psz(k) <= end(X))
def pair(ctx, X, Y):
    """two clusters of one tree are nested or disjoint, and a leaf contains no smaller cluster"""
    t = X.get().ghost["tree"]
    if t is not Y.get().ghost["tree"]: return
    ctx.assume(Or(disjoint(X, Y), sub(X, Y), sub(Y, X))); ctx.assume(Imp(z3.Not(disjoint(X, Y)), And(Imp(isleaf(X), sub(X, Y)), Imp(isleaf(Y), sub(Y, X)))))
    i, j = t.xs["i"], t.xs["j"]; ctx.assume(Imp(disjoint(X, Y), z3.Not(And(t.same, Or(And(inn(i, X), inn(j, Y)), And(inn(j, X), inn(i, Y)))))))
# ---- the builder
class Tally:
    """a list of tasks, known by the number of its blocks that contain the pair"""
    def __init__(s, it, b, name, t): s.b = b; s.name = name; s.t = t
    def push(s, it, x): tasked(it, s, x)
    def __repr__(s): return "Tally(%s)" % s.name
class G:
    """the ghost state of a builder"""
    def __init__(s, it, o, sym):
        ctx = it.ctx; s.o = o; s.sym = sym; s.ctx = ctx; I = lambda n: IPoly.atom(n); c = lambda n, v: Cell(ctx, v, "int", n)
        s.i, s.j = I("i"), I("j"); ctx.assume(And(s.i.z() >= 0, s.j.z() >= 0)); i, j = s.i.z(), s.j.z()
        s.f = lambda n: ctx.zi(o.f[n].get()); s.p, s.q, s.S, s.U = s.f("m_target_partition_number"), s.f("m_partition_number_for_symmetry"), s.f("m_symmetry_type"), s.f("m_UPLO_type")
        if sym: s.tt = s.ts = Tree(ctx, "tree", {"i": i, "j": j})
        else: s.tt = Tree(ctx, "target", {"i": i}); s.ts = Tree(ctx, "source", {"j": j})
        t = s.tt
        ctx.assume(Or(s.p == -1, t.valid(s.p))); ctx.assume(And(t.poff(s.p) >= 0)); t.fix(s.p)
        if sym:
            ctx.assume(And(s.S != ord("N"), Or(s.U == ord("U"), s.U == ord("L")), s.p == s.q)); ctx.assume(bz(o.f["m_is_block_tree_consistent"].get()))
        else: ctx.assume(And(s.S == ord("N"), s.q == -1))
        s.D, s.M, s.pend, s.kids, s.pushed = c("#D", I("D0")), c("#M", I("M0")), c("#pending", ip(0)), c("#children", ip(0)), c("#pushed", ip(0))
    def cells(s): return (s.D, s.M, s.pend, s.kids, s.pushed)
    def inq(s, x): return And(s.q >= 0, s.tt.inpart(x, s.q))
    def keep(s, i, j):
        """(i, j) is not in the half that is not stored"""
        if not s.sym: return z3.BoolVal(True)
        out = And(z3.Not(s.tt.same), Or(And(s.U == ord("U"), i > j), And(s.U == ord("L"), i < j)), Or(s.q == -1, And(s.inq(i), s.inq(j))))
        return z3.Not(out)
    def asked(s, x): return Or(s.p == -1, s.tt.part[x].z() == s.p)
    def W(s, T, S): i, j = s.i.z(), s.j.z(); return And(inn(i, T), inn(j, S), s.asked("i"), s.keep(i, j))
    def WM(s, T, S):
        if not s.sym: return z3.BoolVal(False)
        i, j = s.i.z(), s.j.z(); return And(inn(j, T), inn(i, S), s.asked("j"), s.keep(j, i), z3.Not(s.tt.same), Or(s.q == -1, And(s.inq(i), s.inq(j))))
    def removed(s, T, S):
        if not s.sym: return z3.BoolVal(False)
        loc = Or(s.q == -1, And(inside(s.tt, T, s.q), inside(s.tt, S, s.q)))
        return And(loc, Or(And(s.U == ord("U"), end(S) <= off(T)), And(s.U == ord("L"), end(T) <= off(S))))
    def wanted(s, T, S):
        """what the blocks that are visited have in common"""
        r = [("the block is in the asked part of the target", Or(rank(T) < 0, s.p == -1, rank(T) == s.p)), ("the block is not in the half that is not stored", z3.Not(s.removed(T, S)))]
        if s.sym: r.append(("clusters above the partition are only met with parts", And(Imp(And(rank(T) < 0, rank(S) >= 0), ispart(S)), Imp(And(rank(S) < 0, rank(T) >= 0), ispart(T)))))
        return r
    def mirrored(s, T, S, anc):
        return ("the blocks with a symmetric ancestor are those of the symmetric part", And(Imp(s.q == -1, anc), Imp(s.q != -1, anc == And(inside(s.tt, T, s.q), inside(s.tt, S, s.q)))))
    def add(s, cell, w):
        c = s.ctx; n = IPoly.atom(c.fresh(cell.name)); c.assume(n.z() == c.zi(cell.get()) + z3.If(w, 1, 0)); cell.set(n)
def ghost(o): return o.ghost["G"]
def mk_bt(it, f, blocks=True):
    ctx = it.ctx; this, _ = mk_builder(it, {"cls": f["cls"], "p": []}); o = this.get(); sym = ctx.choose(2, "symmetric") == 1; ctx.trace.append("symmetric" if sym else "not symmetric")
    g = G(it, o, sym); o.ghost["G"] = g; hm = hmtype(ctx)
    for n in ("admissible", "dense"): o.f["m_%s_tasks" % n] = Cell(ctx, Tally(it, o, n, "std::vector<%s *>" % hm), "std::vector<%s *>" % hm, "m_%s_tasks" % n)
    o.f["m_target_root_cluster"] = node(it, "target_root", g.tt); o.f["m_source_root_cluster"] = o.f["m_target_root_cluster"] if sym and False else node(it, "source_root", g.ts)
    a = []
    for p in f["p"]:
        t = strip(p["t"]); nm = p["n"] or "arg"
        if t.startswith("htool::Cluster<"): a.append(node(it, nm, g.ts if "source" in nm or len([x for x in a if x.get().t == CT]) else g.tt))
        elif t.rstrip(" *").startswith("htool::HMatrix<"):
            h = block(it, nm, g, node(it, nm + ".T", g.tt), node(it, nm + ".S", g.ts)); h.get().ghost["fresh"] = True; a.append(Cell(ctx, Ptr(h), p["t"], nm) if t.endswith("*") else h)
        else: raise Unsupported("argument %s" % t)
    return this, a
def block(it, name, g, T, S, sym=None):
    """a new node of the block tree"""
    ctx = it.ctx; t = hmtype(ctx); o = Obj(ctx, t, name); F = lambda n, v, ty: o.f.__setitem__(n, Cell(ctx, v, ty, name + "." + n))
    F("m_target_cluster", Ptr(T), "const %s *" % CT); F("m_source_cluster", Ptr(S), "const %s *" % CT)
    sy, up = (ip(ord("N")), ip(ord("N"))) if sym is not None else (IPoly.atom(name + ".sym"), IPoly.atom(name + ".uplo"))
    F("m_symmetry", sy, "char"); F("m_UPLO", up, "char")
    o.ghost["G"] = g; o.ghost["anc"] = z3.Bool(name + ".symmetric_ancestor"); pair(ctx, T, S)
    return Cell(ctx, o, t, name)
def flagged(g, h):
    """a block on the diagonal is marked symmetric, with the stored triangle"""
    o = h.get(); c = g.ctx; T, S = hT(h), hS(h); sy, up = c.zi(o.f["m_symmetry"].get()), c.zi(o.f["m_UPLO"].get()); e = And(g.S != ord("N"), equal(T, S))
    return z3.If(e, And(sy == g.S, up == g.U), And(sy == ord("N"), up == ord("N")))
# ---- tests
def removed(s, f, this, a):
    """a block is removed when it is in the half of the (local) diagonal block that is not stored"""
    g = ghost(this.get()); pair(s.ctx, a[0], a[1]); s.ret = g.removed(a[0], a[1])
C.append(Contract(TB + "is_removed_by_symmetry", mk_bt, removed, title=TB + "is_removed_by_symmetry"))
def inpartition(s, f, this, a):
    g = ghost(this.get()); s.ret = Or(g.p == -1, rank(a[0]) == g.p)
C.append(Contract(TB + "is_target_cluster_in_target_partition", mk_bt, inpartition, title=TB + "is_target_cluster_in_target_partition"))
def setsym(s, f, this, a):
    """a block on the diagonal gets the symmetry and the stored triangle asked for, any other block is left as it is"""
    g = ghost(this.get()); h = a[0]; o = h.get(); c = s.ctx; e = And(g.S != ord("N"), equal(hT(h), hS(h)))
    for n, v in (("m_symmetry", g.S), ("m_UPLO", g.U)):
        x = IPoly.atom(c.fresh(n)); c.assume(x.z() == z3.If(e, v, c.zi(o.f[n].get()))); o.f[n].set(x)
C.append(Contract(TB + "set_hmatrix_symmetry", mk_bt, setsym, title=TB + "set_hmatrix_symmetry"))
def admissible(s, f, this, a):
    """any condition; in one tree, admissible clusters are disjoint"""
    T, S = a[0], a[1]; s.ret = z3.Bool("admissible(%s,%s)" % (T.name, S.name)); pair(s.ctx, T, S)
    if T.get().ghost["tree"] is S.get().ghost["tree"]: s.ctx.assume(Imp(s.ret, disjoint(T, S)))
C.append(Contract(H + "VirtualAdmissibilityCondition::ComputeAdmissibility", None, admissible, verify=False))
# ---- the tree
def tasked(it, l, x):
    """a block is added to a list of tasks"""
    h = x.cell if isinstance(x, Ptr) else None; c = it.ctx
    if h is None or "G" not in h.get().ghost: raise Unsupported("task %r" % (x,))
    g = h.get().ghost["G"]; T, S = hT(h), hS(h); z = c.zi
    c.oblig("a block that gets data has no children", c.prove(z(g.kids.get()) == 0), "children: %r" % g.kids.get()); c.oblig("a block gets data once", c.prove(z(g.pushed.get()) == 0), "")
    if l.name == "admissible":
        b = l.b; d = lambda X: X.get().field("m_depth").get().z()
        c.oblig("a low-rank candidate is admissible", c.prove(z3.Bool("admissible(%s,%s)" % (T.name, S.name))), "block %s" % h.name)
        c.oblig("a low-rank candidate respects the minimum depths", c.prove(And(d(T) >= z(b.f["m_mintargetdepth"].get()), d(S) >= z(b.f["m_minsourcedepth"].get()))), "")
        c.oblig("a low-rank candidate is inside a part of the target", c.prove(rank(T) >= 0), "")
        c.oblig("a low-rank candidate is inside a part of the source, unless the tree need not be consistent", c.prove(Or(z3.Not(bz(b.f["m_is_block_tree_consistent"].get())), rank(S) >= 0)), "")
    else: c.oblig("a dense block cannot be divided", c.prove(And(isleaf(T), isleaf(S))), "")
    i, j = g.i.z(), g.j.z(); g.add(g.D, And(inn(i, T), inn(j, S)))
    if g.sym: g.add(g.M, And(inn(j, T), inn(i, S), off(T) != off(S), h.get().ghost["anc"]))
    g.pushed.set(c.inorm(ip(g.pushed.get()) + 1))
def mk_child(it, f):
    from .hmatrix import mk_hm, cluster_named
    from .hblock import whole
    from ..loops import Rest
    ctx = it.ctx; h = mk_hm(it, "this"); whole(it, h); o = h.get(); n = IPoly.atom("this.nchildren"); ctx.assume(n.z() >= 0)
    t = "std::vector<std::unique_ptr<%s>>" % hmtype(ctx); v = PyVec(ctx, t); v.cell.set((Rest(n),)); o.f["m_children"] = Cell(ctx, v, t, "this.m_children")
    a = []
    for p in f["p"]: T = cluster_named(it, "argument%d" % len(a)); a.append(Cell(ctx, Ptr(T), strip(p["t"]), p["n"] or T.name))
    return h, a
def child(s, f, this, a):
    """a new child: its clusters are the ones given, it has no symmetry, no data and no children"""
    c = s.ctx; g = this.get().ghost.get("G"); T, S = [x.get().cell for x in a]
    if s.mode == "verify":
        o = this.get(); v = o.f["m_children"].get(); s.dontcare.add(id(v.cell)); old = v.items; d = o.f["m_depth"].get(); td = o.f["m_tree_data"].get()
        def chk(it, r):
            if not isinstance(r, Ptr) or r.cell is None: return False, "no child"
            w = r.cell.get(); f = lambda n: w.f[n].get() if n in w.f else None
            k = o.f["m_children"].get().items
            if len(k) != len(old) + 1 or k[:-1] != old: return False, "children: %r" % (k,)
            if not isinstance(k[-1].get(), Ptr) or k[-1].get().cell is not r.cell: return False, "the child added is not the one returned"
            for n, e in (("m_target_cluster", T), ("m_source_cluster", S)):
                if not isinstance(f(n), Ptr) or f(n).cell is not e: return False, n
            for n, e in (("m_symmetry", ord("N")), ("m_UPLO", ord("N")), ("m_symmetry_type_for_leaves", ord("N")), ("m_UPLO_for_leaves", ord("N")), ("m_storage_type", 2)):
                if not c.ieq(f(n), e): return False, "%s is %r" % (n, f(n))
            for n in ("m_dense_data", "m_low_rank_data"):
                if not isinstance(f(n), Ptr) or f(n).cell is not None: return False, "%s is not null" % n
            if not c.ieq(f("m_depth"), ip(d) + 1): return False, "depth %r" % (f("m_depth"),)
            if not c.prove(z3.Not(bz(f("m_is_root")))): return False, "marked as root"
            if not isinstance(f("m_tree_data"), Ptr) or f("m_tree_data").cell is not td.cell: return False, "tree data not shared"
            if not (isinstance(f("m_children"), PyVec) and not f("m_children").items): return False, "children"
            return True, ""
        s.postchecks.append(("the new child has the clusters given, no data, and the data of the tree", chk)); return
    if g is None: raise Unsupported("add_child to %s" % this.name)
    c.oblig("a block that has data gets no children", c.prove(c.zi(g.pushed.get()) == 0), "")
    h = block(s.it, "%s|%s" % (T.name, S.name), g, T, S, "N"); o = h.get(); o.ghost["fresh"] = Cell(c, ip(1), "int", "fresh"); o.ghost["parent"] = this
    o.ghost["anc"] = Or(this.get().ghost["anc"], And(g.S != ord("N"), equal(T, S), Or(g.p == -1, rank(T) >= 0)))
    g.pend.set(c.inorm(ip(g.pend.get()) + 1)); g.kids.set(c.inorm(ip(g.kids.get()) + 1)); s.ret = Ptr(h)
C.append(Contract(H + "TreeNode::add_child", mk_child, child, pred=lambda f: "HMatrix<" in f["cls"] and len(f["p"]) == 2 and all("htool::Cluster<" in p["t"] for p in f["p"]), title=H + "TreeNode<HMatrix>::add_child"))
def build(s, f, this, a):
    """the tasks below the block contain each of its pairs that are wanted once, and none of the others"""
    c = s.ctx; g = ghost(this.get()); h = a[0].get().cell; T, S = hT(h), hS(h); o = h.get(); pair(c, T, S)
    for l, e in g.wanted(T, S): s.req(l, e)
    if g.sym: s.req(*g.mirrored(T, S, o.ghost["anc"])); 
    if s.mode == "call":
        fr = o.ghost.get("fresh"); ok = isinstance(fr, Cell) and c.ieq(fr.get(), 1)
        c.oblig("each new block is divided once", ok, "block %s" % h.name); c.oblig("a block on the diagonal is marked symmetric", c.prove(flagged(g, h)), "block %s" % h.name)
        if ok: fr.set(ip(0))
        g.add(g.D, g.W(T, S)); g.add(g.M, g.WM(T, S)); g.pend.set(c.inorm(ip(g.pend.get()) - 1)); return
    d0, m0 = c.zi(g.D.get()), c.zi(g.M.get())
    for x in g.cells(): s.dontcare.add(id(x)); x.set(x.get())
    s.postchecks += [("every pair wanted is in one task", lambda it, r: (c.prove(c.zi(g.D.get()) == d0 + z3.If(g.W(T, S), 1, 0)), "tasks that contain the pair")),
                     ("every new block is divided", lambda it, r: (c.ieq(g.pend.get(), 0), "pending: %r" % g.pend.get())),
                     ("a block gets data or children", lambda it, r: (c.prove(Or(c.zi(g.pushed.get()) == 0, c.zi(g.kids.get()) == 0)), ""))]
    if g.sym: s.postchecks.append(("every pair completed by symmetry is in one mirrored task", lambda it, r: (c.prove(c.zi(g.M.get()) == m0 + z3.If(g.WM(T, S), 1, 0)), "mirrored tasks that contain the pair")))
class Cover:
    """after k blocks of the loop the tasks contain the wanted pairs of these blocks"""
    def __init__(s, it, loop, g, side, X, kidof):
        s.it = it; s.g = g; s.side = side; s.X = X; s.kidof = kidof; c = it.ctx; s.d0, s.m0 = c.zi(g.D.get()), c.zi(g.M.get()); s.stack = list(getattr(c, "covers", [])); s.ids = {id(x) for x in g.cells()}
        s.k0 = c.zi(g.kids.get())
    def idx(s, x): return s.kidof(x).z()
    def at(s, k):
        g = s.g; c = s.it.ctx; T, S = s.TS; k = c.zi(k)
        def part(xt, xs, w):      # wanted pairs (xt, xs) of the first k blocks, within the blocks of the loops around
            own = lambda o: o.idx(xt if o.side == "target" else xs)
            return And(w, own(s) < k, *[own(o) == c.zi(ko) for o, ko in s.stack])
        facts = [("the tasks so far", c.zi(g.D.get()) == s.d0 + z3.If(part("i", "j", g.W(T, S)), 1, 0)), ("no block is pending", c.zi(g.pend.get()) == 0), ("no data", c.zi(g.pushed.get()) == 0)]
        if g.sym: facts.append(("the mirrored tasks so far", c.zi(g.M.get()) == s.m0 + z3.If(part("j", "i", g.WM(T, S)), 1, 0)))
        return facts
    def enter(s, k): s.it.ctx.covers = s.stack + [(s, k)]
    def leave(s): s.it.ctx.covers = s.stack
def cover(it, loop):
    c = it.ctx; b = it.fr.thislv.get() if it.fr.thislv is not None else None
    if b is None or "G" not in b.ghost: return None
    g = ghost(b); h = next((v.get().cell for v in it.fr.env.values() if isinstance(v, Cell) and isinstance(v.get(), Ptr) and v.get().cell is not None and v.get().cell.name == "current_hmatrix"), None)
    if h is None: return None
    T, S = hT(h), hS(h)
    for side, X, t in (("target", T, g.tt), ("source", S, g.ts)):
        o = X.get(); L = o.ghost.get("kids"); P = o.ghost.get("parts")
        hit = (lambda l, n: loop.list is l if loop.list is not None else c.ieq(loop.K, n))
        if L is not None and hit(L, o.ghost["count"]): kf = lambda x, X=X, t=t: kid(X, x); break
        if P is not None and hit(P, t.n): kf = lambda x, t=t: t.part[x]; break
    else: return None
    v = Cover(it, loop, g, side, X, kf); v.TS = (T, S); return v
COUNTED[TB + "build_block_tree"] = cover
C.append(Contract(TB + "build_block_tree", mk_bt, build, title=TB + "build_block_tree"))
