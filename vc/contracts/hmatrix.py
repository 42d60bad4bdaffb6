"""Contracts of the hierarchical matrix algebra (include/htool/hmatrix).  A hierarchical matrix denotes the matrix assembled
from its leaves: sum over the leaves of S_t M S_s^T, plus, for leaves under a symmetric (hermitian) node and off its diagonal,
their mirror images S_s M^T S_t^T (S_s M^H S_t^T)."""
import z3
from ..terms import *
from ..engine import *
from .. import models as M
from ..contract import Contract, Spec, same
from ..loops import sum_term, mentions_atom, WORKLIST, Gen, ListRef, resolve
from .dense import mk_matrix, mk_scal, mk_int, mk_char, mk_ptr, shape_ptr, rows, cols, mat, setmat, opdims, isdense, num, rm, gemv, H
from . import lrmat as LR
from .lrmat import mk_cluster, mk_lrmat, lval, lrows, lcols, lrank, wf, set_lr, UV
C = []
def contract(name, mk=None, **kw):
    def d(fn): C.append(Contract(name, mk or simple, fn, **kw)); return fn
    return d
DENSE, LOWRANK, HIER = 0, 1, 2
def hmtype(ctx):
    t = "htool::HMatrix<%s, double>" % num(ctx); return t if t in ctx.prog.records else "htool::HMatrix<%s>" % num(ctx)
def ci(ctx, nm, t="int"): return Cell(ctx, IPoly.atom(nm), t, nm)
def cluster_named(it, nm, lo=1, hi=None):
    """cluster with deterministic names (so that it can depend on a loop index)"""
    ctx = it.ctx; o = Obj(ctx, "htool::Cluster<double>", nm); off, sz = IPoly.atom(nm + ".offset"), IPoly.atom(nm + ".size")
    o.f["m_offset"] = Cell(ctx, off, "int", nm + ".m_offset"); o.f["m_size"] = Cell(ctx, sz, "int", nm + ".m_size"); ctx.assume(sz.z() >= lo); ctx.assume(off.z() >= 0)
    def lazy(ob, n):
        if n == "m_depth": v = IPoly.atom(nm + ".depth"); ctx.assume(v.z() >= 0); return Cell(ctx, v, "unsigned int", nm + ".m_depth")
        if n in ("m_counter", "m_rank"): return Cell(ctx, IPoly.atom(nm + "." + n[2:]), "int", nm + "." + n)
        if n == "m_is_root": return Cell(ctx, z3.Bool(nm + ".is_root"), "bool", nm + ".m_is_root")
        if n == "m_tree_data":
            # clusters of one side of a block tree belong to one cluster tree; any other cluster may belong to it or not
            tr = o.ghost.get("tree", "?"); own = tr != "?" or ctx.branch(z3.Bool(nm + ".same_tree"))
            key = ("tree" if own else nm + ".tree")
            if key not in ctx.statics: ctx.statics = dict(ctx.statics); td = Obj(ctx, "htool::ClusterTreeData<double>", key); ctx.statics[key] = Cell(ctx, td, td.t, key)
            return Cell(ctx, Ptr(ctx.statics[key]), "std::shared_ptr<htool::ClusterTreeData<double>>", nm + ".m_tree_data")
        return None
    o.ghost["lazy"] = lazy
    return Cell(ctx, o, o.t, nm)
def coff(c): return c.get().field("m_offset").get()
def csz(c): return c.get().field("m_size").get()
def hT(h): return h.get().field("m_target_cluster").get().cell
def hS(h): return h.get().field("m_source_cluster").get().cell
def mk_hm(it, name, T=None, S=None, leaf=False, symchars=None):
    """a hierarchical matrix in an arbitrary well-formed state; data are created when looked at"""
    ctx = it.ctx; t = hmtype(ctx); o = Obj(ctx, t, name); f = o.f
    T = T or cluster_named(it, name + ".T"); S = S or cluster_named(it, name + ".S")
    for x in (T, S): x.get().ghost.setdefault("tree", "of " + name)
    f["m_target_cluster"] = Cell(ctx, Ptr(T), "const htool::Cluster<double> *", name + ".m_target_cluster"); f["m_source_cluster"] = Cell(ctx, Ptr(S), "const htool::Cluster<double> *", name + ".m_source_cluster")
    f["m_symmetry"] = ci(ctx, name + ".sym", "char"); f["m_UPLO"] = ci(ctx, name + ".uplo", "char")
    f["m_symmetry_type_for_leaves"] = ci(ctx, name + ".symleaves", "char"); f["m_UPLO_for_leaves"] = ci(ctx, name + ".uploleaves", "char")
    st = IPoly.atom(name + ".storage"); ctx.assume(z3.And(st.z() >= 0, st.z() <= (1 if leaf else 2))); f["m_storage_type"] = Cell(ctx, st, "int", name + ".m_storage_type")
    r, c = csz(T), csz(S)
    def lazy(ob, n):
        if n == "m_dense_data":
            m = mk_matrix(it, name + ".dense", r, c, content=ctx.gen(name + ".mat", r, c) if o.ghost.get("exposed") else None); return Cell(ctx, SymPtr(st.z() != DENSE, m), "std::unique_ptr<htool::Matrix<%s>>" % num(ctx), name + ".m_dense_data")
        if n == "m_low_rank_data":
            l = mk_lrmat(it, name + ".lr", r, c, IPoly.atom(name + ".rank")); ctx.assume(lrank(l).z() >= 0)
            if o.ghost.get("exposed"):
                U, V = UV(l); w = ctx.mnorm(LR.mat(Spec(it, "call", "?"), U).mul(LR.mat(Spec(it, "call", "?"), V))); ctx.fold(next(iter(w.t)), ctx.gen(name + ".mat", r, c))
            return Cell(ctx, SymPtr(st.z() != LOWRANK, l), "std::unique_ptr<htool::LowRankMatrix<%s>>" % num(ctx), name + ".m_low_rank_data")
        if n == "m_children":
            cn = children_count(ctx, name); ctx.assume(z3.And(cn.z() >= 0, (cn.z() == 0) == (st.z() != HIER)))
            def elem(k):
                k = ctx.inorm(ip(k)); h = mk_hm(it, "%s.child<%r>" % (name, k)); h.get().ghost["childof"] = (name, k); below(ctx, h, T, S)
                return Cell(ctx, Ptr(h), "std::unique_ptr<%s>" % t, "%s.children<%r>" % (name, k))
            L = AbsList(ctx, "std::vector<std::unique_ptr<%s>>" % t, name + ".children", cn, elem)
            return Cell(ctx, L, L.t, name + ".m_children")
        return None
    o.ghost["lazy"] = lazy; o.ghost["hname"] = name
    return Cell(ctx, o, t, name)
def children_count(ctx, name): return IPoly.atom(name + ".nchildren")
def below(ctx, h, T, S):
    """the block h is below the block of clusters T and S"""
    z = ctx.zi; lt, ls = hT(h), hS(h); t0, s0, tr, sc = coff(T), coff(S), csz(T), csz(S)
    ctx.assume(z3.And(z(coff(lt)) >= z(t0), z(coff(lt) + csz(lt)) <= z(t0 + tr), z(coff(ls)) >= z(s0), z(coff(ls) + csz(ls)) <= z(s0 + sc)))
def simple(it, f, **kw):
    args = []
    for p in f["p"]:
        t = strip(p["t"]); nm = p["n"] or "arg"
        if t.startswith("htool::HMatrix<"): args.append(mk_hm(it, nm))
        else: args += LR.simple(it, {"p": [p]})[1]
    return None, args
ORD = {"N": ord("N"), "S": ord("S"), "H": ord("H")}
def hsym(h): return h.get().field("m_symmetry").get()
def hsyml(h): return h.get().field("m_symmetry_type_for_leaves").get()
def hwf(s, h):
    """well-formed: sizes are positive; the symmetry of a block is none or that of the whole matrix; real matrices are not hermitian"""
    ctx = s.ctx; z = ctx.zi; a, b = z(hsym(h)), z(hsyml(h)); chars = [ORD["N"], ORD["S"]] + ([] if ctx.real else [ORD["H"]])
    s.req("symmetry of the leaves is one of %s" % "".join(map(chr, chars)), z3.Or(*[b == x for x in chars]))
    s.req("symmetry of the block is none or that of the leaves", z3.Or(a == ORD["N"], a == b))
    if s.mode == "verify": leaf_inv(ctx, h)
def leaf_inv(ctx, h):
    z = ctx.zi; a = z(hsym(h)); st = z(h.get().field("m_storage_type").get()); u = z(h.get().field("m_UPLO").get())
    ctx.assume(z3.Implies(st == LOWRANK, a == ORD["N"])); ctx.assume(z3.Implies(a != ORD["N"], z3.And(z(csz(hT(h))) == z(csz(hS(h))), z3.Or(u == ord("L"), u == ord("U")))))
def matname(h): return h.get().ghost["hname"] + ".mat"
def hmat(s, h):
    """the matrix denoted by h, as one symbol"""
    return s.ctx.gen(matname(h), csz(hT(h)), csz(hS(h)))
def hval(s, h):
    """the matrix denoted by the argument h of the function being verified, in terms of its data"""
    ctx = s.ctx
    if s.mode == "call": return hmat(s, h)
    st = ctx.concretize(h.get().field("m_storage_type").get(), [DENSE, LOWRANK, HIER], "storage type")
    if st == DENSE:
        D = h.get().field("m_dense_data").get().cell; y = ctx.concretize(hsym(h), [ORD["N"], ORD["S"], ORD["H"]], "symmetry")
        if y == ORD["N"]: return mat(s, D)
        u = ctx.concretize(h.get().field("m_UPLO").get(), [ord("L"), ord("U")], "UPLO"); return M.symof(ctx, mat(s, D), chr(u), y == ORD["H"])
    if st == LOWRANK: return lval(s, h.get().field("m_low_rank_data").get().cell)
    return hmat(s, h)
def assembled(s, h): return hmat(s, h) if s.mode == "call" else plain(s.ctx, h).add(mirror(s, h))
def plain(ctx, h): return ctx.gen(h.get().ghost["hname"] + ".plain", csz(hT(h)), csz(hS(h)))
def mirror(s, h):
    """the mirrored leaves; absent without symmetry"""
    ctx = s.ctx; r, c = csz(hT(h)), csz(hS(h)); y = ctx.concretize(hsyml(h), [ORD["N"], ORD["S"], ORD["H"]], "symmetry of the leaves")
    return MTerm.zero(r, c) if y == ORD["N"] else ctx.gen(h.get().ghost["hname"] + ".mirror", r, c)
def transok(s, h, t):
    """the operations a symmetric or hermitian block supports"""
    z = s.ctx.zi(hsyml(h))
    if s.ctx.real: return
    if t == "T": s.req("transposition of a hermitian matrix is not supported", z != ORD["H"])
    if t == "C": s.req("conjugate transposition of a symmetric matrix is not supported", z != ORD["S"])
# ---- leaves
def leaves_of(it, h):
    """get_leaves_from: the lists of leaves and of mirrored leaves"""
    ctx = it.ctx; nm = h.get().ghost["hname"]; T, S = hT(h), hS(h); t0, s0, tr, sc = coff(T), coff(S), csz(T), csz(S); y = hsyml(h)
    g = h.get().ghost
    if "leaves" in g: return g["leaves"]
    def lst(tag):
        n = IPoly.atom(nm + "." + tag + ".count"); ctx.assume(n.z() >= 0)
        def elem(k):
            ln = "%s.%s<%r>" % (nm, tag, ctx.inorm(ip(k))); l = mk_hm(it, ln, leaf=True); l.get().ghost["exposed"] = g.get("exposed"); lt, ls = hT(l), hS(l); z = ctx.zi
            ctx.assume(z3.And(z(coff(lt)) >= z(t0), z(coff(lt) + csz(lt)) <= z(t0 + tr), z(coff(ls)) >= z(s0), z(coff(ls) + csz(ls)) <= z(s0 + sc)))
            if tag == "mleaf": ctx.assume(z3.And(z(coff(ls)) >= z(t0), z(coff(ls) + csz(ls)) <= z(t0 + tr), z(coff(lt)) >= z(s0), z(coff(lt) + csz(lt)) <= z(s0 + sc), z(hsym(l)) == ORD["N"], z3.Or(z(coff(lt) + csz(lt)) <= z(coff(ls)), z(coff(ls) + csz(ls)) <= z(coff(lt)))))     # off the diagonal of a symmetric block, whose children are the pairs of clusters of a partition
            ctx.assume(z(hsyml(l)) == z(hsym(l))); ctx.assume(z3.Or(z(hsym(l)) == ORD["N"], z(hsym(l)) == z(y))); leaf_inv(ctx, l)
            return Cell(ctx, Ptr(l), "const %s *" % hmtype(ctx), ln)
        return AbsList(ctx, "std::vector<const %s *>" % hmtype(ctx), nm + "." + tag, n, elem), n
    L, n1 = lst("leaf"); Ms, n2 = lst("mleaf"); g["leaves"] = (L, Ms)
    ctx.sumrules.append(leafrule(nm, "leaf", t0, s0, tr, sc, n1, plain(ctx, h), "N"))
    ysym = ctx.concretize(y, [ORD["N"], ORD["S"], ORD["H"]], "symmetry of the leaves")
    if ysym != ORD["N"]: ctx.sumrules.append(leafrule(nm, "mleaf", t0, s0, tr, sc, n2, ctx.gen(nm + ".mirror", tr, sc), "T" if ysym == ORD["S"] or ctx.real else "C"))
    return L, Ms
OPS = {"N": (0, 0), "T": (1, 0), "C": (1, 1), "J": (0, 1)}
def opmul(a, b): x = (OPS[a][0] ^ OPS[b][0], OPS[a][1] ^ OPS[b][1]); return {v: k for k, v in OPS.items()}[x]
def leafrule(nm, tag, t0, s0, tr, sc, n, total, base):
    """sum over the leaves of S_t M S_s^T = total (base N); for mirrored leaves the sum of S_s op(M) S_t^T = total (base T or C)"""
    pre = "%s.%s<" % (nm, tag)
    def rule(ctx, w, dep, k, K):
        i = dep[0]
        if dep != list(range(i, i + len(dep))) or len(dep) != 3 or not ctx.ieq(K, n): return None
        (a, oa), (m, om), (b, ob) = w[i:i + 3]
        if a.kind != "sel" or b.kind != "sel" or oa != "N" or ob != "T" or m.name != pre + k + ">.mat": return None
        ln = pre + k + ">"; lt = (IPoly.atom(ln + ".T.offset"), IPoly.atom(ln + ".T.size")); ls = (IPoly.atom(ln + ".S.offset"), IPoly.atom(ln + ".S.size"))
        tr_ = OPS[om][0]                       # is the leaf transposed in the word?
        p, q = (ls, lt) if tr_ else (lt, ls)   # rows, columns of the word
        x = opmul(om, base)                    # operation on total
        f0, fr, g0, gc = (t0, tr, s0, sc) if not OPS[x][0] else (s0, sc, t0, tr)
        if not (ctx.ieq(a.cols, p[1]) and ctx.ieq(b.cols, q[1]) and ctx.ieq(a.rows, fr) and ctx.ieq(b.rows, gc) and ctx.ieq(a.off, p[0] - f0) and ctx.ieq(b.off, q[0] - g0)): return None
        if ctx.real and x in "CJ": x = {"C": "T", "J": "N"}[x]
        return (i, i + 3), total.op(x, ctx.realscal)
    return rule
class LeafWork:
    """work list of the nodes of a block tree, alone or with the information whether a node above is symmetric.  The leaves below a
    node are itself, if it has no children, or the leaves below its children; the leaves to be mirrored are those below a symmetric
    node that are off the diagonal."""
    def __init__(s, it, loop, q):
        s.it = it; s.ctx = it.ctx; s.loop = loop; s.pairs = tmpl(tmpl(strip(q.t))[1][0])[0] == "std::pair"; s.root = None; s.what = {}; s.why = {}
        s.qt = tmpl(strip(q.t))[1][0]
    def split(s, x):
        if s.pairs: return x.f["first"].get(), x.f["second"].get()
        return x, None
    def initial(s, items):
        c = s.ctx
        if len(items) != 1: raise Unsupported("work list of %d items" % len(items))
        p, fl = s.split(items[0])
        if not isinstance(p, Ptr) or p.cell is None or "hname" not in getattr(p.cell.get(), "ghost", {}): raise Unsupported("work list of %r" % (p,))
        s.root = p.cell; r = []
        if s.pairs:
            e = bz(fl) == (c.zi(hsym(s.root)) != ORD["N"]); r.append(("the flag of the root tells its symmetry", c.prove(e), str(fl)))
        return r
    def node(s):
        c = s.ctx; T, S = hT(s.root), hS(s.root); h = mk_hm(s.it, "%s.node%d" % (s.root.get().ghost["hname"], nid(c))); below(c, h, T, S); leaf_inv(c, h); h.get().field("m_children"); return h
    def item(s):
        c = s.ctx; h = s.node()
        if not s.pairs: return Ptr(h)
        o = Obj(c, s.qt, "item"); fl = z3.Bool(c.fresh("flag")); o.f["first"] = Cell(c, Ptr(h), "const %s *" % hmtype(c), "item.first"); o.f["second"] = Cell(c, fl, "bool", "item.second"); return o
    def step(s, x, p, acc):
        c = s.ctx; z = c.zi; ptr, fl = s.split(x); h = ptr.cell; nm = h.get().ghost["hname"]; n = h.get().field("m_children").get().length; leaf = z(n) == 0; sym = z(hsym(h)) != ORD["N"]
        # what is pushed: every child once
        ok, d = True, ""
        if not p: ok = c.prove(leaf); d = "the children of a node are not visited"
        elif len(p) != 1 or not isinstance(p[0], Gen): ok, d = False, "pushes %d items" % len(p)
        else:
            g = p[0]; y, f2 = s.split(g.v); kk = IPoly.atom(g.kn); co = y.cell.get().ghost.get("childof") if isinstance(y, Ptr) and y.cell is not None else None
            if co is None or co[0] != nm: ok, d = False, "pushes %r" % (y,)
            elif not c.ieq(g.n, n): ok, d = c.prove(leaf), "%r of %r children are visited" % (g.n, n)
            elif not (c.ieq(co[1], kk) or c.ieq(co[1], n - 1 - kk)): ok, d = False, "iteration k visits child %r" % (co[1],)
            if ok and s.pairs: ok = c.prove(z3.Or(leaf, bz(f2) == z3.Or(bz(fl), sym))); d = "flag of the children: %s" % f2
        r = [("every child of a node is visited once, and told whether a node above is symmetric" if s.pairs else "every child of a node is visited once", ok, d)]
        # what is collected
        off = z(coff(hT(h))) != z(coff(hS(h)))
        for i, xs in acc.items():
            cands = s.what.setdefault(i, {"leaf": leaf, "mleaf": None}); s.why.setdefault(i, [])
            want = {"leaf": leaf}
            if s.pairs: want["mleaf"] = z3.And(leaf, bz(fl), off)
            for k in list(cands):
                e = want.get(k)
                if e is None: cands.pop(k); continue
                if len(xs) == 0: good = c.prove(z3.Not(e))
                elif len(xs) == 1 and isinstance(xs[0], Cell) and isinstance(xs[0].get(), Ptr) and xs[0].get().cell is h: good = c.prove(e)
                else: good = False
                if not good: cands.pop(k); s.why[i].append("not the %s: %d collected when %s" % ({"leaf": "leaves", "mleaf": "leaves to be mirrored"}[k], len(xs), " & ".join(c.trace[-6:])))
        return r
    def collected(s, i, o): return "%s collects the leaves, or the leaves to be mirrored" % o.name, bool(s.what.get(i)), "; ".join(s.why.get(i, []))
    def final(s, i, o):
        L, Ms = leaves_of(s.it, s.root); return L if "leaf" in s.what[i] else Ms
    def found(s, x, v): return [("no early exit", False, "returns before all nodes are visited")]
    def exhausted(s): pass
nctr = [0]
def nid(ctx): ctx.n += 1; return ctx.n
def bz(v): return z3.BoolVal(v) if isinstance(v, bool) else v
def leafwork(it, loop, q): return LeafWork(it, loop, q) if "HMatrix<" in q.t else None
WORKLIST[H + "get_leaves_from"] = leafwork
WORKLIST[H + "preorder_tree_traversal"] = leafwork
def lists_checked(s, h):
    ctx = s.ctx; L, Ms = leaves_of(s.it, h)
    def chk(it, ret):
        if not isinstance(ret, Obj) or "first" not in ret.f: return False, repr(ret)
        a, b = resolve(ret.f["first"].get()), resolve(ret.f["second"].get()); return a is L and b is Ms, "%s and %s" % (getattr(a, "name", a), getattr(b, "name", b))
    return chk
@contract(H + "get_leaves_from")
def _(s, f, this, a):
    ctx = s.ctx; hwf(s, a[0])
    if s.mode == "verify":
        a[0].get().field("m_children"); chk = lists_checked(s, a[0]); s.postchecks.append(("the leaves and the leaves to be mirrored", chk)); return
    L, Ms = leaves_of(s.it, a[0]); o = Obj(ctx, "std::pair<std::vector<const %s *>, std::vector<const %s *>>" % (hmtype(ctx), hmtype(ctx)), "pair")
    o.f["first"] = Cell(ctx, L, L.t, "first"); o.f["second"] = Cell(ctx, Ms, Ms.t, "second"); s.ret = o
# ---- products with vectors
def hmv(s, f, this, a, hval=hval):
    ctx = s.ctx; h = a[2]; hwf(s, h); t = s.char(a[0], "NTC", "trans"); transok(s, h, t); r, c = opdims(t, csz(hT(h)), csz(hS(h)))
    gemv(s, a, hval(s, h).op(t, ctx.realscal), r, c)
def hmrm(s, f, this, a, hval=hval):
    ctx = s.ctx; h = a[3]; hwf(s, h); t = s.char(a[0], "NTC", "transa"); s.char(a[1], "N", "transb"); transok(s, h, t); r, c = opdims(t, csz(hT(h)), csz(hS(h)))
    rm(s, a, hval(s, h).op(t, ctx.realscal), r, c)
isreal_over = lambda f: "std::complex" not in f["p"][1]["t"]
for pre in ("", "sequential_", "openmp_"):
    v = hval if pre == "" else assembled
    C.append(Contract(H + pre + "internal_add_hmatrix_vector_product", simple, (lambda s, f, this, a, v=v: hmv(s, f, this, a, v)), title=H + pre + "internal_add_hmatrix_vector_product", budget=120))
    C.append(Contract(H + pre + "internal_add_hmatrix_matrix_product_row_major", simple, (lambda s, f, this, a, v=v: hmrm(s, f, this, a, v)), title=H + pre + "internal_add_hmatrix_matrix_product_row_major", budget=200))

# ---- products with dense and low-rank matrices
def kind(p): return "H" if "HMatrix<" in p["t"] else LR.kind(p)
def kdims(m, k): return (csz(hT(m)), csz(hS(m))) if k == "H" else LR.dims(m, k)
def kval(s, m, k): return hmat(s, m) if k == "H" else LR.val(s, m, k)
def product(s, f, this, a):
    """C := alpha op(A) op(B) + beta C; a low-rank C of rank zero counts as zero whatever its shape"""
    ctx = s.ctx; ka, kb, kc = kind(f["p"][3]), kind(f["p"][4]), kind(f["p"][6])
    for x, k in ((a[3], ka), (a[4], kb)):
        if k == "L": wf(s, x)
        if k == "H": hwf(s, x)
    ta, tb = s.char(a[0], "NTC", "transa"), s.char(a[1], "NTC", "transb")
    if ka == "H": transok(s, a[3], ta)
    ar, ac = opdims(ta, *kdims(a[3], ka)); br, bc = opdims(tb, *kdims(a[4], kb)); s.req_eq("inner dimensions agree", ac, br)
    AB = kval(s, a[3], ka).op(ta, ctx.realscal).mul(kval(s, a[4], kb).op(tb, ctx.realscal)).scale(s.scalar(a[2])); be = s.scalar(a[5])
    for k, x in ((ka, a[3]), (kb, a[4])):
        if k == "D": s.req("operands are not empty", z3.And(ctx.zi(rows(x)) >= 1, ctx.zi(cols(x)) >= 1))
    if kc == "L" and ctx.branch(ctx.zi(lrank(a[6])) == 0): set_lr(s, a[6], ctx.mnorm(AB)); return
    if kc == "L": wf(s, a[6])
    cr, cc = kdims(a[6], kc); s.req_eq("rows of C", cr, ar); s.req_eq("columns of C", cc, bc)
    v = ctx.mnorm(AB.add(kval(s, a[6], kc).scale(be)))
    if kc == "D": setmat(s, a[6], v)
    else: set_lr(s, a[6], v)
for nm in ("hmatrix_matrix", "matrix_hmatrix", "hmatrix_lrmat", "lrmat_hmatrix"):
    C.append(Contract(H + "internal_add_" + nm + "_product", simple, product, pred=lambda f: kind(f["p"][6]) != "H", title=H + "internal_add_" + nm + "_product", budget=240))
