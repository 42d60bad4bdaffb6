"""Contracts of the compressors (include/htool/hmatrix/lrmat/{SVD,fullACA}.hpp) and of the matrix functions they use.  Each of them
refines the contract of the interface (builder.py): it gives up and leaves the factors alone, or fills factors of positive rank with
the dimensions of the block."""
import z3
from fractions import Fraction
from ..terms import *
from ..engine import *
from .. import models as M
from ..contract import Contract, Spec, same
from ..loops import sum_term, LOOPINV, one
from .dense import num, H, mk_matrix, mk_int, rows, cols, mat
from .lrmat import release, fresh_matrix, minof, truncs, mentioned, entry
from .hmatrix import cluster_named, coff, csz
from .builder import mk_gen, gdims, block, G
C = []
def real_(it, m): return it.ctx.real or all(w == () for w in m.t) and all(n in it.ctx.realscal for c in m.t.values() for mono in c.t for n, _ in mono)
def as_bool(x): return z3.BoolVal(x) if isinstance(x, bool) else x
def args(it, f):
    ctx = it.ctx; a = []; g = None
    for p in f["p"]:
        t = strip(p["t"]); nm = p["n"] or "arg"
        if "Generator<" in t: g = mk_gen(it, nm, t); a.append(g)
        elif t.startswith("htool::Cluster<"): a.append(cluster_named(it, nm))
        elif t == "double": a.append(Cell(ctx, ctx.scal(nm, True), t, nm))
        elif t == "int": a.append(mk_int(it, nm, -1))
        elif t.startswith("htool::Matrix<"): a.append(mk_matrix(it, nm))
        else: raise Unsupported("argument %s" % t)
    return a
def mk(it, f):
    o = Obj(it.ctx, strip(f["cls"]), "this"); return Cell(it.ctx, o, o.t, "this"), args(it, f)
def setup(s, a):
    g, T, S, eps, rank, U, V = a; A0 = s.ctx.mnorm(block(s, g, csz(T), csz(S), coff(T), coff(S)))
    return A0, s.ctx.inorm(csz(T)), s.ctx.inorm(csz(S)), s.scalar(eps), ip(rank.get()), U, V
def untouched(s, U, V):
    """whether the factors are as they were"""
    before = [(x, ctx_dims(x), x.get().field("m_data").get(), mat(s, x)) for x in (U, V)]
    def same_(it):
        for x, d, p, m in before:
            if not all(it.ctx.ieq(p_, q_) for p_, q_ in zip(ctx_dims(x), d)): return False
            q = x.get().field("m_data").get()
            if not (isinstance(q, BPtr) and isinstance(p, BPtr) and q.buf is p.buf) or not it.ctx.meq(mat(s, x), m)[0]: return False
        return True
    return same_
def ctx_dims(x): return rows(x), cols(x)
def svd(s, f, this, a):
    """U V := the first r singular triplets of the block, with r the smallest rank within the tolerance, or the one asked for up to the
    dimensions; gives up when those factors are not smaller than the block"""
    ctx = s.ctx; A0, m, n, e, asked, U, V = setup(s, a); p = ctx.inorm(minof(ctx, m, n)); keep = untouched(s, U, V); z = ctx.zi
    for x in (U, V): release(s, x)
    s.dontcare.add(id(a[4])); fu, fv, sv = M.svd_atoms(ctx, A0, m, n, p)
    def post(it, ret):
        t = truncs(ctx)
        if len(t) != 1 or not ctx.snorm(t[0][0] - e).is_zero() or not ctx.meq(ctx.mnorm(t[0][1]), A0)[0]: return False, "the rank within the tolerance is not computed for the block"
        k = t[0][2]
        if ctx.branch(z(asked) == -1):
            big = z(k) * (z(m) + z(n)) > z(m) * z(n)
            if ctx.branch(big): return keep(it), "the factors of rank %r are not smaller than the block, but were filled" % (k,)
            r = k
        else:
            r = asked if ctx.ile(asked, p) or not ctx.branch(z(asked) >= z(p)) else p
            if ctx.branch(z(r) <= 0): return keep(it), "rank 0"
        r = ctx.inorm(r)
        if not (ctx.ieq(rows(U), m) and ctx.ieq(cols(V), n)): return False, "U V is %r x %r" % (rows(U), cols(V))
        if not (ctx.ieq(cols(U), r) and ctx.ieq(rows(V), r)): return False, "rank %r instead of %r" % (ctx.inorm(cols(U)), r)
        i = "k[svdp]"; ia = IPoly.atom(i); P = lambda q, op="N": MTerm.of(ctx.sel(q, 0, r), op)
        D = sum_term(ctx, MTerm.of(ctx.sel(m, ia, 1)).mul(MTerm.of(ctx.sel(p, ia, 1), "T").mul(sv)).mul(MTerm.of(ctx.sel(r, ia, 1), "T")), i, r)
        want = ctx.mnorm(fu.mul(D).mul(P(n, "T")).mul(fv)); ok, d = ctx.meq(ctx.mnorm(mat(s, U).mul(mat(s, V))), want); return ok, "U V - expected = %r" % (d,)
    s.postchecks.append(("leading singular triplets of the block, or given up", post))
C.append(Contract(H + "SVD::copy_low_rank_approximation", mk, svd, budget=240))

# ---- the entry of largest modulus, and the Frobenius norm
def mk_one(it, f): return None, [mk_matrix(it, "A")]
def modulus(ctx, x): return ctx.scal("abs(%r)" % (x,), True)
def argmax_contract(s, f, this, a):
    ctx = s.ctx; A = a[0]; m, n = ctx.inorm(rows(A)), ctx.inorm(cols(A)); A0 = ctx.mnorm(mat(s, A)); s.req("the matrix has entries", z3.And(ctx.zi(m) > 0, ctx.zi(n) > 0))
    if s.mode == "call":
        i, j = ctx.fint("pivot_i", 0), ctx.fint("pivot_j", 0); ctx.assume(z3.And(i.z() < ctx.zi(m), j.z() < ctx.zi(n)))
        o = Obj(ctx, "std::pair<int, int>", "pair"); o.f["first"] = Cell(ctx, i, "int", "first"); o.f["second"] = Cell(ctx, j, "int", "second")
        ctx.pivots_of = getattr(ctx, "pivots_of", []) + [(A0, i, j)]; s.ret = o; return
    def post(it, ret):
        o = ret.get() if hasattr(ret, "get") else ret; ms = getattr(ctx, "maxes", [])
        if len(ms) != 1: return False, "no search"
        X, k, p, x, y, r = ms[0]; i, j = o.field("first").get(), o.field("second").get()
        if not ctx.ieq(k, m * n): return False, "%r entries are searched" % (k,)
        if not ctx.meq(ctx.view(BPtr(A.get().field("m_data").get().buf, A.get().field("m_data").get().off), m, n, m), A0)[0]: return False, "other entries"
        want = it.cmp("<", modulus(ctx, x), modulus(ctx, y))
        if not ctx.prove(want == r if z3.is_expr(r) else z3.BoolVal(False)): return False, "entries are compared by %r" % (r,)
        return ctx.prove(z3.And(i.z() >= 0, i.z() < ctx.zi(m), j.z() >= 0, j.z() < ctx.zi(n), i.z() + j.z() * ctx.zi(m) == p.z())), "entry (%r,%r) for position %r" % (i, j, p)
    s.postchecks.append(("the place of an entry of largest modulus", post))
C.append(Contract(H + "argmax", mk_one, argmax_contract))
def frob(ctx, A):
    """sqrt(sum |a_ij|^2)"""
    A = ctx.mnorm(A)
    if A.is_zero(): return MTerm.zero(1, 1)
    return ctx.scal("normFrob{%r}" % (A,), True)
def frob_contract(s, f, this, a):
    ctx = s.ctx; A = a[0]; m, n = ctx.inorm(rows(A)), ctx.inorm(cols(A)); A0 = ctx.mnorm(mat(s, A))
    if s.mode == "call": s.ret = frob(ctx, A0); return
    i, j = "k[fi]", "k[fj]"; x = ctx.mnorm(MTerm.of(ctx.sel(m, IPoly.atom(i), 1), "T").mul(A0).mul(MTerm.of(ctx.sel(n, IPoly.atom(j), 1)))); x = modulus(ctx, x)
    S = sum_term(ctx, sum_term(ctx, ctx.smul(x, x), j, n), i, m); s.ret = ctx.scal("sqrt(%r)" % (ctx.mnorm(S),), True)
C.append(Contract(H + "normFrob", mk_one, frob_contract))
# ---- rows and columns of a matrix
def mk_elem(it, f): return mk_matrix(it, "this"), [mk_int(it, "i", 0)]
def line(col):
    def spec(s, f, this, a):
        ctx = s.ctx; m, n = ctx.inorm(rows(this)), ctx.inorm(cols(this)); k, lim = a[0].get(), (n if col else m); s.req("in range", z3.And(ctx.zi(k) >= 0, ctx.zi(k) < ctx.zi(lim)))
        A0 = ctx.mnorm(mat(s, this)); w = ctx.mnorm(A0.mul(MTerm.of(ctx.sel(n, k, 1))) if col else A0.op("T", ctx.realscal).mul(MTerm.of(ctx.sel(m, k, 1)))); l = m if col else n
        if s.mode == "call": et = this.get().t.split("<", 1)[1][:-1]; s.ret = Vec(ctx, Buf(ctx, l, w, "col" if col else "row", et), et); return
        def post(it, ret):
            v = ret.get() if hasattr(ret, "get") else ret
            if not isinstance(v, Vec) or not ctx.ieq(v.buf.size, l): return False, "result %r" % (v,)
            if ctx.empty(l, 1): return True, ""
            ok, d = ctx.meq(ctx.view(BPtr(v.buf, 0), l, 1, l), w); return ok, "%r" % (d,)
        s.postchecks.append(("the %s" % ("column" if col else "row"), post))
    return spec
C.append(Contract(H + "Matrix::get_col", mk_elem, line(True))); C.append(Contract(H + "Matrix::get_row", mk_elem, line(False)))
# ---- cross approximation with full pivoting
class CrossInv:
    """after q steps: the vectors found so far, uu[0], vv[0], .., uu[q-1], vv[q-1], and what is left of the block add up to the block"""
    def __init__(s, it, loop):
        s.it = it; s.ctx = ctx = it.ctx; s.A0, s.m, s.n, s.asked = ctx.aca; used = mentioned(it, loop.n); dist = []
        for v in used:
            if not any(v is x for x in dist): dist.append(v)
        qs = [v for v in dist if isinstance(v, Cell) and isinstance(v.get(), IPoly) and not v.get().t]; ls = [v for v in dist if isinstance(v, (Cell, Tmp)) and isinstance(v.get(), PyVec) and not v.get().items]
        ms = [v for v in dist if isinstance(v, Cell) and isinstance(v.get(), Obj) and v.get().t.startswith("htool::Matrix<")]
        if len(qs) != 1 or len(ls) != 2 or len(ms) != 1: raise Unsupported("variables of the loop invariant %r" % ([[v.name for v in x] for x in (qs, ls, ms)],))
        s.q = qs[0]; s.uu, s.vv = [v.get() for v in ls]; s.mat = ms[0]; s.shapes = {id(s.mat.get().field("m_data").get().buf): (s.m, s.n)}
    def facts(s, q):
        z = s.ctx.zi; q = z(q); r, m, n = z(s.asked), z(s.m), z(s.n)
        return [("no more steps than asked for", z3.And(q >= 0, z3.Implies(r > 0, z3.And(q <= r, q <= m, q <= n)), z3.Implies(r == 0, q == 0))), ("the factors are not larger than the block", z3.Or(q == 0, q * (m + n) <= m * n))]
    def product(s, uu, vv):
        """sum_k uu[k] vv[k]^T, the number of terms"""
        c = s.ctx; X = MTerm.zero(s.m, s.n); n = IPoly.const(0)
        if len(uu.items) != len(vv.items): return None, "different numbers of vectors"
        for a, b in zip(uu.items, vv.items):
            if isinstance(a, ListRef) and isinstance(b, ListRef) and a.l.ghost.get("cols") is not None and b.l.ghost.get("cols") is not None: x, y = a.l.ghost["cols"], b.l.ghost["cols"]; n = n + a.l.length
            elif isinstance(a, Cell) and isinstance(b, Cell) and isinstance(a.get(), Vec) and isinstance(b.get(), Vec):
                p, q = a.get().buf, b.get().buf; n = n + 1
                if not c.ieq(p.size, s.m) or not c.ieq(q.size, s.n): return None, "vectors of %r and %r entries" % (p.size, q.size)
                x, y = c.view(BPtr(p, 0), s.m, 1, s.m), c.view(BPtr(q, 0), s.n, 1, s.n)
            else: return None, "unknown vectors"
            X = X.add(x.mul(y.op("T", c.realscal)))
        return X, n
    def mods(s): return [s.q, s.uu.cell, s.vv.cell, s.mat.get().field("m_data").get().buf]
    def rest(s):
        return s.ctx.view(s.mat.get().field("m_data").get(), s.m, s.n, s.m)
    def holds(s):
        c = s.ctx; q = c.inorm(s.q.get()); X, n = s.product(s.uu, s.vv)
        if X is None: return [("the vectors and the rest add up to the block", False, n)]
        ok, d = c.meq(X.add(s.rest()), s.A0); M_ = s.mat.get()
        dims = c.ieq(M_.field("m_number_of_rows").get(), s.m) and c.ieq(M_.field("m_number_of_cols").get(), s.n)
        return [("the vectors and the rest add up to the block", ok and dims, "%r" % (d,)), ("one pair of vectors per step", c.ieq(n, q), "%r pairs after %r steps" % (n, q))] + [(l, e, "") for l, e in s.facts(q)]
    def assume(s):
        c = s.ctx; q = c.fint("steps", 0)
        for l, e in s.facts(q): c.assume(e)
        c.branch(q.z() == 0); q = c.inorm(q); s.q.set(q); c.aca_state = s; s.steps = q; U, V = c.gen(c.fresh("acaU"), s.m, q), c.gen(c.fresh("acaV"), q, s.n); W = V.op("T", c.realscal)
        for v, X, k, nm in ((s.uu, U, s.m, "uu"), (s.vv, W, s.n, "vv")):
            et = tmpl(strip(v.t))[1][0]; num_ = tmpl(strip(et))[1][0]
            def elem(i, X=X, k=k, nm=nm, et=et, num_=num_): return Cell(c, Vec(c, Buf(c, k, c.mnorm(X.mul(MTerm.of(c.sel(q, i, 1)))), "%s[%r]" % (nm, i), num_), num_), et, "%s[%r]" % (nm, i))
            l = AbsList(c, et, nm, q, elem); l.ghost["cols"] = X; v.cell.set((ListRef(l),))
        X = c.mnorm(s.A0.add(U.mul(V), -1)); d = s.mat.get().field("m_data").get(); d.buf.setc(X)
    def negligible(s, it):
        """the entry of largest modulus of what is left"""
        c = s.ctx; R = c.mnorm(s.rest())
        return any(c.meq(P, R)[0] and tiny(it, MTerm.of(c.sel(s.m, i, 1), "T").mul(R).mul(MTerm.of(c.sel(s.n, j, 1)))) for P, i, j in getattr(c, "pivots_of", []))
LOOPINV[H + "fullACA::copy_low_rank_approximation"] = lambda it, loop: CrossInv(it, loop) if loop.kind in ("Do", "While") else None
def tiny(it, x):
    """a bound of 1e-15 on the modulus, in either form of the test"""
    c = it.ctx; a = c.scal("abs(%r)" % (c.mnorm(x),), True); e = c.const(Fraction("1.0000000000000001E-15"))
    return c.prove(as_bool(it.cmp("<", a, e))) or c.prove(z3.Not(as_bool(it.cmp(">", a, e))))
def giving_up(s, keep, m, n, asked, e):
    """the factors are left alone; rank -1 when one more cross would make the factors larger than the block"""
    ctx = s.ctx; z = ctx.zi
    def fn(it, r):
        if not keep(it): return False, "rank %r with factors" % (r,)
        if ctx.prove(z(asked) == 0) and ctx.prove(z(r) == 0): return True, ""
        st = getattr(ctx, "aca_state", None)
        if st is None: return False, "rank %r" % (r,)
        if ctx.prove(z3.And(z(r) == -1, (z(st.steps) + 1) * (z(m) + z(n)) > z(m) * z(n))): return True, ""
        if not ctx.prove(z3.And(z3.Or(z(r) == 0, z(r) == -1), z(st.steps) == 0)): return False, "rank %r after %r crosses" % (r, st.steps)
        return st.negligible(it), "gives up although the pivot is not negligible"
    return fn
def full(s, f, this, a):
    """gives up with rank -1 when the factors would be larger than the block; otherwise U V and a rest add up to the block, and the rest
    is within the tolerance, has no entry above 1e-15, or all the steps asked for are done"""
    ctx = s.ctx; A0, m, n, e, asked, U, V = setup(s, a); keep = untouched(s, U, V); z = ctx.zi; ctx.aca = (A0, m, n, asked); rk = a[4]
    s.req("the block has entries", z3.And(z(m) > 0, z(n) > 0))
    for x in (U, V): release(s, x)
    s.dontcare.add(id(rk)); gave_up = giving_up(s, keep, m, n, asked, e)
    def post(it, ret):
        r = ctx.inorm(rk.get())
        if ctx.branch(z(r) <= 0): return gave_up(it, r)
        if not (ctx.ieq(rows(U), m) and ctx.ieq(cols(U), r) and ctx.ieq(rows(V), r) and ctx.ieq(cols(V), n)): return False, "factors %r x %r and %r x %r of rank %r" % (rows(U), cols(U), rows(V), cols(V), r)
        if not ctx.prove(z3.And(r.z() * (z(m) + z(n)) <= z(m) * z(n), z3.Implies(z(asked) > 0, z3.And(r.z() <= z(asked), r.z() <= z(m), r.z() <= z(n))))): return False, "rank %r" % (r,)
        R = ctx.mnorm(A0.add(mat(s, U).mul(mat(s, V)), -1)); rel = it.sarith("/", frob(ctx, R), frob(ctx, A0))
        if ctx.prove(z3.And(z(asked) > 0, z3.Or(r.z() == z(asked), r.z() == z(m), r.z() == z(n)))): return True, ""
        if ctx.prove(z3.Not(as_bool(it.cmp(">", rel, MTerm.scalar(e) if isinstance(e, SPoly) else e)))) and ctx.prove(z(asked) < 0): return True, ""
        if ctx.aca_state.negligible(it): return True, ""
        return False, "neither within the tolerance, nor exhausted: U V - block = -(%r)" % (R,)
    s.postchecks.append(("factors within the tolerance of the block, or given up", post))
C.append(Contract(H + "fullACA::copy_low_rank_approximation", mk, full, budget=240))

# ---- cross approximation with partial pivoting
def has(n, k):
    if isinstance(n, dict): return n.get("k") == k or any(has(x, k) for x in n.values())
    return isinstance(n, list) and any(has(x, k) for x in n)
def distinct(vs):
    out = []
    for v in vs:
        if not any(v is x for x in out): out.append(v)
    return out
class PivotInv:
    """looking for a pivot: the index kept stays within the vector"""
    def __init__(s, it, loop):
        s.it = it; s.n_ = loop.n; s.ctx = it.ctx
    def setup(s):
        c = s.ctx; used = distinct(mentioned(s.it, s.n_)); own = [v for v in distinct(mentioned(s.it, s.n_.get("i"))) if isinstance(v, Cell) and isinstance(v.get(), IPoly)]
        vs = [v.get() for v in used if isinstance(v, (Cell, Tmp)) and isinstance(v.get(), Vec) and isinstance(v.get().buf, Buf)]
        decl = {d["id"] for d in s.n_["i"].get("d", [])} if isinstance(s.n_.get("i"), dict) else set(); own = [s.it.fr.env[i] for i in decl if i in s.it.fr.env]
        if len(vs) != 1 or len(own) != 1: raise Unsupported("search for a pivot")
        s.n = vs[0].buf.size; s.k = own[0]; ints = [v for v in used if isinstance(v, Cell) and isinstance(v.get(), IPoly) and strip(v.t) == "int" and v is not s.k]
        s.ints = [v for v in ints if not c.ieq(v.get(), s.n)]; s.nums = [v for v in used if isinstance(v, Cell) and isinstance(v.get(), MTerm)]
    def mods(s): return s.ints + s.nums + [s.k]
    def holds(s):
        z = s.ctx.zi; n = z(s.n); k = z(s.k.get()); return [("the index is in range", z3.And(k >= 0, k <= n), "")] + [("the pivot %s is in range" % v.name, z3.And(z(v.get()) >= 0, z(v.get()) < n), "") for v in s.ints]
    def assume(s):
        c = s.ctx
        for v in [s.k] + s.ints: v.set(c.fint(str(v.name), 0))
        for v in s.nums: v.set(c.scal(c.fresh(str(v.name)), True))
        for l, e, _ in s.holds(): c.assume(e)
class PartialInv:
    """after q steps: the crosses found so far and a rest R add up to the block, and R vanishes on the rows and columns of the crosses"""
    def __init__(s, it, loop):
        s.it = it; s.ctx = c = it.ctx; s.A0, s.m, s.n, s.asked, s.to, s.so, s.swapped, s.Gd = c.aca; used = distinct(mentioned(it, loop.n))
        def one(*names):
            x = [v for v in used if isinstance(v, Cell) and v.name in names and isinstance(v.get(), IPoly)]
            if len(x) != 1: raise Unsupported("variable %s of the loop" % names[0])
            return x[0]
        s.q, s.I, s.J = one("q"), one("I", "I1"), one("J", "I2")
        ls = [v.get() for v in used if isinstance(v, (Cell, Tmp)) and isinstance(v.get(), PyVec) and not v.get().items]
        if len(ls) != 2: raise Unsupported("lists of vectors of the loop")
        s.uu, s.vv = ls
        # side 1 is that of the first index of a cross (the rows, unless the roles are exchanged)
        s.n1, s.n2 = (s.n, s.m) if s.swapped else (s.m, s.n); vs = [v.get() for v in used if isinstance(v, (Cell, Tmp)) and isinstance(v.get(), Vec)]
        s.bits = [v for v in vs if isinstance(v.buf, IBuf)]; s.bufs = [v for v in vs if isinstance(v.buf, Buf)]; s.shapes = {}
        for v in s.bufs:
            k = s.n1 if c.ieq(v.buf.size, s.n1) else s.n2; s.shapes[id(v.buf)] = (k, ip(1))
        s.nums = [v for v in used if isinstance(v, Cell) and isinstance(v.get(), MTerm) and v.name != "epsilon"]; s.prev = None
        s.frob = [v for v in s.nums if v.name == "frob"]; s.aux = [v for v in s.nums if v.name == "aux"]
        if len(s.frob) != 1 or len(s.aux) != 1: raise Unsupported("norms of the loop")
    def mods(s): return [s.q, s.I, s.J, s.uu.cell, s.vv.cell] + s.nums + [v.buf for v in s.bits + s.bufs]
    def facts(s, q):
        c = s.ctx; z = c.zi; i, j = z(s.I.get()), z(s.J.get()); q = z(q); r, m, n = z(s.asked), z(s.m), z(s.n)
        return [("indices in range", z3.And(i >= 0, i < z(s.n1), j >= 0, j < z(s.n2))), ("no more steps than asked for", z3.And(q >= 0, z3.Implies(r > 0, z3.And(q <= r, q <= m, q <= n)), z3.Implies(r == 0, q == 0))), ("the factors are not larger than the block", z3.Or(q == 0, q * (m + n) <= m * n))]
    def terms(s):
        """[(u, v)] with sum u v^T the product found so far, in the order of the sides 1 and 2; the number of terms"""
        c = s.ctx; n = IPoly.const(0); out = []
        if len(s.uu.items) != len(s.vv.items): return None, "different numbers of vectors"
        for a, b in zip(s.uu.items, s.vv.items):
            if isinstance(a, ListRef) and isinstance(b, ListRef) and a.l.ghost.get("cols") is not None and b.l.ghost.get("cols") is not None: x, y = a.l.ghost["cols"], b.l.ghost["cols"]; n = n + a.l.length
            elif isinstance(a, Cell) and isinstance(b, Cell) and isinstance(a.get(), Vec) and isinstance(b.get(), Vec):
                p, q = a.get().buf, b.get().buf; n = n + 1
                if not c.ieq(p.size, s.n1) or not c.ieq(q.size, s.n2): return None, "vectors of %r and %r entries" % (p.size, q.size)
                x, y = c.view(BPtr(p, 0), s.n1, 1, s.n1), c.view(BPtr(q, 0), s.n2, 1, s.n2)
            else: return None, "unknown vectors"
            out.append((x, y))
        return out, n
    def X0(s): return s.A0.op("T", s.ctx.realscal) if s.swapped else s.A0
    def holds(s):
        c = s.ctx; q = c.inorm(s.q.get()); ts, n = s.terms()
        if ts is None: return [("the crosses", False, n)]
        R = s.X0()
        for x, y in ts: R = R.add(x.mul(y.op("T", c.realscal)), -1)
        R = c.mnorm(R); out = [("one cross per step", c.ieq(n, q), "%r crosses after %r steps" % (n, q))] + [(l, e, "") for l, e in s.facts(q)]
        row = lambda k: c.mnorm(MTerm.of(c.sel(s.n1, k, 1), "T").mul(R)); col = lambda k: c.mnorm(R.mul(MTerm.of(c.sel(s.n2, k, 1))))
        if s.prev is None: return out + [("no cross yet", not ts and c.ieq(s.I.get(), 0), "")]      # on entry
        U, V, I, p = s.prev["U"], s.prev["V"], s.prev["I"], s.prev["p"]
        if not ts or not (isinstance(s.uu.items[0], ListRef) and ts[0][0] is U and ts[0][1] is V) or len(ts) != 2: return out + [("one cross is added", False, "")]
        for lab, x in ([("the rest vanishes on a row where it did", row(p[0])), ("the rest vanishes on a column where it did", col(p[1]))] if s.prev["some"] else []) + [("the rest vanishes on the row of the new cross", row(I)), ("the rest vanishes on the column of the new cross", col(s.J.get()))] + [("the rest vanishes on the first row", row(ip(0)))]:
            out.append((lab, c.mzero(x), "%r" % (x,)))
        return out + s.norms(ts)
    def norms(s, ts):
        """|U V + u v^T|^2 = |U V|^2 + |u|^2 |v|^2 + 2 Re sum_j (v^H v_j)(u^H u_j)"""
        c = s.ctx; it = s.it; (U, V), (u, v) = ts
        if c.prove(c.zi(s.asked) >= 0): return []
        H = lambda x: x.op("C", c.realscal); ab = lambda x: c.scal("abs(%r)" % (c.mnorm(x),), True)
        aux = c.smul(ab(H(u).mul(u)), ab(H(v).mul(v))); got = c.mnorm(s.aux[0].get()); d = c.mnorm(s.frob[0].get().add(s.prev["frob"], -1))
        k = "k[aca]"; q = c.inorm(U.c); e = MTerm.of(c.sel(q, IPoly.atom(k), 1)); x = c.smul(c.mnorm(H(V.mul(e)).mul(v)), c.mnorm(H(U.mul(e)).mul(u))); X = sum_term(c, x, k, q)
        re = lambda t: t if real_(it, t) else c.scal("real(%r)" % (t,), True)
        cands = [c.mnorm(aux.add(re(c.mnorm(y)).scale(SPoly.const(2)))) for y in (X, H(X))]
        return [("aux is the squared norm of the new cross", c.meq(got, aux)[0], "%r instead of %r" % (got, aux)), ("frob is the squared norm of the product", any(c.meq(d, y)[0] for y in cands), "%r instead of %r" % (d, cands[0]))]
    def assume(s):
        c = s.ctx; q = c.fint("steps", 0); I, J = c.fint("first", 0), c.fint("second", 0); s.q.set(q); s.I.set(I); s.J.set(J)
        for l, e in s.facts(q): c.assume(e)
        for v in s.nums: v.set(c.scal(c.fresh(str(v.name)), strip(v.t) == "double"))
        for v in s.bufs: v.buf.setc(c.gen(c.fresh("work"), *s.shapes[id(v.buf)]))
        for v in s.bits: v.buf.setc(z3.Array(c.fresh("visited"), z3.IntSort(), z3.IntSort()))
        some = not c.branch(q.z() == 0)
        if not some: c.assume(I.z() == 0); I = ip(0); s.I.set(I)
        q = c.inorm(q); R, U, V = c.gen(c.fresh("rest"), s.n1, s.n2), c.gen(c.fresh("acaU"), s.n1, q), c.gen(c.fresh("acaV"), s.n2, q)
        for v, X, k, nm in ((s.uu, U, s.n1, "uu"), (s.vv, V, s.n2, "vv")):
            et = tmpl(strip(v.t))[1][0]; num_ = tmpl(strip(et))[1][0]
            def elem(i, X=X, k=k, nm=nm, et=et, num_=num_): return Cell(c, Vec(c, Buf(c, k, c.mnorm(X.mul(MTerm.of(c.sel(q, i, 1)))), "%s[%r]" % (nm, i), num_), num_), et, "%s[%r]" % (nm, i))
            l = AbsList(c, et, nm, q, elem); l.ghost["cols"] = X; v.cell.set((ListRef(l),))
        # (p0,p1): any cross found so far
        p = (c.fint("some_row", 0), c.fint("some_column", 0)); c.assume(z3.And(p[0].z() < c.zi(s.n1), p[1].z() < c.zi(s.n2)))
        s.prev = dict(U=U, V=V, I=I, p=p, R=R, frob=s.frob[0].get(), some=some); s.steps = q; c.aca_state = s; s.rules(R, U.mul(V.op("T", c.realscal)).add(R), ([p[0], ip(0)], [p[1]]) if some else ([], []))
    def negligible(s, it):
        """the pivot of the row looked at"""
        c = s.ctx; p = s.prev; return tiny(it, MTerm.of(c.sel(s.n1, p["I"], 1), "T").mul(p["R"]).mul(MTerm.of(c.sel(s.n2, s.J.get(), 1))))
    def converged(s, it, e):
        """the last cross is small, in relative Frobenius norm"""
        c = s.ctx; x = it.sarith("/", s.aux[0].get(), s.frob[0].get()); x = c.scal("sqrt(%r)" % (c.mnorm(x),), True); return c.prove(z3.Not(as_bool(it.cmp(">", x, e))))
    def rules(s, R, X, zero):
        """the block is X; R vanishes on the rows and columns in zero; its entries are scalars"""
        c = s.ctx; at = M.single_atom(R)[0]; B = X.op("T", c.realscal) if s.swapped else X; g, to, so, m, n, sw = s.Gd, s.to, s.so, s.m, s.n, s.swapped
        def rule(ctx, w):
            for i in range(len(w)):
                a, o = w[i]
                if a.key() == g.key() and 0 < i < len(w) - 1:
                    (l, lo), (r, ro) = w[i - 1], w[i + 1]
                    if l.kind != "sel" or r.kind != "sel" or lo != "T" or ro != "N": continue
                    if o in "TC": l, r = r, l
                    x, y = ctx.inorm(l.off - to), ctx.inorm(r.off - so)
                    if not (ctx.ile(0, x) and ctx.ile(x + l.cols, m) and ctx.ile(0, y) and ctx.ile(y + r.cols, n)): continue
                    new = MTerm.of(ctx.sel(m, x, l.cols), "T").mul(B).mul(MTerm.of(ctx.sel(n, y, r.cols))).op(o, ctx.realscal)
                    return (one(w[:i - 1]).mul(new).mul(one(w[i + 2:])),)
                if a is at or a.key() == at.key():
                    l, r = (w[i - 1] if i else None), (w[i + 1] if i + 1 < len(w) else None); rows_, cols_ = (0, 1) if o in "NJ" else (1, 0)
                    for f, side, op in ((l, rows_, "T"), (r, cols_, "N")):
                        if f is not None and f[0].kind == "sel" and f[1] == op and ctx.ieq(f[0].cols, 1) and any(ctx.ieq(f[0].off, z) for z in zero[side]): return (None,)
                    if l is not None and r is not None and l[0].kind == r[0].kind == "sel" and l[1] == "T" and r[1] == "N" and ctx.ieq(l[0].cols, 1) and ctx.ieq(r[0].cols, 1) and "k[" not in repr(l[0].off) + repr(r[0].off):
                        e = [ctx.inorm(l[0].off), ctx.inorm(r[0].off)]; e = e if o in "NJ" else e[::-1]; nm = "%s(%r,%r)" % (at.name, e[0], e[1])
                        if ctx.real: ctx.realscal.add(nm)
                        return (one(w[:i - 1]).mul(MTerm.scalar(SPoly.atom(nm, o in "JC" and not ctx.real))).mul(one(w[i + 2:])),)
            return None
        c.wordrules.append(rule)
def partial(s, f, this, a):
    """gives up with rank -1; or U V and a rest that vanishes on the first row (and on those of all the crosses) add up to the block"""
    ctx = s.ctx; A0, m, n, e, asked, U, V = setup(s, a); keep = untouched(s, U, V); z = ctx.zi; rk = a[4]; g, T, S = a[0], a[1], a[2]; sym = "sym" in f["qn"]
    s.req("the block has entries", z3.And(z(m) > 0, z(n) > 0))
    swapped = sym and not ctx.branch(z(coff(T)) >= z(coff(S))); ctx.aca = (A0, m, n, asked, coff(T), coff(S), swapped, M.single_atom(G(ctx, g))[0])
    for x in (U, V): release(s, x)
    s.dontcare.add(id(rk)); gave_up = giving_up(s, keep, m, n, asked, e)
    def post(it, ret):
        r = ctx.inorm(rk.get())
        if ctx.branch(z(r) <= 0): return gave_up(it, r)
        if not (ctx.ieq(rows(U), m) and ctx.ieq(cols(U), r) and ctx.ieq(rows(V), r) and ctx.ieq(cols(V), n)): return False, "factors %r x %r and %r x %r of rank %r" % (rows(U), cols(U), rows(V), cols(V), r)
        if not ctx.prove(z3.And(r.z() * (z(m) + z(n)) <= z(m) * z(n), z3.Implies(z(asked) > 0, z3.And(r.z() <= z(asked), r.z() <= z(m), r.z() <= z(n))))): return False, "rank %r" % (r,)
        R = ctx.mnorm(A0.add(mat(s, U).mul(mat(s, V)), -1)); x = ctx.mnorm(R.mul(MTerm.of(ctx.sel(n, 0, 1))) if swapped else MTerm.of(ctx.sel(m, 0, 1), "T").mul(R))
        if not (ctx.prove(z3.And(z(asked) > 0, z3.Or(r.z() == z(asked), r.z() == z(m), r.z() == z(n)))) or ctx.prove(z(asked) < 0) and ctx.aca_state.converged(it, MTerm.scalar(e) if isinstance(e, SPoly) else e) or ctx.aca_state.negligible(it)): return False, "stops early"
        return ctx.mzero(x), "the first %s is not reproduced: %r" % ("column" if swapped else "row", x)
    s.postchecks.append(("factors made of crosses of the block, or given up", post))
for nm in ("partialACA", "sympartialACA"):
    C.append(Contract(H + nm + "::copy_low_rank_approximation", mk, partial, budget=600))
    LOOPINV[H + nm + "::copy_low_rank_approximation"] = lambda it, loop: PartialInv(it, loop) if loop.kind in ("Do", "While") else PivotInv(it, loop) if loop.kind == "For" and has(loop.n.get("b"), "Continue") else None
