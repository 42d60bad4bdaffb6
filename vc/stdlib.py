"""Assumed contracts of the C++ standard library pieces htool uses."""
import z3
from .terms import *
from .engine import *
from . import models as M

def isreal(it, x):
    """a real number: the coefficients and the matrices it is an entry of are real"""
    x = it.ctx.mnorm(x)
    return it.ctx.real or all(all(a[0].real or a[0].kind == "sel" for a in w) and all(n in it.ctx.realscal for m in k.t for n, _ in m) for w, k in x.t.items())
def nonneg(it, x):
    """an entry of a vector of non-negative numbers"""
    x = it.ctx.mnorm(x)
    if len(x.t) != 1: return False
    (w, k), = x.t.items()
    return k.is_const() and k.cval() >= 0 and len(w) >= 1 and sum(getattr(a[0], "tag", None) == "nonneg" for a in w) == 1 and all(a[0].kind == "sel" or getattr(a[0], "tag", None) == "nonneg" for a in w)
def register(ms):
    fn = ms.fn
    def d(*names):
        def w(f):
            for n in names: fn[n] = f
            return f
        return w
    def vals(it, nodes): return [it.rval(a) for a in nodes]
    def lvs(it, nodes): return [it.lval(a) for a in nodes]

    @d("std::min", "std::max")
    def minmax(it, f, this, nodes, e):
        a, b = [x.get() for x in lvs(it, nodes[:2])]
        mn = f["n"] == "min"
        if isinstance(a, IPoly) and isinstance(b, IPoly):
            ctx = it.ctx
            if ctx.ile(a, b): return a if mn else b
            if ctx.ile(b, a): return b if mn else a
            return (a if mn else b) if ctx.branch(ctx.zi(a) <= ctx.zi(b)) else (b if mn else a)
        a, b = it.toscal(a), it.toscal(b)
        if isinstance(it.cmp("<", a, b), bool): return a if it.cmp("<", a, b) == mn else b
        return it.ctx.scal("%s(%r,%r)" % (f["n"], it.ctx.mnorm(a), it.ctx.mnorm(b)), True)
    @d("std::conj")
    def conj(it, f, this, nodes, e):
        v = it.rval(nodes[0]); return it.ctx.mnorm(it.toscal(v).op("J", it.ctx.realscal))
    @d("std::real", "std::imag", "std::abs", "std::sqrt", "std::pow", "std::norm", "sqrt", "abs", "std::log", "std::log2", "std::log10", "std::ceil", "std::floor", "log", "ceil", "floor", "pow", "fabs", "std::fabs", "std::exp", "exp", "std::isnan", "log2", "std::atan2", "std::sin", "std::cos", "std::complex::real", "std::complex::imag")
    def fun(it, f, this, nodes, e):
        a = [it.rval(x) for x in nodes]
        if this is not None: a = [this.get()] + a
        if f["n"] in ("abs",) and isinstance(a[0], IPoly):
            x = it.ctx.inorm(a[0]); return x if it.ctx.branch(x.z() >= 0) else -x
        a = [it.toscal(x) for x in a]
        w = [it.whole(x) if not (it.spure(x) is not None and it.spure(x).is_const() and it.spure(x).cval().denominator == 1) else IPoly.const(int(it.spure(x).cval())) for x in a] if f["n"] in ("pow", "log") else []
        if f["n"] == "pow" and len(w) == 2 and all(x is not None for x in w) and it.ctx.prove(z3.And(it.ctx.zi(w[0]) >= 1, it.ctx.zi(w[1]) >= 0)): return it.toscal(power(it, *w))
        if f["n"] == "log" and w[0] is not None:
            r = it.ctx.scal("log(%r)" % (w[0],), True); it.ctx.logs = getattr(it.ctx, "logs", []) + [(r, w[0])]; return r
        if f["n"] == "floor":
            # the floor of log(x)/log(b) for x >= b >= 2 (assumed: 1 at least, and b to that power is at most x)
            for p, x in getattr(it.ctx, "logs", []):
                for q, b in it.ctx.logs:
                    if it.ctx.meq(a[0], it.sarith("/", p, q))[0] and not it.ctx.ieq(x, b) and it.ctx.prove(z3.And(it.ctx.zi(b) >= 2, it.ctx.zi(x) >= it.ctx.zi(b))):
                        d_ = it.ctx.fint("floorlog", 1); it.ctx.assume(it.ctx.zi(power(it, b, d_)) <= it.ctx.zi(x)); it.ctx.floorlogs = getattr(it.ctx, "floorlogs", []) + [(b, x, d_)]; return it.toscal(d_)
        if f["n"] == "sqrt" and it.spure(a[0]) is not None and it.spure(a[0]).is_const() and it.spure(a[0]).cval() in (0, 1): return a[0]
        if f["n"] in ("abs", "norm") and a[0].is_zero(): return a[0]
        if f["n"] == "real" and isreal(it, a[0]): return a[0]
        if f["n"] in ("abs", "fabs") and nonneg(it, a[0]): return a[0]
        if f["n"] == "pow" and len(a) == 2 and it.spure(a[1]) is not None and it.spure(a[1]).is_const() and it.spure(a[1]).cval() == 2: return it.ctx.smul(a[0], a[0])
        return it.ctx.scal("%s(%s)" % (f["n"], ",".join(repr(x) for x in a)), True)
    def power(it, a, e):
        """a^e of integers a >= 1, e >= 0"""
        ctx = it.ctx; a, e = ctx.inorm(a), ctx.inorm(e)
        if e.is_const() and e.cval() <= 2: return IPoly.const(1) if e.cval() == 0 else a if e.cval() == 1 else ctx.inorm(a * a)
        ps = ctx.pows = list(getattr(ctx, "pows", []))
        for b, x, v in ps:
            if ctx.ieq(a, b) and ctx.ieq(e, x): return v
        v = IPoly.atom("pow<%r,%r>" % (a, e)); az, ez = ctx.zi(a), ctx.zi(e); ctx.assume(z3.And(v.z() >= 1, z3.Implies(ez == 0, v.z() == 1), z3.Implies(ez == 1, v.z() == az), z3.Implies(ez >= 1, v.z() >= az)))
        for b, x, u in ps:
            if ctx.ieq(a, b): xz = ctx.zi(x); ctx.assume(z3.And(z3.Implies(xz == ez, u.z() == v.z()), z3.Implies(xz + 1 == ez, v.z() == u.z() * az), z3.Implies(ez + 1 == xz, u.z() == v.z() * az), z3.Implies(xz <= ez, u.z() <= v.z()), z3.Implies(ez <= xz, v.z() <= u.z())))
        ps.append((a, e, v)); return v
    ms.power = power
    @d("std::move", "std::forward")
    def move(it, f, this, nodes, e):
        if len(nodes) == 3: return copy(it, f, this, nodes, e)     # the algorithm; moving numbers is copying them
        return it.lval(nodes[0])
    @d("std::addressof")
    def addr(it, f, this, nodes, e):
        lv = it.lval(nodes[0]); return BPtr(lv.buf, lv.off) if isinstance(lv, ElemRef) else Ptr(lv)
    @d("std::swap")
    def swap(it, f, this, nodes, e):
        a, b = lvs(it, nodes); x, y = a.get(), b.get()
        if isinstance(x, Obj): raise Unsupported("swap of objects")
        if isinstance(a, ElemRef) and isinstance(b, ElemRef) and a.buf is b.buf and isinstance(a.buf, Buf) and not isinstance(a.buf.content, Fill):
            if M.row_swap(it.ctx, a, b): return None
        it.store(a, y); it.store(b, x)
    @d("std::fill_n")
    def fill_n(it, f, this, nodes, e):
        p, n, v = vals(it, nodes); ctx = it.ctx
        if isinstance(p, Ptr) and p.cell is None: ctx.require("fill of null only when empty", ctx.zi(n) <= 0); return p
        if isinstance(p, BPtr) and isinstance(p.buf, Buf):
            ctx.require("fill_n inside %s" % p.buf.name, z3.Or(ctx.zi(n) <= 0, z3.And(ctx.zi(p.off) >= 0, ctx.zi(p.off + n) <= ctx.zi(p.buf.size))))
            M.flat_write(ctx, p, n, Fill(it.toscal(v))); return BPtr(p.buf, p.off + n)
        if isinstance(p, BPtr) and isinstance(p.buf, IBuf): return ifill(it, p, p.off + n, v)
        raise Unsupported("fill_n")
    def ifill(it, p, end, v):
        ctx = it.ctx; b = p.buf; i = z3.Int("i!fill")
        ctx.require("fill inside %s" % b.name, z3.And(ctx.zi(p.off) >= 0, ctx.zi(end) <= ctx.zi(b.size)))
        b.setc(z3.Lambda([i], z3.If(z3.And(i >= ctx.zi(p.off), i < ctx.zi(end)), ctx.zi(v), z3.Select(b.arr, i)))); return BPtr(b, end)
    @d("std::fill")
    def fill(it, f, this, nodes, e):
        p, q, v = vals(it, nodes); ctx = it.ctx
        p, q = toptr(it, p), toptr(it, q)
        if isinstance(p, BPtr) and isinstance(p.buf, Buf): M.flat_write(ctx, p, q.off - p.off, Fill(it.toscal(v))); return None
        if isinstance(p, BPtr) and isinstance(p.buf, IBuf): ifill(it, p, q.off, v); return None
        raise Unsupported("fill")
    def toptr(it, p): return p
    def docopy(it, p, n, q):
        ctx = it.ctx
        if isinstance(p, Ptr) and p.cell is None or isinstance(q, Ptr) and q.cell is None:
            ctx.require("null range only when empty", ctx.zi(n) <= 0); return q
        if isinstance(p, BPtr) and isinstance(p.buf, Buf) and isinstance(q.buf, Buf):
            safe = z3.Or(ctx.zi(n) <= 0, z3.And(ctx.zi(q.off) >= 0, ctx.zi(q.off + n) <= ctx.zi(q.buf.size)))
            ctx.require("copy of %r entries fits in %s" % (ctx.inorm(n), q.buf.name), safe)
            if ctx.prove(ctx.zi(n) <= 0): return q
            ctx.require("copy of %r entries readable in %s" % (ctx.inorm(n), p.buf.name), z3.Or(ctx.zi(n) <= 0, z3.And(ctx.zi(p.off) >= 0, ctx.zi(p.off + n) <= ctx.zi(p.buf.size))))
            X, sh = M.flat_read(ctx, p, n, None)
            if X is None: M.flat_write(ctx, q, n, Fill(None))
            else: M.flat_write(ctx, q, n, X)
            return BPtr(q.buf, q.off + n)
        if isinstance(p, BPtr) and isinstance(p.buf, IBuf) and isinstance(q, BPtr) and isinstance(q.buf, IBuf):
            b = q.buf; i = z3.Int("i!copy")
            ctx.require("copy fits in %s" % b.name, z3.Or(ctx.zi(n) <= 0, z3.And(ctx.zi(q.off) >= 0, ctx.zi(q.off + n) <= ctx.zi(b.size))))
            ctx.require("copy readable in %s" % p.buf.name, z3.Or(ctx.zi(n) <= 0, z3.And(ctx.zi(p.off) >= 0, ctx.zi(p.off + n) <= ctx.zi(p.buf.size))))
            b.setc(z3.Lambda([i], z3.If(z3.And(i >= ctx.zi(q.off), i < ctx.zi(q.off + n)), z3.Select(p.buf.arr, i - ctx.zi(q.off) + ctx.zi(p.off)), z3.Select(b.arr, i)))); return BPtr(b, q.off + n)
        m = it.ctx.models._try("docopy", it, p, n, q)
        if m is not None: return m
        raise Unsupported("copy")
    @d("std::copy_n")
    def copy_n(it, f, this, nodes, e):
        p, n, q = vals(it, nodes); return docopy(it, p, n, q)
    @d("std::copy")
    def copy(it, f, this, nodes, e):
        p, r, q = vals(it, nodes)
        if isinstance(p, BPtr) and isinstance(r, BPtr): return docopy(it, p, r.off - p.off, q)
        m = it.ctx.models._try("docopy2", it, p, r, q)
        if m is not None: return m
        raise Unsupported("copy")
    @d("std::transform")
    def transform(it, f, this, nodes, e):
        v = vals(it, nodes); ctx = it.ctx
        if len(v) == 4:
            p, r, q, fn = v
            if not (isinstance(p, BPtr) and isinstance(q, BPtr) and isinstance(p.buf, Buf)): 
                if isinstance(p, Ptr) or isinstance(q, Ptr): raise Unsupported("transform on null")
                raise Unsupported("transform")
            n = r.off - p.off; elementwise(it, [p], n, q, fn); return BPtr(q.buf, q.off + n)
        p, r, p2, q, fn = v
        n = r.off - p.off; elementwise(it, [p, p2], n, q, fn); return BPtr(q.buf, q.off + n)
    def elementwise(it, srcs, n, q, fn):
        """q[i] = fn(srcs[i]...) for i < n; fn must be additive-linear/conjugate-linear in its arguments"""
        ctx = it.ctx
        X = []; sh = None
        ctx.require("range fits in %s" % q.buf.name, z3.Or(ctx.zi(n) <= 0, z3.And(ctx.zi(q.off) >= 0, ctx.zi(q.off + n) <= ctx.zi(q.buf.size))))
        for p in srcs:
            x, s = M.flat_read(ctx, p, n)
            sh = sh or s; X.append(x)
        if sh is None:
            if any(x is None for x in X): M.flat_write(ctx, q, n, Fill(None)); return
            out = it.call_value(fn, [Tmp(x.v) for x in X]); M.flat_write(ctx, q, n, Fill(out if not hasattr(out, "get") else out.get())); return
        X = [M.flat_read(ctx, p, n, sh)[0] for p in srcs]
        for x, p in zip(X, srcs):
            if not (ctx.ieq(x.r, sh[0]) and ctx.ieq(x.c, sh[1])): raise Unsupported("elementwise operands of different layout")
        names = [ctx.fresh("elt") for _ in X]
        out = it.call_value(fn, [Tmp(ctx.scal(nm)) for nm in names])
        out = out.get() if hasattr(out, "get") else out
        s = it.spure(it.toscal(out))
        if s is None: raise Unsupported("elementwise function")
        res = MTerm.zero(sh[0], sh[1])
        for mono, c in s.t.items():
            hit = [(nn, cj) for nn, cj in mono if nn in names]
            if len(hit) == 0:
                raise Unsupported("affine elementwise function")
            if len(hit) != 1: raise Unsupported("nonlinear elementwise function")
            nn, cj = hit[0]; rest = list(mono); rest.remove(hit[0])
            res = res.add(X[names.index(nn)].op("J" if cj else "N", ctx.realscal).scale(SPoly({tuple(rest): c})))
        M.flat_write(ctx, q, n, res)
    @d("std::iota")
    def iota(it, f, this, nodes, e):
        p, q, v = vals(it, nodes); ctx = it.ctx
        if isinstance(p, BPtr) and isinstance(p.buf, IBuf):
            b = p.buf; i = z3.Int("i!iota")
            b.setc(z3.Lambda([i], z3.If(z3.And(i >= ctx.zi(p.off), i < ctx.zi(q.off)), ctx.zi(v) + i - ctx.zi(p.off), z3.Select(b.arr, i))))
            if it.ctx.ieq(p.off, 0) and it.ctx.ieq(q.off, b.size) and it.ctx.ieq(ip(v), 0): b.ghost["range"] = (0, b.size); it.ctx.permof = dict(getattr(it.ctx, "permof", {})); it.ctx.permof[b.arr.get_id()] = (b.arr, MTerm.ident(b.size))      # the identity
            return None
        raise Unsupported("iota")
    @d("std::sort", "std::stable_sort")
    def sort(it, f, this, nodes, e):
        """rearranges the entries of the range"""
        v = vals(it, nodes); ctx = it.ctx; p, q = v[:2]
        if not (isinstance(p, BPtr) and isinstance(q, BPtr) and isinstance(p.buf, IBuf) and p.buf is q.buf): raise Unsupported("sort")
        b = p.buf; lo, hi = ctx.inorm(p.off), ctx.inorm(q.off)
        ctx.require("range inside %s" % b.name, z3.And(ctx.zi(lo) >= 0, ctx.zi(lo) <= ctx.zi(hi), ctx.zi(hi) <= ctx.zi(b.size)))
        if len(v) > 2:
            from .loops import explore
            def one():
                xs = []
                for _ in range(2):
                    i, x = onelem(it, p, v[2]); ctx.assume(z3.And(i.z() >= ctx.zi(lo), i.z() < ctx.zi(hi))); xs.append(Tmp(x))
                jp = len(ctx.journal); it.call_value(v[2], xs)
                if any(isinstance(o, (Cell, Buf, IBuf)) and o.sn < s0 for o, _ in ctx.journal[jp:]): raise Unsupported("comparison with an effect")
                return None
            s0 = ctx.serial; explore(it, one)
        old = b.arr; new = z3.Array(ctx.fresh("sorted"), z3.IntSort(), z3.IntSort()); b.setc(new)
        ctx.sorts = getattr(ctx, "sorts", []) + [(b, lo, hi, old, new)]; pm = getattr(ctx, "permof", {})
        if old.get_id() in pm: ctx.permof = dict(pm); ctx.permof[new.get_id()] = (new, MTerm.of(Atom("perm", str(new), b.size, b.size, real=True)))      # a rearranged permutation
        return None
    @d("std::numeric_limits::max", "std::numeric_limits::min", "std::numeric_limits::lowest", "std::numeric_limits::epsilon")
    def limits(it, f, this, nodes, e):
        if strip(e["t"]) == "unsigned int" and f["n"] in ("min", "max"): return IPoly.const(0 if f["n"] == "min" else 4294967295)
        if strip(e["t"]) not in SCALARS: raise Unsupported("limits of integers")
        return it.ctx.scal("limit:%s" % f["n"], True)
    @d("std::inner_product")
    def inner(it, f, this, nodes, e):
        v = vals(it, nodes); ctx = it.ctx; p, q, r, x = v[:4]
        if len(v) != 4 or not all(isinstance(y, BPtr) and isinstance(y.buf, Buf) for y in (p, q, r)): raise Unsupported("inner_product")
        n = ctx.inorm(q.off - p.off); a, sa = M.flat_read(ctx, p, n, (n, IPoly.const(1))); b, sb = M.flat_read(ctx, r, n, (n, IPoly.const(1)))
        if a is None or b is None or not (ctx.ieq(a.c, 1) and ctx.ieq(b.c, 1)): raise Unsupported("inner_product of matrices")
        return ctx.mnorm(MTerm(1, 1, a.op("T").mul(b).t).add(it.toscal(x)))
    @d("std::_Bit_reference::operator bool")
    def bitget(it, f, this, nodes, e): return it.tobool(this.get())
    @d("std::_Bit_reference::operator=")
    def bitset(it, f, this, nodes, e):
        lv = this if this is not None else it.lval(nodes[0]); b = it.tobool(it.rval(nodes[-1]))
        it.store(lv, ip(int(b)) if isinstance(b, bool) else ip(1) if it.ctx.branch(b) else ip(0)); return lv
    @d("std::bind")
    def bind(it, f, this, nodes, e):
        def holder(n):
            while isinstance(n, dict):
                if n.get("k") == "Ref": q = n.get("qn") or ""; return int(q.rsplit("_", 1)[1]) if q.startswith("std::placeholders::_") else None
                n = n.get("e")
            return None
        fn_ = it.rval(nodes[0]); args = [holder(n) or Tmp(it.rval(n)) for n in nodes[1:]]
        return PyFn(lambda it, v: it.call_value(fn_, [v[x - 1] if isinstance(x, int) else x for x in args]))
    @d("std::max_element")
    def max_element(it, f, this, nodes, e):
        """the position of a largest entry: some position of the range, named by what the range holds"""
        v = vals(it, nodes); ctx = it.ctx
        if len(v) != 3 or not isinstance(v[0], BPtr) or not isinstance(v[0].buf, Buf) or v[1].buf is not v[0].buf: raise Unsupported("max_element")
        p, q, fn = v; n = ctx.inorm(q.off - p.off); ctx.require("the range is not empty", ctx.zi(n) > 0); X, sh = M.flat_read(ctx, p, n, None)
        x, y = [ctx.scal(ctx.fresh("cmp")) for _ in "ab"]; r = it.call_value(fn, [Tmp(x), Tmp(y)])
        o = ctx.fint("largest", 0); ctx.assume(o.z() < ctx.zi(n)); ctx.maxes = getattr(ctx, "maxes", []) + [(X, n, o, x, y, r)]
        return BPtr(p.buf, p.off + o)
    @d("std::accumulate")
    def accumulate(it, f, this, nodes, e):
        v = vals(it, nodes); ctx = it.ctx; p, q, x = v[:3]
        if len(v) != 3 or not (isinstance(p, BPtr) and isinstance(q, BPtr) and isinstance(p.buf, IBuf)): raise Unsupported("accumulate")
        ctx.require("range inside %s" % p.buf.name, z3.And(ctx.zi(p.off) >= 0, ctx.zi(p.off) <= ctx.zi(q.off), ctx.zi(q.off) <= ctx.zi(p.buf.size)))
        r = IPoly.atom(ctx.fresh("sum")); i = z3.Int("i!acc"); lo, hi = ctx.zi(p.off), ctx.zi(q.off)
        ctx.assume(z3.Implies(lo == hi, r.z() == 0))
        for lv in list(it.fr.env.values()):       # a sum of differences telescopes
            b = lv.get() if isinstance(lv, Cell) else None
            if isinstance(b, Vec) and isinstance(b.buf, IBuf) and b.buf is not p.buf and ctx.prove(z3.Implies(z3.And(i >= lo, i < hi), z3.Select(p.buf.arr, i) == z3.Select(b.buf.arr, i + 1) - z3.Select(b.buf.arr, i))):
                ctx.assume(z3.Implies(lo <= hi, r.z() == z3.Select(b.buf.arr, hi) - z3.Select(b.buf.arr, lo)))
        return ip(it.toint(x)) + r
    def onelem(it, p, fn):
        """value of the predicate on an arbitrary element of the integer array at p: (index, truth), after checking it there"""
        ctx = it.ctx; i = IPoly.atom(ctx.fresh("el")); x = IPoly.atom(ctx.fresh("elv")); ctx.assume(x.z() == z3.Select(p.buf.arr, i.z()))
        if "range" in p.buf.ghost: lo, hi = p.buf.ghost["range"]; ctx.assume(z3.And(x.z() >= ctx.zi(ip(lo)), x.z() < ctx.zi(ip(hi))))
        return i, x
    @d("std::all_of", "std::any_of", "std::none_of")
    def allof(it, f, this, nodes, e):
        p, q, fn = vals(it, nodes); ctx = it.ctx
        if not (isinstance(p, BPtr) and isinstance(q, BPtr) and isinstance(p.buf, IBuf)): raise Unsupported(f["n"])
        i, x = onelem(it, p, fn); lo, hi = ctx.zi(p.off), ctx.zi(q.off)
        b4 = ctx.dpos; r = it.call_value(fn, [Tmp(x)]); r = it.tobool(r.get() if hasattr(r, "get") else r); r = z3.BoolVal(r) if isinstance(r, bool) else r
        if ctx.dpos != b4: raise Unsupported("predicate of %s branches" % f["n"])
        at = lambda j: z3.substitute(r, (x.z(), z3.Select(p.buf.arr, j)))
        j = z3.Int("j!all"); w = i.z(); out = z3.Bool(ctx.fresh(f["n"]))
        good = (lambda j: at(j)) if f["n"] == "all_of" else (lambda j: z3.Not(at(j)))
        al = z3.ForAll([j], z3.Implies(z3.And(j >= lo, j < hi), good(j)))
        yes = out if f["n"] != "any_of" else z3.Not(out)
        ctx.assume(z3.Implies(yes, al)); ctx.assume(z3.Implies(z3.Not(yes), z3.And(w >= lo, w < hi, z3.Not(good(w))))); return out
    @d("std::find_if")
    def findif(it, f, this, nodes, e):
        p, q, fn = vals(it, nodes); ctx = it.ctx
        if not (isinstance(p, BPtr) and isinstance(q, BPtr) and isinstance(p.buf, IBuf)): raise Unsupported("find_if")
        ctx.require("range inside %s" % p.buf.name, z3.And(ctx.zi(p.off) >= 0, ctx.zi(p.off) <= ctx.zi(q.off), ctx.zi(q.off) <= ctx.zi(p.buf.size)))
        from .loops import explore
        def one():
            i, x = onelem(it, p, fn); ctx.assume(z3.And(i.z() >= ctx.zi(p.off), i.z() < ctx.zi(q.off)))
            it.call_value(fn, [Tmp(x)]); return None
        explore(it, one)
        r = IPoly.atom(ctx.fresh("found")); ctx.assume(z3.And(r.z() >= ctx.zi(p.off), r.z() <= ctx.zi(q.off))); return BPtr(p.buf, r)
    @d("std::distance")
    def distance(it, f, this, nodes, e):
        p, q = vals(it, nodes); return it.binop("-", q, p)
    @d("std::next", "std::prev")
    def nextp(it, f, this, nodes, e):
        v = vals(it, nodes); return it.ptradd(v[0], (v[1] if len(v) > 1 else IPoly.const(1)) if f["n"] == "next" else -(v[1] if len(v) > 1 else IPoly.const(1)))
    # ---------------- std::vector
    def vecof(this):
        v = this.get()
        return resolve(v)
    def plen(ctx, v):
        n = IPoly.const(0)
        for x in v.items:
            if isinstance(x, Rest): n = n + x.n
            elif isinstance(x, Gen): n = n + x.n
            elif isinstance(x, ListRef): n = n + x.l.length
            else: n = n + 1
        return ctx.inorm(n)
    @d("std::vector::size", "std::array::size")
    def vsize(it, f, this, nodes, e):
        v = vecof(this)
        if isinstance(v, Vec): return it.ctx.inorm(v.buf.size)
        if isinstance(v, PyVec): return plen(it.ctx, v)
        if isinstance(v, AbsList) or hasattr(v, "resize"): return it.ctx.inorm(v.length)
        raise Unsupported("size of %r" % v)
    fn["std::stack::size"] = fn["std::queue::size"] = vsize
    @d("std::vector::empty", "std::stack::empty", "std::queue::empty", "std::list::empty", "std::basic_string::empty")
    def vempty(it, f, this, nodes, e):
        v = vecof(this)
        if isinstance(v, PyVec) and any(isinstance(x, Cell) for x in v.items): return False
        n = vsize(it, f, this, nodes, e); n = it.ctx.inorm(n)
        return n.cval() == 0 if n.is_const() else n.z() == 0
    @d("std::vector::data")
    def vdata(it, f, this, nodes, e):
        v = vecof(this)
        if isinstance(v, Vec): return BPtr(v.buf, 0)
        raise Unsupported("data of %r" % v)
    @d("std::vector::begin", "std::vector::cbegin")
    def vbegin(it, f, this, nodes, e):
        v = seen(vecof(this))
        if isinstance(v, Vec): return BPtr(v.buf, 0)
        return LIter(v, IPoly.const(0))
    @d("std::vector::end", "std::vector::cend")
    def vend(it, f, this, nodes, e):
        v = seen(vecof(this))
        if isinstance(v, Vec): return BPtr(v.buf, v.buf.size)
        return LIter(v, ip(vsize(it, f, this, nodes, e)))
    @d("std::vector::rbegin", "std::vector::crbegin")
    def vrbegin(it, f, this, nodes, e):
        v = seen(vecof(this))
        if isinstance(v, Vec): raise Unsupported("reverse iterator over numbers")
        return LIter(v, ip(vsize(it, f, this, nodes, e)) - 1, -1)
    @d("std::vector::rend", "std::vector::crend")
    def vrend(it, f, this, nodes, e):
        v = seen(vecof(this))
        if isinstance(v, Vec): raise Unsupported("reverse iterator over numbers")
        return LIter(v, IPoly.const(-1), -1)
    @d("std::vector::operator[]", "std::vector::at", "std::array::operator[]")
    def vidx(it, f, this, nodes, e):
        i = it.rval(nodes[0]); return velem(it, seen(vecof(this)), i)
    def velem(it, v, i):
        ctx = it.ctx; i = ctx.inorm(it.toint(i))
        if isinstance(v, Vec): return ElemRef(ctx, v.buf, i)
        if isinstance(v, AbsList):
            ctx.require("index %r within list %s" % (i, v.name), z3.And(i.z() >= 0, i.z() < ctx.zi(v.length)))
            return v.at(i)
        if isinstance(v, PyVec):
            if any(not isinstance(x, Cell) for x in v.items):
                if not isinstance(v.items[0], ListRef) or any(not isinstance(x, Cell) for x in v.items[1:]): raise Unsupported("element of an abstract list")
                l = v.items[0].l; n = ctx.inorm(l.length); ctx.require("index %r within the vector" % (i,), z3.And(i.z() >= 0, i.z() < ctx.zi(n) + len(v.items) - 1))
                for t, x in enumerate(v.items[1:]):
                    if ctx.ieq(i, n + t): return x
                if not ctx.prove(i.z() < ctx.zi(n)): raise Unsupported("element of an abstract list")
                return l.at(i)
            if not i.is_const():
                c = ctx.concretize(i, list(range(len(v.items))), "index")
                if c is None: ctx.oblig("index within bounds", False, "index %r of %d" % (i, len(v.items))); raise PathEnd("oob")
                return v.items[c]
            if not 0 <= i.cval() < len(v.items): ctx.oblig("index within bounds", False, "index %r of %d" % (i, len(v.items))); raise PathEnd("oob")
            return v.items[i.cval()]
        if hasattr(v, "ref"): return v.ref(i)
        raise Unsupported("index of %r" % (v,))
    ms.velem = velem
    @d("std::vector::front", "std::vector::back", "std::stack::top", "std::queue::front")
    def vfront(it, f, this, nodes, e):
        v = vecof(this)
        if isinstance(v, PyVec) and any(not isinstance(x, Cell) for x in v.items):
            x = v.items[0 if f["n"] == "front" else -1]
            if isinstance(x, Cell): return x
            raise Unsupported("end of an abstract list")
        n = ip(vsize(it, f, this, nodes, e))
        return velem(it, v, IPoly.const(0) if f["n"] == "front" else n - 1)
    @d("std::vector::resize", "std::vector::assign")
    def vresize(it, f, this, nodes, e):
        v = vecof(this); a = vals(it, nodes); ctx = it.ctx
        if hasattr(v, "resize") and f["n"] == "resize": v.resize(ip(it.toint(a[0]))); return None
        if isinstance(v, Vec):
            if f["n"] == "assign" and len(a) == 2 and isinstance(a[0], BPtr):
                n = a[1].off - a[0].off; nb = mkbuf(it, v.et, n, None, "vec"); it.store(v.cell, nb); docopy(it, a[0], n, BPtr(nb, 0)); return None
            n = ctx.inorm(a[0]); old = v.buf
            if f["n"] == "resize" and ctx.ieq(n, old.size): return None
            if isinstance(old, IBuf):
                i = z3.Int("i!rs"); x = ctx.zi(a[1]) if len(a) > 1 else z3.IntVal(0)
                keep = z3.And(i < ctx.zi(old.size)) if f["n"] == "resize" else z3.BoolVal(False)
                nb = IBuf(ctx, n, z3.Lambda([i], z3.If(keep, z3.Select(old.arr, i), x)), old.name); nb.ghost = dict(old.ghost)
                it.store(v.cell, nb); return None
            if f["n"] == "assign" or ctx.ieq(old.size, 0):
                it.store(v.cell, Buf(ctx, n, Fill(it.toscal(a[1]) if len(a) > 1 else ctx.const(0)), old.name, old.et)); return None
            if isinstance(old.content, Fill) and old.content.v is not None and len(a) == 1 and it.ctx.mzero(old.content.v): it.store(v.cell, Buf(ctx, n, Fill(ctx.const(0)), old.name, old.et)); return None
            if len(a) == 1 and (isinstance(old.content, Fill) and old.content.v is not None or isinstance(old.content, MTerm) and (ctx.ieq(old.content.c, 1))):
                # the first entries are kept, new ones are zero
                sz = ctx.inorm(old.size); less = ctx.ile(n, sz) or (not ctx.ile(sz, n) and ctx.branch(n.z() <= sz.z()))
                if ctx.ieq(n, sz): return None
                if ctx.ieq(n, 0): it.store(v.cell, Buf(ctx, n, Fill(ctx.const(0)), old.name, old.et)); return None
                if isinstance(old.content, Fill) and less: it.store(v.cell, Buf(ctx, n, Fill(old.content.v), old.name, old.et)); return None
                X = old.content if isinstance(old.content, MTerm) else ctx.fillterm(old, old.content.v, sz, ip(1))
                Y = MTerm.of(ctx.sel(sz, 0, n), "T").mul(X) if less else MTerm.of(ctx.sel(n, 0, sz)).mul(X)
                nb = Buf(ctx, n, ctx.mnorm(Y), old.name, old.et); nb.ghost["vector"] = True; it.store(v.cell, nb); return None
            raise Unsupported("resize of numeric vector")
        if isinstance(v, PyVec):
            n = ctx.inorm(a[0])
            if n.is_const():
                et = tmpl(v.t)[1][0]; items = list(v.items[: n.cval()])
                while len(items) < n.cval(): items.append(Cell(ctx, a[1] if len(a) > 1 else it.zeroinit(et), et, "el"))
                v.cell.set(tuple(items)); return None
        raise Unsupported("resize")
    @d("std::vector::reserve", "std::vector::shrink_to_fit")
    def vreserve(it, f, this, nodes, e): return None
    @d("std::vector::clear")
    def vclear(it, f, this, nodes, e):
        v = vecof(this)
        if isinstance(v, PyVec): v.cell.set(()); return None
        if isinstance(v, Vec): it.store(v.cell, mkbuf(it, v.et, IPoly.const(0), None, "vec")); return None
        if isinstance(v, AbsList) and isinstance(this, Cell): it.store(this, PyVec(it.ctx, v.t)); return None
        raise Unsupported("clear of symbolic list")
    @d("std::vector::push_back", "std::vector::emplace_back", "std::stack::push", "std::queue::push", "std::stack::emplace", "std::queue::emplace")
    def vpush(it, f, this, nodes, e):
        v = vecof(this); ctx = it.ctx
        if hasattr(v, "push"): v.push(it, it.rval(nodes[0])); return None
        if isinstance(v, AbsList): v = this.get()
        if isinstance(v, PyVec):
            et = (tmpl(v.t)[1] or ["?"])[0]
            if len(nodes) == 1:
                x = it.rval(nodes[0])
                if isinstance(x, Obj) and (nodes[0].get("lv") or nodes[0].get("xv")): x = copyobj(it, x, bool(f.get("pt")) and "&&" in f["pt"][0])
                elif isinstance(x, (Vec, PyVec)) and nodes[0].get("lv"): x = copyh(it, et, Cell(ctx, x, et, "el"), "copy")
            else: raise Unsupported("emplace")
            if ctx.par is not None: ctx.par.write(ctx, v.cell)
            v.cell.set(v.items + (Cell(ctx, x, et, "el"),)); return None
        if isinstance(v, Vec):
            x = it.rval(nodes[0]); b = v.buf
            if ctx.par is not None: ctx.par.write(ctx, v.cell)
            if isinstance(b, IBuf):
                nb = IBuf(ctx, ctx.inorm(b.size) + 1, z3.Store(b.arr, ctx.zi(b.size), ctx.zi(x)), b.name); nb.ghost = {k: y for k, y in b.ghost.items() if k != "append"}; nb.ghost["append"] = (b, it.toint(x)); v.cell.set(nb); return None
            v.cell.set(M.grow_num(ctx, b, it.toscal(x))); return None
        raise Unsupported("push_back on %r" % (v,))
    @d("std::stack::pop", "std::vector::pop_back", "std::queue::pop")
    def vpop(it, f, this, nodes, e):
        v = vecof(this)
        if isinstance(v, PyVec):
            if not v.items: it.ctx.oblig("pop of non empty container", False); raise PathEnd("pop")
            if not isinstance(v.items[0 if "queue" in f["qn"] else -1], Cell): raise Unsupported("pop of an abstract list")
            v.cell.set(v.items[1:] if "queue" in f["qn"] else v.items[:-1]); return None
        raise Unsupported("pop on %r" % (v,))
    def copyobj(it, x, mv=False):
        return it.copyval(Cell(it.ctx, x, x.t, "src"), x.t, mv)
    def mkbuf(it, et, n, v, name):
        ctx = it.ctx
        if et in INTS or et in ctx.prog.enums:
            k = v if v is not None else IPoly.const(0)
            if z3.is_bool(k) or isinstance(k, bool): k = it.toint(k)
            return IBuf(ctx, n, z3.K(z3.IntSort(), ctx.zi(k)), name)
        b = Buf(ctx, n, Fill(it.toscal(v) if v is not None else ctx.const(0)), name, et)
        return b
    ms.mkbuf = mkbuf
    def isnumvec(it, t):
        n, a = tmpl(t)
        return n == "std::vector" and a and (a[0] in SCALARS or a[0] in INTS or a[0] in it.ctx.prog.enums)
    def summands(it, x):
        """the lengths of the arrays that an allocation a + b + .. puts one after the other"""
        while x.get("k") in ("Cast", "Load", "Mat", "Paren") and "e" in x: x = x["e"]
        if x.get("k") == "Bin" and x["op"] == "+": return summands(it, x["a"]) + summands(it, x["b"])
        try: return [it.ctx.inorm(it.rval(x))]
        except Unsupported: return []
    @M.hook("default_ctor")
    def dctor(it, t):
        n, a = tmpl(t)
        if isnumvec(it, t): return Vec(it.ctx, mkbuf(it, a[0], IPoly.const(0), None, "vec"), a[0])
        if n in ("std::vector", "std::stack", "std::queue", "std::list", "std::deque"): return PyVec(it.ctx, t)
        if n in ("std::unique_ptr", "std::shared_ptr"): return NULL
        if n in ("std::function", "std::basic_string", "std::basic_ostringstream", "std::map", "std::mt19937"): return Opaque(n)
        if n == "std::pair":
            o = Obj(it.ctx, t, "pair"); o.f["first"] = Cell(it.ctx, it.zeroinit(a[0]), a[0], "first"); o.f["second"] = Cell(it.ctx, it.zeroinit(a[1]), a[1], "second"); return o
        if n == "std::array":
            if a[0] in SCALARS: return Vec(it.ctx, Buf(it.ctx, IPoly.const(int(a[1])), Fill(None), "arr", a[0]), a[0])
            return PyVec(it.ctx, t, [Cell(it.ctx, it.default(a[0]), a[0], "el") for _ in range(int(a[1]))])
        return None
    @M.hook("ctor")
    def ctor(it, e, t):
        n, a = tmpl(t); ctx = it.ctx
        nodes = e["a"]
        if t in SCALARS:
            v = vals(it, nodes)
            if not v: return ctx.const(0)
            if len(v) == 2 and ctx.mzero(it.toscal(v[1])): return it.toscal(v[0])
            if len(v) == 2: 
                i = ctx.scal("iunit"); return ctx.mnorm(it.toscal(v[0]).add(ctx.smul(i, it.toscal(v[1]))))
            return it.toscal(v[0])
        if n == "std::vector":
            if not nodes: return dctor(it, t)
            v = vals(it, nodes)
            # drop a trailing allocator
            if len(v) > 1 and isinstance(v[-1], Opaque) and v[-1].what == "allocator": v = v[:-1]
            if isnumvec(it, t):
                if isinstance(v[0], PyVec):
                    b = mkbuf(it, a[0], IPoly.const(len(v[0].items)), None, "vec")
                    for i, c in enumerate(v[0].items): ctx.elem_set(b, IPoly.const(i), c.get())
                    return Vec(ctx, b, a[0])
                if isinstance(v[0], BPtr) and len(v) == 2:
                    k = ctx.inorm(v[1].off - v[0].off); b = mkbuf(it, a[0], k, None, "vec"); docopy(it, v[0], k, BPtr(b, 0)); return Vec(ctx, b, a[0])
                if isinstance(v[0], IPoly):
                    ctx.require("vector size >= 0", ctx.zi(v[0]) >= 0)
                    b = mkbuf(it, a[0], ctx.inorm(v[0]), v[1] if len(v) > 1 else None, "vec"); u = summands(it, nodes[0])
                    if isinstance(b, Buf) and len(u) > 1: b.ghost["units"] = u      # a hint: never affects soundness
                    return Vec(ctx, b, a[0])
                raise Unsupported("vector ctor")
            if isinstance(v[0], PyVec): return PyVec(ctx, t, [Cell(ctx, c.get(), a[0], "el") for c in v[0].items])
            if isinstance(v[0], IPoly) and ctx.inorm(v[0]).is_const():
                return PyVec(ctx, t, [Cell(ctx, (v[1] if len(v) > 1 else it.zeroinit(a[0])), a[0], "el") for _ in range(ctx.inorm(v[0]).cval())])
            m = ctx.models._try("vec_ctor", it, t, v)
            if m is not None: return m
            raise Unsupported("vector ctor of %s" % t)
        if n in ("std::unique_ptr", "std::shared_ptr"):
            if not nodes: return NULL
            v = it.rval(nodes[0]); return v
        if n == "std::pair":
            v = [it.lval(x).get() for x in nodes]
            if len(v) == 1: return v[0]
            if not v: return dctor(it, t)
            o = Obj(ctx, t, "pair")
            for k, x, ty in zip(("first", "second"), v, a): o.f[k] = Cell(ctx, x, ty, k)
            return o
        if n in ("std::allocator", "std::default_delete", "std::less"): return Opaque("allocator")
        if n in ("std::basic_string", "std::basic_ostringstream", "std::basic_ofstream", "std::basic_ifstream", "std::chrono::duration", "std::chrono::time_point", "std::mersenne_twister_engine", "std::random_device", "std::uniform_int_distribution", "std::map"):
            for x in nodes: it.rval(x)
            return Opaque(n)
        if n in ("std::plus", "std::minus", "std::multiplies") and not nodes:
            op = {"std::plus": "+", "std::minus": "-", "std::multiplies": "*"}[n]
            return PyFn(lambda it, v: it.sarith(op, it.toscal(v[0].get()), it.toscal(v[1].get())) if isinstance(v[0].get(), MTerm) or isinstance(v[1].get(), MTerm) else it.binop(op, v[0].get(), v[1].get()))
        if n == "std::function":
            v = it.rval(nodes[0]) if nodes else NULL
            return v
        if n == "std::_Bind" and nodes: return it.rval(nodes[0])
        if n in ("std::invalid_argument", "std::runtime_error", "std::logic_error"): return Opaque(n)
        if n == "std::deque":
            if not nodes: return PyVec(ctx, t)
            v = [x for x in vals(it, nodes) if not (isinstance(x, Opaque) and x.what == "allocator")]
            if len(v) == 1 and isinstance(v[0], PyVec): return PyVec(ctx, t, [Cell(ctx, c.get(), a[0], "el") for c in v[0].items])
            raise Unsupported("deque")
        if n in ("std::stack", "std::queue"):
            if not nodes: return PyVec(ctx, t)
            v = it.rval(nodes[0])
            if isinstance(v, PyVec): return PyVec(ctx, t, v.items)
        return None
    @M.hook("copy")
    def copyh(it, t, src, kind):
        v = src.get(); ctx = it.ctx
        if isinstance(v, Vec):
            b = v.buf
            if kind == "move":
                r = Vec(ctx, b, v.et); v.cell.set(mkbuf(it, v.et, IPoly.const(0), None, "moved")); return r
            if isinstance(b, IBuf): nb = IBuf(ctx, b.size, b.arr, b.name); nb.ghost = dict(b.ghost); return Vec(ctx, nb, v.et)
            nb = Buf(ctx, b.size, b.content, b.name, b.et); nb.ghost = dict(b.ghost); return Vec(ctx, nb, v.et)
        if isinstance(v, PyVec):
            r = PyVec(ctx, v.t, v.items if kind == "move" else [c if not isinstance(c, Cell) else Cell(ctx, (copyobj(it, c.get()) if isinstance(c.get(), Obj) else c.get()), c.t if hasattr(c, "t") else "?", "el") for c in v.items])
            if kind == "move": v.cell.set(())
            return r
        n = tmpl(t)[0]
        if n == "std::unique_ptr":
            if kind == "move":
                it.store(src, NULL); return v
        if n in ("std::shared_ptr",) or isinstance(v, (Ptr, BPtr, Closure, FnRef, Opaque, AbsList, SymPtr, PyFn)): return v
        if isinstance(v, (IPoly, MTerm, bool)) or z3.is_expr(v): return v
        if n == "std::pair" and isinstance(v, Obj):
            o = Obj(ctx, v.t, "pair")
            for k, c in v.f.items():
                y = copyh(it, strip(c.t), c, kind); o.f[k] = Cell(ctx, y if y is not None else c.v, c.t, k)
            return o
        if isinstance(v, M_LIter): return v
        return None
    @d("std::vector::operator=")
    def vassign(it, f, this, nodes, e):
        src = it.lval(nodes[0]); mv = "&&" in f["pt"][0]; v = this.get(); ctx = it.ctx
        n = copyh(it, v.t, src, "move" if mv else "copy")
        if isinstance(v, Vec) and isinstance(n, Vec): it.store(v.cell, n.buf)
        elif isinstance(v, PyVec) and isinstance(n, PyVec): v.cell.set(n.items)
        else: it.store(this, n)
        return this
    @d("std::complex::operator=", "std::complex::operator+=", "std::complex::operator*=", "std::complex::operator-=", "std::complex::operator/=", "std::operator+=")
    def cassign(it, f, this, nodes, e):
        x = it.toscal(it.rval(nodes[0])); op = f["n"].replace("operator", "").replace("=", "")
        it.store(this, x if op == "" else it.sarith(op, it.toscal(this.get()), x)); return this
    @d("std::operator*", "std::operator+", "std::operator-", "std::operator/")
    def sops(it, f, this, nodes, e):
        v = [it.lval(x).get() for x in nodes]; op = f["n"].replace("operator", "")
        if any(isinstance(x, Opaque) for x in v): return Opaque("str")
        if isinstance(v[0], M_LIter): return it.ptradd(v[0], v[1])
        if len(v) == 1: return it.toscal(v[0]).scale(SPoly.const(-1)) if op == "-" else v[0]
        return it.sarith(op, it.toscal(v[0]), it.toscal(v[1]))
    @d("std::operator==", "std::operator!=", "std::operator<", "std::operator>")
    def seq(it, f, this, nodes, e):
        v = [it.lval(x).get() for x in nodes]; op = f["n"].replace("operator", "")
        if any(isinstance(x, Opaque) for x in v): return z3.Bool(it.ctx.fresh("streq"))
        if isinstance(v[0], (Ptr, SymPtr, M_LIter)) or isinstance(v[1], (Ptr, SymPtr)): return it.binop(op, v[0], v[1])
        return it.cmp(op, it.toscal(v[0]), it.toscal(v[1]))
    # ---------------- smart pointers
    @d("std::unique_ptr::get", "std::shared_ptr::get", "std::__shared_ptr::get")
    def uget(it, f, this, nodes, e): return this.get()
    @d("std::unique_ptr::operator->", "std::shared_ptr::operator->", "std::__shared_ptr_access::operator->")
    def uarrow(it, f, this, nodes, e): return this.get()
    @d("std::unique_ptr::operator*", "std::shared_ptr::operator*", "std::__shared_ptr_access::operator*")
    def ustar(it, f, this, nodes, e): return it.deref(this.get())
    @d("std::unique_ptr::operator bool", "std::shared_ptr::operator bool", "std::__shared_ptr::operator bool")
    def ubool(it, f, this, nodes, e): return it.tobool(this.get())
    @d("std::unique_ptr::reset", "std::shared_ptr::reset", "std::__shared_ptr::reset")
    def ureset(it, f, this, nodes, e):
        it.store(this, it.rval(nodes[0]) if nodes else NULL); return None
    @d("std::unique_ptr::release")
    def urel(it, f, this, nodes, e):
        v = this.get(); it.store(this, NULL); return v
    @d("std::unique_ptr::operator=", "std::shared_ptr::operator=")
    def uassign(it, f, this, nodes, e):
        src = it.lval(nodes[0]); v = src.get()
        if "&&" in f["pt"][0] and not isinstance(src, Tmp): it.store(src, NULL)
        it.store(this, v); return this
    @d("std::make_unique", "std::make_shared")
    def mkuniq(it, f, this, nodes, e):
        t = strip(f["ta"][0]) if f.get("ta") else None; ctx = it.ctx
        a = lvs(it, nodes)
        return Ptr(Cell(ctx, construct_by_args(it, t, a), t, "heap"))
    def construct_by_args(it, t, a):
        ctx = it.ctx
        cands = [g for g in ctx.prog.funcs if g["unit"] == ctx.unit and g.get("ctor") and strip(g["cls"]) == t and len(g["p"]) >= len(a) and all("def" in p for p in g["p"][len(a):])]
        best = None
        for g in cands:
            ok = all(argmatch(it, p["t"], x) for p, x in zip(g["p"], a))
            if ok: best = g; break
        if best is None:
            if not a:
                m = ctx.models.default_ctor(it, t)
                if m is not None: return m
                if not cands and ctx.prog.records.get(t, {}).get("aggregate"): o = Obj(ctx, t, ctx.fresh("heap")); it.init_fields(o, t, None, True); return o
            if len(a) == 1 and isinstance(a[0].get(), Obj) and a[0].get().t == t and isinstance(a[0], Cell): return it.copyval(a[0], t, False)     # implicit copy constructor
            if len(a) == 1 and isnumvec(it, t) and isinstance(a[0].get(), (int, IPoly)):
                n = ctx.inorm(ip(a[0].get())); ctx.require("vector size >= 0", ctx.zi(n) >= 0); et = tmpl(t)[1][0]; return Vec(ctx, mkbuf(it, et, n, None, "vec"), et)
            raise Unsupported("make_unique<%s>" % t)
        args = [x if is_ref(p["t"]) else Cell(ctx, x.get(), p["t"], p["n"]) for p, x in zip(best["p"], a)]
        for p in best["p"][len(a):]: args.append(it.lval(p["def"]) if is_ref(p["t"]) else Cell(ctx, it.rval(p["def"]), p["t"], p["n"]))
        return it.construct(best, t, args)
    ms.construct_by_args = construct_by_args
    def argmatch(it, pt, x):
        v = x.get(); s = strip(pt)
        if isinstance(v, Obj): return s == v.t or v.t in subclasses(it, s)
        if isinstance(v, (IPoly,)) or isinstance(v, bool) or z3.is_bool(v): return s in INTS or s in it.ctx.prog.enums or s in SCALARS
        if isinstance(v, MTerm): return s in SCALARS
        if isinstance(v, (Ptr, BPtr, SymPtr)): return s.endswith("*") or tmpl(s)[0] in ("std::unique_ptr", "std::shared_ptr")
        if isinstance(v, (Vec, PyVec, AbsList)): return tmpl(s)[0] in ("std::vector",)
        return True
    def subclasses(it, s): return [t for t, r in it.ctx.prog.records.items() if s in [strip(b) for b in r["bases"]]]
    @d("std::pair::operator=")
    def passign(it, f, this, nodes, e):
        v = it.lval(nodes[0]).get(); o = this.get()
        for k in ("first", "second"): it.store(o.f[k], v.f[k].get())
        return this
    @d("std::tie")
    def tie(it, f, this, nodes, e):
        o = Obj(it.ctx, "std::tie", "tie"); o.ghost["tie"] = [it.lval(n) for n in nodes]; return Tmp(o)
    @d("std::tuple::operator=")
    def tieassign(it, f, this, nodes, e):
        v = it.lval(nodes[0]).get(); t = this.get().ghost["tie"]
        if not isinstance(v, Obj) or "first" not in v.f or len(t) != 2: raise Unsupported("std::tie = %r" % (v,))
        for k, l in zip(("first", "second"), t): it.store(l, v.f[k].get())
        return this
    @d("std::make_pair")
    def mkpair(it, f, this, nodes, e):
        v = [x.get() for x in lvs(it, nodes)]; a = tmpl(e["t"])[1]
        o = Obj(it.ctx, strip(e["t"]), "pair")
        for k, x, ty in zip(("first", "second"), v, a): o.f[k] = Cell(it.ctx, x, ty, k)
        return o
    # ---------------- functions objects
    @d("std::function::operator()")
    def fcall(it, f, this, nodes, e):
        fv = this.get()
        if isinstance(fv, Ptr): fv = fv.cell.get()
        if isinstance(fv, Closure): return it.call_closure(fv, nodes)
        if isinstance(fv, PyFn): return fv.f(it, [it.lval(n) for n in nodes])
        if isinstance(fv, FnRef): return it.callf(fv.f, None, nodes, e)
        raise Unsupported("std::function call on %r" % (fv,))
    @d("std::function::operator bool")
    def fbool(it, f, this, nodes, e): 
        fv = this.get(); return not (isinstance(fv, Opaque) or fv is NULL)
    @d("std::function::operator=")
    def fassign(it, f, this, nodes, e): it.store(this, it.rval(nodes[0])); return this
    # ---------------- iterators over lists
    @M.hook("ptradd")
    def ladd(it, p, i):
        if isinstance(p, M_LIter): return M_LIter(p.l, ip(p.i) + ip(it.toint(i)) * p.d, p.d)
    @M.hook("deref")
    def lder(it, p):
        if isinstance(p, M_LIter): return velem(it, p.l, p.i)
    @M.hook("binop")
    def lbin(it, op, a, b):
        if isinstance(a, M_LIter) and isinstance(b, M_LIter):
            if op == "-": return (ip(a.i) - ip(b.i)) * a.d
            if op in ("==", "!=", "<") and a.d == 1 or op in ("==", "!="): return it.binop(op, ip(a.i), ip(b.i))
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if op in ("<", ">", "==", "!=", "<=", ">="): return z3.Bool(it.ctx.fresh("opq"))
            return Opaque("arith")
    @d("__gnu_cxx::__normal_iterator::operator*", "std::reverse_iterator::operator*")
    def ni_star(it, f, this, nodes, e): return it.deref(this.get())
    @d("__gnu_cxx::__normal_iterator::operator->", "std::reverse_iterator::operator->")
    def ni_arrow(it, f, this, nodes, e):
        return this.get()
    @d("__gnu_cxx::__normal_iterator::operator++", "__gnu_cxx::__normal_iterator::operator--", "std::reverse_iterator::operator++", "std::reverse_iterator::operator--")
    def ni_inc(it, f, this, nodes, e):
        old = this.get(); it.store(this, it.ptradd(old, IPoly.const(1 if "++" in f["n"] else -1))); return old if nodes else this
    @d("__gnu_cxx::__normal_iterator::operator+", "__gnu_cxx::__normal_iterator::operator-")
    def ni_add(it, f, this, nodes, e):
        i = it.rval(nodes[0]); a = this.get()
        if isinstance(i, (BPtr, M_LIter)): return it.binop("-", a, i)
        return it.ptradd(a, i if f["n"][-1] == "+" else -ip(it.toint(i)))
    @d("__gnu_cxx::__normal_iterator::operator+=", "__gnu_cxx::__normal_iterator::operator-=")
    def ni_pe(it, f, this, nodes, e):
        i = it.rval(nodes[0]); it.store(this, it.ptradd(this.get(), i if "+" in f["n"] else -ip(it.toint(i)))); return this
    @d("__gnu_cxx::__normal_iterator::operator=")
    def ni_set(it, f, this, nodes, e): it.store(this, it.lval(nodes[0]).get()); return this
    @d("__gnu_cxx::__normal_iterator::operator[]")
    def ni_idx(it, f, this, nodes, e): return it.deref(it.ptradd(this.get(), it.rval(nodes[0])))
    @d("__gnu_cxx::operator!=", "__gnu_cxx::operator==", "__gnu_cxx::operator-", "__gnu_cxx::operator<")
    def ni_cmp(it, f, this, nodes, e):
        a, b = [it.lval(n).get() for n in nodes]; return it.binop(f["n"].replace("operator", ""), a, b)
    # ---------------- strings, logging, chrono: opaque, no effect on the verified state
    def opaque(it, f, this, nodes, e):
        for n in nodes:
            try: it.rval(n)
            except Unsupported: pass
        t = strip(e.get("t", "void"))
        if t == "void": return None
        if t in INTS and t != "bool": return IPoly.atom(it.ctx.fresh("opq"))
        if t == "bool": return z3.Bool(it.ctx.fresh("opq"))
        if t in SCALARS: return it.ctx.scal(it.ctx.fresh("opq"))
        return this if this is not None and e.get("lv") else Opaque(t)
    ms.opaque = opaque
    OP = ("std::basic_string", "std::chrono", "std::basic_ostream", "std::basic_ostringstream", "std::basic_ofstream", "std::basic_ifstream", "std::operator<<", "std::to_string", "std::__cxx11", "std::basic_ios", "std::endl", "std::setw", "std::map", "std::ios_base", "std::setprecision", "std::getline", "std::flush")
    ms.extra.append(lambda name, f: opaque if name.startswith(OP) else None)
    @d("htool::Logger::log", "htool::Logger::get_instance")
    def logger(it, f, this, nodes, e): return Tmp(Opaque("logger"))
    @M.hook("global_var")
    def gvar(it, e): 
        if e.get("qn", "").startswith("std::"): return Tmp(Opaque("global"))
        if e["n"] in ("ompi_mpi_comm_world", "ompi_mpi_comm_self"): return Tmp(Opaque(e["n"]))
    ms.overrides = lambda name, f: name in ("htool::Logger::log", "htool::Logger::get_instance")
    @d("omp_get_thread_num", "omp_get_num_threads", "omp_get_max_threads")
    def ompn(it, f, this, nodes, e):
        a = IPoly.atom(it.ctx.fresh("omp")); it.ctx.assume(a.z() >= (0 if "thread_num" in f["n"] else 1)); return a

class M_LIter:
    """iterator over a list; d = -1: a reverse iterator"""
    def __init__(s, l, i, d=1): s.l = l; s.i = ip(i); s.d = d
    def make(s, i): return M_LIter(s.l, i, s.d)
LIter = M_LIter
class PyFn:
    def __init__(s, f): s.f = f
M.push_num = lambda it, v, x: False
