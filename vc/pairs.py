"""std::vector<std::pair<int,int>> of symbolic length: two integer arrays"""
import z3
from .terms import *
from .engine import *
from . import models as M
class PairVec:
    def __init__(s, ctx, t, a, b): s.ctx = ctx; s.t = t; s.a = a; s.b = b; s.et = tmpl(t)[1][0]
    def size(s): return s.ctx.inorm(s.a.buf.size)
    def at(s, i):
        o = Obj(s.ctx, s.et, "pair"); o.f["first"] = ElemRef(s.ctx, s.a.buf, i); o.f["second"] = ElemRef(s.ctx, s.b.buf, i); return Tmp(o, s.et)
def fresh_pairs(ctx, t, n, name):
    mk = lambda q: Vec(ctx, IBuf(ctx, n, z3.Array(ctx.fresh(name + q), z3.IntSort(), z3.IntSort()), name + q), "int")
    return PairVec(ctx, t, mk(".first"), mk(".second"))
def empty_pairs(it, t): return PairVec(it.ctx, t, Vec(it.ctx, it.ctx.models.mkbuf(it, "int", IPoly.const(0), None, "first"), "int"), Vec(it.ctx, it.ctx.models.mkbuf(it, "int", IPoly.const(0), None, "second"), "int"))
def ispv(t):
    n, a = tmpl(strip(t)); return n == "std::vector" and a and tmpl(a[0])[0] == "std::pair" and all(x in INTS for x in tmpl(a[0])[1])
def register(ms):
    fn = ms.fn
    def over(names, g):
        for n in names:
            old = fn.get(n)
            def w(it, f, this, nodes, e, old=old):
                v = this.get() if this is not None else None
                if isinstance(v, PairVec): return g(it, f, this, nodes, e, v)
                if old is None: raise Unsupported("call of " + n)
                return old(it, f, this, nodes, e)
            fn[n] = w
    over(["std::vector::size"], lambda it, f, this, nodes, e, v: v.size())
    def empty(it, f, this, nodes, e, v):
        n = v.size(); return n.cval() == 0 if n.is_const() else n.z() == 0
    over(["std::vector::empty"], empty)
    def idx(it, f, this, nodes, e, v):
        i = it.ctx.inorm(it.toint(it.rval(nodes[0]))); it.ctx.require("index %r within the vector" % i, z3.And(i.z() >= 0, i.z() < it.ctx.zi(v.size()))); return v.at(i)
    over(["std::vector::operator[]", "std::vector::at"], idx)
    def ends(it, f, this, nodes, e, v):
        it.ctx.require("vector not empty", it.ctx.zi(v.size()) > 0); return v.at(IPoly.const(0) if f["n"] == "front" else v.size() - 1)
    over(["std::vector::front", "std::vector::back"], ends)
    def both(name):
        def g(it, f, this, nodes, e, v):
            old = fn[name + "#int"]; 
            for x in (v.a, v.b): old(it, f, Tmp(x), nodes, e)
            return None
        fn[name + "#int"] = fn[name]; over([name], g)
    both("std::vector::clear")
    def resize(it, f, this, nodes, e, v):
        if len(nodes) != 1: raise Unsupported("resize of a vector of pairs")
        n = it.ctx.inorm(it.rval(nodes[0])); it.ctx.require("size not negative", n.z() >= 0)
        for x in (v.a, v.b):
            o = x.buf; i = z3.Int("i!prs"); nb = IBuf(it.ctx, n, z3.Lambda([i], z3.If(i < it.ctx.zi(o.size), z3.Select(o.arr, i), 0)), o.name); it.store(x.cell, nb)
        return None
    over(["std::vector::resize"], resize)
    def push(it, f, this, nodes, e, v):
        if len(nodes) == 1:
            p = it.rval(nodes[0])
            if not isinstance(p, Obj) or "first" not in p.f: raise Unsupported("push_back of %r" % (p,))
            xs = [p.f["first"].get(), p.f["second"].get()]
        else: xs = [it.rval(x) for x in nodes]
        for x, val in zip((v.a, v.b), xs):
            b = x.buf; nb = IBuf(it.ctx, it.ctx.inorm(b.size) + 1, z3.Store(b.arr, it.ctx.zi(b.size), it.ctx.zi(val)), b.name); nb.ghost["append"] = (b, it.toint(val)); x.cell.set(nb)
        return None
    over(["std::vector::push_back", "std::vector::emplace_back"], push)
class ROCell(Cell):
    """element of a collection that the verifier only reads"""
    __slots__ = ()
    def set(s, v): raise Unsupported("element of a collection of collections modified")
@M.hook("vec_ctor")
def vec_ctor(it, t, v):
    et = tmpl(t)[1][0]; ctx = it.ctx
    if len(v) == 1 and isinstance(v[0], IPoly):
        n = ctx.inorm(v[0]); ctx.require("vector size >= 0", n.z() >= 0)
        if ispv(t): 
            z = lambda q: Vec(ctx, ctx.models.mkbuf(it, "int", n, None, q), "int")
            return PairVec(ctx, t, z("first"), z("second"))
        if tmpl(et)[0] == "std::vector": return AbsList(ctx, t, ctx.fresh("vecs"), n, lambda k: ROCell(ctx, it.zeroinit(et), et, "inner"))
    return None
