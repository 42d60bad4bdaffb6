"""Contracts of the matrix container htool::Matrix (include/htool/matrix/matrix.hpp)."""
import z3
from ..terms import *
from ..engine import *
from .. import models as M
from ..contract import Contract, Spec, same
from ..loops import sum_term
from .dense import mk_matrix, mk_scal, mk_int, mk_ptr, rows, cols, num, H, simple as dsimple
C = []
MT = H + "Matrix::"
def contract(name, mk, **kw):
    def d(fn): C.append(Contract(name, mk, fn, inline_at_calls=True, **kw)); return fn
    return d
def mk_any(it, name, null=True):
    """any reachable state of a matrix: owning its storage or not, or without storage"""
    ctx = it.ctx; m = mk_matrix(it, name)
    if null and ctx.branch(z3.Bool(name + ".has_no_storage")):
        o = m.get(); o.f["m_number_of_rows"].v = ip(0); o.f["m_number_of_cols"].v = ip(0); o.f["m_data"].v = NULL
    m.get().f["m_is_owning_data"].v = bool(ctx.branch(z3.Bool(name + ".owning")))
    b = buf(m)
    if b is not None: b.ghost["may_free"] = True
    return m
def buf(m): p = m.get().field("m_data").get(); return p.buf if isinstance(p, BPtr) else None
class State:
    def __init__(s, m): s.r, s.c = rows(m), cols(m); s.own = m.get().field("m_is_owning_data").get(); s.buf = buf(m); s.val = s.buf.content if s.buf else None; s.piv = m.get().field("m_pivots").get().buf; s.parr = s.piv.arr; s.pn = s.piv.size
def arg(it, p):
    t = strip(p["t"]); nm = p["n"] or "arg"; ctx = it.ctx
    if t.startswith("htool::Matrix<"): return mk_any(it, nm)
    if t.startswith("std::vector<") and tmpl(t)[1][0] in SCALARS: n = ctx.fint(nm + ".size", 0); return Cell(ctx, Vec(ctx, Buf(ctx, n, ctx.gen(nm, n, 1), nm, num(ctx)), num(ctx)), t, nm)
    if t == "bool": return Cell(ctx, bool(ctx.branch(z3.Bool(nm))), "bool", nm)
    return dsimple(it, {"p": [p]})[1][0]
def member(it, f): return mk_any(it, "this"), [arg(it, p) for p in f["p"]]
def free(it, f): return None, [arg(it, p) for p in f["p"]]
def loose(s, m):
    """every field of m is fixed by a postcondition, not by the frame"""
    o = m.get()
    for c in o.f.values(): s.dontcare.add(id(c))
    b = buf(m)
    if b is not None: s.dontcare.add(id(b))
    pv = o.field("m_pivots").get(); s.dontcare.update((id(pv), id(pv.cell), id(pv.buf)))
def is_matrix(it, x, r, c, val, own=True, notbuf=(), inbuf=None):
    """x is an r x c matrix with contents val (a term, a Fill, or None for unspecified)"""
    ctx = it.ctx; o = x.get() if hasattr(x, "get") else x
    if isinstance(o, Ptr): o = o.cell.get()
    if not (ctx.ieq(o.f["m_number_of_rows"].get(), r) and ctx.ieq(o.f["m_number_of_cols"].get(), c)): return False, "%r x %r instead of %r x %r" % (o.f["m_number_of_rows"].get(), o.f["m_number_of_cols"].get(), r, c)
    if own is not None and o.f["m_is_owning_data"].get() is not own: return False, "ownership flag is %r" % (o.f["m_is_owning_data"].get(),)
    p = o.f["m_data"].get(); r, c = ctx.inorm(r), ctx.inorm(c)
    if isinstance(p, Ptr): return (ctx.empty(r, c), "null storage")
    if not isinstance(p, BPtr): return False, "storage %r" % (p,)
    if p.buf.freed: return False, "storage has been deleted"
    if any(p.buf is b for b in notbuf): return False, "shares storage with another matrix"
    if inbuf is not None and p.buf is not inbuf: return False, "storage is not the expected one"
    if not ctx.ieq(p.off, 0) or not ctx.ieq(p.buf.size, ctx.inorm(ip(r) * ip(c))): return False, "storage of %r entries for %r x %r" % (ctx.inorm(p.buf.size), r, c)
    if val is None: return True, ""
    if isinstance(val, Fill):
        x = p.buf.content
        if not isinstance(x, Fill):
            want = ctx.fillterm(p.buf, val.v, r, c); ok, d = ctx.meq(x, want) if ctx.ieq(x.r, want.r) else (False, "shape"); return ok or ctx.empty(r, c), "entries differ: %r" % (d,)
        return same(it, x.v, val.v, "entries") if x.v is not None else (ctx.empty(r, c), "uninitialised entries")
    if ctx.empty(r, c): return True, ""
    got = ctx.view(BPtr(p.buf, 0), r, c, r) if not isinstance(p.buf.content, Fill) or p.buf.content.v is not None else None
    if got is None: return False, "uninitialised entries"
    ok, d = ctx.meq(got, val); return ok, "entries - expected = %r" % (d,)
def same_piv(it, x, st):
    o = x.get() if hasattr(x, "get") else x; b = o.f["m_pivots"].get().buf
    if not it.ctx.ieq(b.size, st.pn): return False, "number of pivots"
    from ..contract import same_arr
    return same_arr(it, b.arr, st.parr, b.size, "pivots")
def freed_iff(it, b, cond):
    if b is None: return True, ""
    return (b.freed == cond, "previous storage %s" % ("is leaked" if cond else "of another owner is deleted")) if not it.ctx.ieq(b.size, 0) else (True, "")
def posts(s, *ps):
    for l, fn in ps: s.postchecks.append((l, fn))
isM = lambda f, i: len(f["p"]) > i and "htool::Matrix<" in f["p"][i]["t"]
# ---- constructors
@contract(MT + "Matrix", free, pred=lambda f: f.get("ctor") and len(f["p"]) == 0, title=MT + "Matrix()")
def _(s, f, this, a): posts(s, ("empty matrix", lambda it, o: is_matrix(it, o, ip(0), ip(0), None, True)))
@contract(MT + "Matrix", free, pred=lambda f: f.get("ctor") and len(f["p"]) == 3, title=MT + "Matrix(rows, cols, value)")
def _(s, f, this, a):
    r, c, v = [x.get() for x in a]
    posts(s, ("rows x cols entries equal to value", lambda it, o: is_matrix(it, o, r, c, Fill(v), True)), ("no pivots", lambda it, o: (it.ctx.ieq(o.f["m_pivots"].get().buf.size, 0), "pivots")))
@contract(MT + "Matrix", free, pred=lambda f: f.get("ctor") and isM(f, 0) and "&&" not in f["p"][0]["t"], title=MT + "Matrix(const Matrix&)")
def _(s, f, this, a):
    st = State(a[0]); posts(s, ("deep copy", lambda it, o: is_matrix(it, o, st.r, st.c, st.val, True, [st.buf])), ("pivots copied", lambda it, o: same_piv(it, o, st)))
@contract(MT + "Matrix", free, pred=lambda f: f.get("ctor") and isM(f, 0) and "&&" in f["p"][0]["t"], title=MT + "Matrix(Matrix&&)")
def _(s, f, this, a):
    st = State(a[0]); loose(s, a[0])
    posts(s, ("storage taken over", lambda it, o: is_matrix(it, o, st.r, st.c, st.val, st.own, (), st.buf)), ("pivots kept", lambda it, o: same_piv(it, o, st)), ("moved-from matrix is empty", lambda it, o: is_matrix(it, a[0], ip(0), ip(0), None, None, [st.buf])))
# ---- assignment
def mk_assign(it, f):
    ctx = it.ctx; t = mk_any(it, "this")
    return t, [t if ctx.branch(z3.Bool("self_assignment")) else mk_any(it, "rhs")]
@contract(MT + "operator=", mk_assign, pred=lambda f: isM(f, 0) and "&&" not in f["p"][0]["t"], title=MT + "operator=(const Matrix&)")
def _(s, f, this, a):
    st = State(a[0])
    if a[0] is this: return
    old = State(this); loose(s, this); ctx = s.ctx; n = st.r * st.c
    if ctx.branch(ctx.zi(n) == ctx.zi(old.r * old.c)):
        posts(s, ("copied into the existing storage", lambda it, o: is_matrix(it, this, st.r, st.c, st.val, old.own, [st.buf], old.buf)))
    else: posts(s, ("deep copy", lambda it, o: is_matrix(it, this, st.r, st.c, st.val, True, [st.buf, old.buf])), ("previous storage", lambda it, o: freed_iff(it, old.buf, old.own)))
    posts(s, ("pivots copied", lambda it, o: same_piv(it, this, st)), ("right-hand side keeps its storage", lambda it, o: (st.buf is None or not st.buf.freed, "storage of the right-hand side is deleted")))
@contract(MT + "operator=", mk_assign, pred=lambda f: isM(f, 0) and "&&" in f["p"][0]["t"], title=MT + "operator=(Matrix&&)")
def _(s, f, this, a):
    st = State(a[0])
    if a[0] is this: return
    old = State(this); loose(s, this); loose(s, a[0])
    posts(s, ("storage taken over", lambda it, o: is_matrix(it, this, st.r, st.c, st.val, st.own, (), st.buf)), ("pivots kept", lambda it, o: same_piv(it, this, st)), ("moved-from matrix is empty", lambda it, o: is_matrix(it, a[0], ip(0), ip(0), None, None, [st.buf])),
          ("previous storage", lambda it, o: freed_iff(it, old.buf, old.own)))
@contract(MT + "operator=", member, pred=lambda f: not isM(f, 0), title=MT + "operator=(scalar)")
def _(s, f, this, a):
    st = State(this); v = a[0].get()
    if st.buf is not None: s.dontcare.add(id(st.buf)); posts(s, ("all entries equal the scalar", lambda it, o: is_matrix(it, this, st.r, st.c, Fill(v), st.own, (), st.buf)))
@contract(MT + "~Matrix", member)
def _(s, f, this, a): st = State(this); loose(s, this); posts(s, ("owned storage deleted, other storage kept", lambda it, o: freed_iff(it, st.buf, st.own)))
# ---- storage
@contract(MT + "release", member)
def _(s, f, this, a):
    st = State(this); s.dontcare.add(id(this.get().f["m_data"]))
    posts(s, ("returns the storage and gives it up", lambda it, o: ((st.buf is None and isinstance(o, Ptr)) or (isinstance(o, BPtr) and o.buf is st.buf and not st.buf.freed and buf(this) is None), "storage")))
@contract(MT + "assign", member)
def _(s, f, this, a):
    r, c, p, own = [x.get() for x in a]; s.ctx.assume_eq(p.buf.size, r * c) if s.mode == "verify" else None; st = State(this); loose(s, this)
    s.req("the storage replaced is not empty when owned (a zero-size allocation is not released)", True)
    posts(s, ("takes the given storage", lambda it, o: is_matrix(it, this, r, c, None, own, (), p.buf)), ("previous storage", lambda it, o: freed_iff(it, st.buf, st.own)))
@contract(MT + "set_size", member)
def _(s, f, this, a): this.get().f["m_number_of_rows"].set(a[0].get()); this.get().f["m_number_of_cols"].set(a[1].get())
@contract(MT + "resize", member)
def _(s, f, this, a):
    r, c, v = [x.get() for x in a]; st = State(this); ctx = s.ctx; pv = this.get().f["m_pivots"]; fields = [x for n, x in this.get().f.items() if n != "m_pivots"]
    for x in fields: s.dontcare.add(id(x))
    if st.buf is not None: s.dontcare.add(id(st.buf))
    if ctx.branch(ctx.zi(r * c) == ctx.zi(st.r * st.c)): posts(s, ("same storage, new shape, every entry equal to value", lambda it, o: is_matrix(it, this, r, c, Fill(v), st.own, (), st.buf)), ("previous storage", lambda it, o: freed_iff(it, st.buf, False)))
    else: posts(s, ("new storage of the new shape, every entry equal to value", lambda it, o: is_matrix(it, this, r, c, Fill(v), True, [st.buf])), ("previous storage", lambda it, o: freed_iff(it, st.buf, st.own)))
# ---- elements
def mk_elem(it, f):
    t = mk_any(it, "this", False); return t, [arg(it, p) for p in f["p"]]
@contract(MT + "operator()", mk_elem)
def _(s, f, this, a):
    j, k = a[0].get(), a[1].get(); st = State(this); ctx = s.ctx
    s.req("row in range", z3.And(ctx.zi(j) >= 0, ctx.zi(j) < ctx.zi(st.r))); s.req("column in range", z3.And(ctx.zi(k) >= 0, ctx.zi(k) < ctx.zi(st.c)))
    want = ctx.mnorm(MTerm.of(ctx.sel(st.r, j, 1), "T").mul(st.val).mul(MTerm.of(ctx.sel(st.c, k, 1))))
    def post(it, ret):
        if not isinstance(ret, ElemRef) or ret.buf is not st.buf: return False, "not a reference into the storage"
        d = ctx.decode(st.val, ret.off, 1, 1, st.r)
        if d is None: return False, "offset %r" % (ret.off,)
        return ctx.ieq(d[0], j) and ctx.ieq(d[1], k), "refers to entry (%r,%r)" % (d[0], d[1])
    posts(s, ("refers to entry (j,k)", post))
def isvec(it, v, want):
    v = v.get() if hasattr(v, "get") else v
    if not isinstance(v, Vec): return False, "result %r" % (v,)
    if not it.ctx.ieq(v.buf.size, want.r): return False, "%r entries instead of %r" % (v.buf.size, want.r)
    if it.ctx.empty(want.r, want.c): return True, ""
    x = it.ctx.view(BPtr(v.buf, 0), want.r, 1, want.r); ok, d = it.ctx.meq(x, want); return ok, "entries - expected = %r" % (d,)
@contract(MT + "get_row", mk_elem)
def _(s, f, this, a):
    j = a[0].get(); st = State(this); ctx = s.ctx; s.req("row in range", z3.And(ctx.zi(j) >= 0, ctx.zi(j) < ctx.zi(st.r)))
    w = ctx.mnorm(MTerm.of(ctx.sel(st.r, j, 1), "T").mul(st.val).op("T", ctx.realscal)); posts(s, ("the row", lambda it, o: isvec(it, o, w)))
@contract(MT + "get_col", mk_elem)
def _(s, f, this, a):
    j = a[0].get(); st = State(this); ctx = s.ctx; s.req("column in range", z3.And(ctx.zi(j) >= 0, ctx.zi(j) < ctx.zi(st.c)))
    w = ctx.mnorm(st.val.mul(MTerm.of(ctx.sel(st.c, j, 1)))); posts(s, ("the column", lambda it, o: isvec(it, o, w)))
@contract(MT + "set_row", mk_elem)
def _(s, f, this, a):
    j = a[0].get(); st = State(this); ctx = s.ctx; s.req("row in range", z3.And(ctx.zi(j) >= 0, ctx.zi(j) < ctx.zi(st.r))); s.req_eq("one value per column", a[1].get().buf.size, st.c)
    E = MTerm.of(ctx.sel(st.r, j, 1)); v = ctx.view(BPtr(a[1].get().buf, 0), st.c, 1, st.c)
    st.buf.setc(ctx.mnorm(st.val.add(E.mul(v.op("T", ctx.realscal).add(E.op("T").mul(st.val), -1)))))
@contract(MT + "set_col", mk_elem)
def _(s, f, this, a):
    j = a[0].get(); st = State(this); ctx = s.ctx; s.req("column in range", z3.And(ctx.zi(j) >= 0, ctx.zi(j) < ctx.zi(st.c))); s.req_eq("one value per row", a[1].get().buf.size, st.r)
    E = MTerm.of(ctx.sel(st.c, j, 1)); v = ctx.view(BPtr(a[1].get().buf, 0), st.r, 1, st.r)
    st.buf.setc(ctx.mnorm(st.val.add(v.add(st.val.mul(E), -1).mul(E.op("T")))))
# ---- arithmetic
def mk_bin(it, f): return mk_any(it, "this", False), [mk_any(it, "rhs", False) if "htool::Matrix<" in p["t"] else arg(it, p) for p in f["p"]]
def addsub(nm, k):
    @contract(MT + nm, mk_bin)
    def _(s, f, this, a):
        st, o = State(this), State(a[0]); s.req_eq("rows", st.r, o.r); s.req_eq("columns", st.c, o.c); w = st.val.add(o.val, k)
        posts(s, ("entrywise", lambda it, x: is_matrix(it, x, st.r, st.c, w, True, [st.buf, o.buf])))
addsub("operator+", 1); addsub("operator-", -1)
@contract(MT + "operator*", mk_bin, pred=lambda f: isM(f, 0), title=MT + "operator*(Matrix)")
def _(s, f, this, a):
    st, o = State(this), State(a[0]); s.req_eq("inner dimensions", st.c, o.r); w = st.val.mul(o.val); posts(s, ("matrix product", lambda it, x: is_matrix(it, x, st.r, o.c, w, True, [st.buf, o.buf])))
@contract(MT + "operator*", mk_bin, pred=lambda f: not isM(f, 0), title=MT + "operator*(vector)")
def _(s, f, this, a):
    st = State(this); v = a[0].get().buf; s.req_eq("inner dimensions", st.c, v.size); w = st.val.mul(v.content); posts(s, ("matrix vector product", lambda it, x: isvec(it, x, w)))
def mk_fr(it, f): return None, [mk_any(it, p["n"] or "arg", False) if "htool::Matrix<" in p["t"] else arg(it, p) for p in f["p"]]
@contract(H + "operator*", mk_fr, pred=lambda f: len(f["p"]) == 2 and any("htool::Matrix<" in p["t"] for p in f["p"]))
def _(s, f, this, a):
    i = 0 if isM(f, 0) else 1; st = State(a[i]); al = s.scalar(a[1 - i]); w = st.val.scale(al); posts(s, ("scaled copy", lambda it, x: is_matrix(it, x, st.r, st.c, w, True, [st.buf])))
