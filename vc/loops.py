"""Loops.  A loop is cut by an invariant that the verifier infers and then checks inductively: every
modified location gets a closed form at iteration k (arithmetic progression for integers, initial value
plus a finite sum of increments for numeric arrays); the body is then executed once for an arbitrary
iteration k, on all paths, and must preserve the closed form.  Nothing is unrolled unless the loop
condition is decided by constants."""
import re, z3
from .terms import *
from .engine import *
from . import models as M

class Snap:
    def __init__(s, it):
        c = it.ctx; s.it = it
        s.jp = len(c.journal); s.na = len(c.assumed); s.isub = dict(c.isub); s.ssub = dict(c.ssub); s.nf = len(c.folds); s.nt = len(c.trace)
        s.nz = set(c.nonzero); s.named = dict(c._named); s.adef = dict(c.adef); s.fr = it.fr; s.env = dict(it.fr.env); s.depth = c.depth; s.cs = list(c.callstack)
        s.where = c.where; s.nr = len(c.sumrules); s.no = len(c.obls); s.statics = dict(c.statics); s.crit = c.crit; s.par = c.par; s.nw = len(c.wordrules)
        c.push()
    def rollback(s, drop_obls=False):
        it = s.it; c = it.ctx
        while len(c.journal) > s.jp:
            o, v = c.journal.pop(); o.restore(v)
        del c.assumed[s.na:]; c.isub = s.isub; c.ssub = s.ssub; del c.folds[s.nf:]; del c.trace[s.nt:]; c.nonzero = s.nz; c._named = s.named; c.adef = s.adef
        it.fr = s.fr; it.fr.env = s.env; c.depth = s.depth; c.callstack[:] = s.cs; c.where = s.where; del c.sumrules[s.nr:]; del c.wordrules[s.nw:]; c.statics = s.statics; c.crit = s.crit; c.par = s.par
        if drop_obls: del c.obls[s.no:]
        c.pop()

def explore(it, fn, drop_obls=False):
    """run fn on every path from the current state; the state is restored after each"""
    c = it.ctx; saved = (c.decisions, c.dpos, c.newbranches); work = [[]]; outs = []; n = 0; c.nested = getattr(c, "nested", 0) + 1
    try:
        while work:
            n += 1
            if n > 400: raise Budget("too many paths in a loop body")
            c.decisions = work.pop(); c.dpos = 0; c.newbranches = []
            sn = Snap(it); o = None
            try: o = fn()
            except (PathEnd, ThrowEx): o = None
            finally: sn.rollback(drop_obls)
            work += c.newbranches
            if o is not None: outs.append(o)
    finally: c.decisions, c.dpos, c.newbranches = saved; c.nested -= 1
    return outs

# ------------------------------------------------------------------ substitution by renaming an index
def ren_name(nm, a, b): return nm.replace(a, b) if isinstance(nm, str) else nm
def ren_ip(p, a, b):
    if not any(a in x for m in p.t for x in m): return p
    r = IPoly({})
    for m, c in p.t.items():
        q = IPoly.const(c)
        for x in m: q = q * (b if x == a and isinstance(b, IPoly) else IPoly.atom(ren_name(x, a, repr(b) if isinstance(b, IPoly) else b)))
        r = r + q
    return r
def ren_atom(at, a, b):
    n = Atom(at.kind, ren_name(at.name, a, repr(b)), ren_ip(at.rows, a, b), ren_ip(at.cols, a, b), at.real, at.sym, at.herm, None if at.off is None else ren_ip(at.off, a, b), at.base, at.tag)
    if isinstance(at.base, tuple): n.base = tuple(ren_name(x, a, repr(b)) if isinstance(x, str) else x for x in at.base)
    if isinstance(at.tag, tuple) and at.tag[0] == "lr": n.tag = ("lr", ren_ip(at.tag[1], a, b))
    return n
def ren_sp(sp, a, b, realscal):
    if not any(a in n for m in sp.t for n, _ in m): return sp
    def f(n, cj):
        if n == "i:" + a:
            r = SPoly({})
            for m, c in b.t.items():
                p = SPoly.const(c)
                for x in m: realscal.add("i:" + x); p = p * SPoly.atom("i:" + x)
                r = r + p
            return r
        nn = ren_name(n, a, repr(b))
        if n in realscal: realscal.add(nn)
        return SPoly.atom(nn, cj)
    return sp.map_atoms(f)
def ren_term(m, a, b, realscal):
    """replace integer atom named a by the polynomial b everywhere in a matrix term"""
    b = ip(b); r = {}
    for w, c in m.t.items():
        ww = tuple((ren_atom(x, a, b), o) for x, o in w); cc = ren_sp(c, a, b, realscal)
        r[ww] = r[ww] + cc if ww in r else cc
    return MTerm(ren_ip(m.r, a, b), ren_ip(m.c, a, b), r)
def mentions_atom(at, k): return k in repr(at.name) or any(k in x for p in (at.rows, at.cols) + ((at.off,) if at.off is not None else ()) for m in p.t for x in m)
def mentions_sp(sp, k): return any(k in n for m in sp.t for n, _ in m)
def mentions_ip(p, k): return any(k in x for m in p.t for x in m)
def mentions(m, k): return mentions_ip(m.r, k) or mentions_ip(m.c, k) or any(mentions_sp(c, k) or any(mentions_atom(f[0], k) for f in w) for w, c in m.t.items())
def subst_atoms(m, mp):
    """replace atoms (by key) by matrix terms"""
    if not mp: return m
    out = MTerm(m.r, m.c, {})
    for w, c in m.t.items():
        t = MTerm(m.r, m.r, {(): c})
        for at, o in w:
            d = mp.get(at.key())
            t = t.mul(d.op(o) if d is not None else MTerm(1, 1, {((at, o),): SPoly.const(1)}))
        out = out.add(MTerm(m.r, m.c, t.t))
    return out
def has_atom(m, key): return any(f[0].key() == key for w in m.t for f in w)

# ------------------------------------------------------------------ finite sums
def sum_term(ctx, m, k, K):
    """sum_{0<=k<K} m(k) in normal form"""
    m = ctx.mnorm(m); out = MTerm(m.r, m.c, {})
    for w, c in m.t.items():
        for mono, cf in c.t.items():
            out = out.add(sum_word(ctx, m.r, m.c, w, SPoly({mono: cf}), k, K))
    return ctx.mnorm(out)
def int_sp(ctx, p):
    r = SPoly({})
    for m, c in ctx.inorm(p).t.items():
        q = SPoly.const(c)
        for x in m: ctx.realscal.add("i:" + x); q = q * SPoly.atom("i:" + x)
        r = r + q
    return r
def one(w, c=None): return MTerm(1, 1, {tuple(w): c or SPoly.const(1)})
def flat_sum(ctx, w, dep, k, K):
    """sum over the entries of an R x C matrix numbered by columns: over the rows, then over the columns"""
    R = C = None; i, j = "k[r%d]" % next_id(ctx), "k[c%d]" % next_id(ctx); new = list(w)
    for x in dep:
        a = w[x][0]
        if a.kind != "sel" or a.off is None: return None
        o = repr(a.off)
        if o.startswith("mod<%s," % k):
            if R is not None and not ctx.ieq(R, a.rows): return None
            R = a.rows; new[x] = (ctx.sel(R, IPoly.atom(i), 1), w[x][1])
        elif o.startswith("div<%s," % k):
            if C is not None and not ctx.ieq(C, a.rows): return None
            C = a.rows; new[x] = (ctx.sel(C, IPoly.atom(j), 1), w[x][1])
        else: return None
    if R is None or C is None or not ctx.ieq(R * C, K) or any(not (repr(w[x][0].off).endswith(",%r>" % R)) for x in dep): return None
    u = tuple(new[dep[0]:dep[-1] + 1])
    t = MTerm(frows(u[0]), fcols(u[-1]), {u: SPoly.const(1)})
    for v, n in ((i, R), (j, C)):
        ctx.assume(z3.And(z3.Int(v) >= 0, z3.Int(v) < n.z())); t = sum_term(ctx, t, v, n)
    return None if mentions(t, i) or mentions(t, j) else t
def sum_word(ctx, r, cc, w, c, k, K):
    dep = [i for i, f in enumerate(w) if mentions_atom(f[0], k)]
    if not dep and not mentions_sp(c, k): return MTerm(r, cc, {w: c * int_sp(ctx, K)})
    if not mentions_sp(c, k) and dep:
        a, b = dep[0], dep[-1]
        if b == a + 1:
            f, g = w[a], w[b]
            res = sum_proj(ctx, f, g, k, K)
            if res is not None: return MTerm(r, cc, one(w[:a]).mul(res).mul(one(w[b + 1:], c)).t)
        for rule in ctx.sumrules:
            res = rule(ctx, w, dep, k, K)
            if res is not None:
                (i, j), rep = res
                if mentions_sp(c, k) or any(x < i or x >= j for x in dep): continue
                return MTerm(r, cc, one(w[:i]).mul(rep).mul(one(w[j:], c)).t)
        # the transpose of a scalar factor may bring the two slices together
        one_ = IPoly.const(1)
        for i in range(len(w)):
            if not ctx.ieq(frows(w[i]), 1): continue
            for j in range(i + 2, len(w) + 1):
                if j - i == len(w) or not ctx.ieq(fcols(w[j - 1]), 1) or not any(i <= x < j for x in dep): continue
                u = w[:i] + tuple(ctx.norm_f(fop(f, "T")) for f in reversed(w[i:j])) + w[j:]
                d = [x for x, f in enumerate(u) if mentions_atom(f[0], k)]
                if len(d) == 2 and d[1] == d[0] + 1:
                    res = sum_proj(ctx, u[d[0]], u[d[1]], k, K)
                    if res is not None: return MTerm(r, cc, one(u[:d[0]]).mul(res).mul(one(u[d[1] + 1:], c)).t)
        # scalars commute
        if ctx.ieq(frows(w[0]), 1) and ctx.ieq(fcols(w[-1]), 1) and len(dep) == 2:
            ps = ctx.pieces(w); T = lambda x: tuple(ctx.norm_f(fop(f, "T")) for f in reversed(x))
            with_ = [p for p in ps if any(mentions_atom(f[0], k) for f in p)]; rest = [p for p in ps if not any(p is q for q in with_)]
            if len(with_) == 2:
                for x, y in (with_, with_[::-1]):
                    for x_ in (x, T(x)):
                        for y_ in (y, T(y)):
                            if mentions_atom(x_[-1][0], k) and mentions_atom(y_[0][0], k):
                                res = sum_proj(ctx, x_[-1], y_[0], k, K)
                                if res is not None: return MTerm(r, cc, one(sum(rest, ())).mul(one(x_[:-1])).mul(res).mul(one(y_[1:], c)).t)
    if not mentions_sp(c, k) and dep:
        res = flat_sum(ctx, w, dep, k, K)
        if res is not None: return MTerm(r, cc, one(w[:dep[0]]).mul(res).mul(one(w[dep[-1] + 1:], c)).t)
    # formal sum
    if dep:
        a, b = dep[0], dep[-1]
        # split the coefficient
        keep = []; inn = []
        (mono, cf), = c.t.items()
        for n, cj in mono: (inn if k in n else keep).append((n, cj))
        ck = SPoly({tuple(keep): cf}); ci = SPoly({tuple(inn): 1})
        while mentions_ip(frows(w[a]), k) and a > 0: a -= 1
        while mentions_ip(fcols(w[b]), k) and b < len(w) - 1: b += 1
        at = formal(ctx, w[a:b + 1], ci, k, K)
        return MTerm(r, cc, one(w[:a]).mul(at).mul(one(w[b + 1:], ck)).t)
    (mono, cf), = c.t.items()
    keep = tuple(x for x in mono if k not in x[0]); inn = tuple(x for x in mono if k in x[0])
    nm = "Sum{#<%r: %r}" % (ctx.inorm(K), sorted(x[0].replace(k, "#") + ("~" if x[1] else "") for x in inn))
    if all(x[0] in ctx.realscal for x in inn): ctx.realscal.add(nm)
    return MTerm(r, cc, {w: SPoly({keep: cf}) * SPoly.atom(nm)})
def scalars_sorted(ctx, w):
    """the 1x1 factors inside a word in a canonical order and orientation"""
    cut = [i + 1 for i in range(len(w) - 1) if ctx.ieq(fcols(w[i]), 1)]
    if len(cut) < 2: return w
    T = lambda x: tuple(ctx.norm_f(fop(f, "T")) for f in reversed(x))
    ps = sorted((min(p, T(p), key=repr) for p in (tuple(w[a:b]) for a, b in zip(cut, cut[1:]))), key=repr)
    return tuple(w[:cut[0]]) + sum(ps, ()) + tuple(w[cut[-1]:])
def formal(ctx, w, ci, k, K):
    # canonical orientation
    cands = []
    for op in ("N", "T", "C", "J") if not ctx.real else ("N", "T"):
        ww = tuple(ctx.norm_f(fop(f, op)) for f in (reversed(w) if op in "TC" else w)); cj = ci.conj(ctx.realscal) if op in "CJ" else ci
        ww = scalars_sorted(ctx, ww)
        cands.append((("%r*%r" % (cj, ww)).replace(k, "#"), op, ww))
    nm, op, ww = min(cands, key=lambda x: x[0])
    nm = "Sum{#<%r: %s}" % (ctx.inorm(K), nm)
    nms = {op: x for x, op, _ in cands}
    at = Atom("gen", nm, frows(ww[0]), fcols(ww[-1]), real=ctx.real or nms["J"] == nms["N"], sym=nms["T"] == nms["N"])
    return MTerm.of(at).op(op, ctx.realscal)      # N,T,C,J are involutions
def sum_proj(ctx, f, g, k, K):
    """sum_k S_k S_k^T for consecutive slices = S S^T of the union"""
    (a, o), (b, p) = f, g
    if a.kind != "sel" or b.kind != "sel" or o != "N" or p != "T": return None
    if any(mentions_ip(x, k) for x in (a.cols, a.rows, b.cols, b.rows)): return None
    offs = []
    for x in (a, b):
        st = ctx.inorm(ren_ip(x.off, k, IPoly.atom(k) + 1) - x.off)
        if ctx.ieq(st, x.cols): offs.append((1, ren_ip(x.off, k, ip(0))))
        elif ctx.ieq(st, -x.cols): offs.append((-1, ren_ip(x.off, k, ip(K) - 1)))
        else: return None
    if offs[0][0] != offs[1][0]: return None
    n = ctx.inorm(ip(K) * a.cols); s, t = [ctx.sel(x.rows, ctx.inorm(o_), n) for x, (_, o_) in zip((a, b), offs)]
    return one([(x, q) for x, q in ((s, "N"), (t, "T")) if not ctx.ieq(x.rows, x.cols)])

# ------------------------------------------------------------------ havoc
def havoc(it, o, tag, shapes):
    c = it.ctx; x = tag == "x"      # the state after a loop with a given invariant: ordinary unknowns
    if isinstance(o, Cell):
        v = o.v
        if isinstance(v, IPoly): nv = IPoly.atom(c.fresh(("v_" if x else "h_") + str(o.name)))
        elif isinstance(v, bool) or z3.is_bool(v): nv = z3.Bool(c.fresh(("vb_" if x else "hb_") + str(o.name)))
        elif isinstance(v, MTerm): nv = c.scal(c.fresh(("vs_" if x else "hs_") + str(o.name)), all_real(c, v))
        elif isinstance(v, BPtr): nv = BPtr(v.buf, IPoly.atom(c.fresh(("vp_" if x else "hp_") + str(o.name))))
        elif type(v).__name__ == "M_LIter": nv = type(v).make(v, IPoly.atom(c.fresh(("vp_" if x else "hp_") + str(o.name))))
        elif isinstance(v, Buf):
            nv = Buf(c, IPoly.atom(c.fresh("vsz" if x else "hsz")), Fill(None), v.name, v.et); c.assume(nv.size.z() >= 0)
        elif isinstance(v, IBuf):
            n = IPoly.atom(c.fresh("vsz" if x else "hsz")); c.assume(n.z() >= 0); nv = IBuf(c, n, z3.Array(c.fresh("va" if x else "ha"), z3.IntSort(), z3.IntSort()), v.name); nv.ghost = dict(v.ghost)
        elif isinstance(v, tuple): n = IPoly.atom(c.fresh("hn_list")); c.assume(n.z() >= 0); nv = (Rest(n),)
        else: nv = Opaque("value modified by a loop")
        o.set(nv); return nv
    if isinstance(o, Buf):
        sh = shapes.get(id(o))
        if isinstance(o.content, Fill) and sh is None: return None
        r, cc = (o.content.r, o.content.c) if sh is None else sh
        nv = c.gen(c.fresh(("X_" if x else "L_") + o.name), r, cc); o.setc(nv); return nv
    if isinstance(o, IBuf):
        nv = z3.Array(c.fresh("lx" if x else "la"), z3.IntSort(), z3.IntSort()); o.setc(nv); return nv
    return None
def all_real(c, m): return c.real
def value(o): return o.v if isinstance(o, Cell) else (o.content if isinstance(o, Buf) else o.arr)
def put(o, v):
    if isinstance(o, Cell): o.set(v)
    else: o.setc(v)

def vsig(c, v):
    """the value of an element of a list, as text"""
    if isinstance(v, Ptr): return "null" if v.cell is None else "&" + str(v.cell.name)
    if isinstance(v, bool): return str(v)
    if z3.is_expr(v): return z3.simplify(c.unname(v)).sexpr()
    if isinstance(v, IPoly): return repr(c.inorm(v))
    if isinstance(v, Obj): return "{%s}" % ", ".join("%s: %s" % (n, vsig(c, x.get())) for n, x in sorted(v.f.items()))
    return "?%d" % id(v)
def vsame(c, a, b):
    if isinstance(a, Ptr) and isinstance(b, Ptr): return vsig(c, a) == vsig(c, b)
    if (isinstance(a, bool) or z3.is_bool(a)) and (isinstance(b, bool) or z3.is_bool(b)): return c.prove(bz(a) == bz(b))
    if isinstance(a, IPoly) and isinstance(b, IPoly): return c.ieq(a, b)
    if isinstance(a, Obj) and isinstance(b, Obj): return set(a.f) == set(b.f) and all(vsame(c, x.get(), b.f[n].get()) for n, x in a.f.items())
    return vsig(c, a) == vsig(c, b)
def pushes(pre, post):
    """the elements appended to a list, or None"""
    if not isinstance(pre, tuple) or not isinstance(post, tuple) or len(post) < len(pre) or any(a is not b for a, b in zip(pre, post)): return None
    return post[len(pre):]
WORKLIST = {}       # base name of the function -> fn(it, loop, stack) -> what the items of its work list stand for (or None)
FOREACH = {}        # base name of the function -> fn(it, loop) -> what one iteration does to the element it belongs to (or None)
COUNTED = {}        # base name of the function -> fn(it, loop) -> invariant given with the contract for a loop whose number of iterations is found (or None)
LOOPINV = {}        # base name of the function -> fn(it, loop) -> invariant (or None) given with the contract
STATE = {}          # base name of the function -> fn(it, loop, modified) -> contents of buffers after k iterations, given with the contract (or None)
class ProdForm(MTerm):
    __slots__ = ("step", "total")

class Loop:
    def __init__(s, it, n, omp=False):
        s.it = it; s.n = n; s.ctx = it.ctx; s.omp = omp; s.kind = n["k"]
        s.list = None; s.noguess = set(); s.each = None; s.inv = None
    # ---- one iteration (after the condition held); returns outcome
    def body(s, k=None):
        if s.inv is None: return s.body1(k)
        s.inv.enter(s.kat if k is None else k)
        try: return s.body1(k)
        finally: s.inv.leave()
    def body1(s, k=None):
        it = s.it; n = s.n
        try:
            if s.kind == "RangeFor": s.bindelem(k)
            it.stmt(n["b"])
        except Continue: pass
        except Break: return ("break",)
        except Return as r: return ("return", r)
        if s.kind == "For" and n.get("u"): it.rval(n["u"], discard=True)
        return ("normal",)
    def bindelem(s, k):
        it = s.it; c = s.ctx; d = s.n["v"]; v = s.list
        if isinstance(v, AbsList): el = v.at(k)
        elif isinstance(v, Vec): el = ElemRef(c, v.buf, ip(k))
        elif isinstance(v, PyVec): el = v.items[k]
        d = d["d"][0] if d.get("k") == "Decl" else d
        if is_ref(d["t"]): it.fr.env[d["id"]] = el
        else:
            x = el.get(); y = c.models.copy(it, strip(d["t"]), el, "copy")
            it.fr.env[d["id"]] = Cell(c, y if y is not None else x, d["t"], d["n"])
    def run(s):
        it, n, c = s.it, s.n, s.ctx
        g = LOOPINV.get(base_name(it.fr.f.get("qn", "")))
        inv = g(it, s) if g else None
        if inv is not None: return s.with_invariant(inv)
        if s.kind == "While":
            g = WORKLIST.get(base_name(it.fr.f.get("qn", "")))
            q = s.stack() if g else None
            spec = g(it, s, q) if q is not None else None
            if spec is not None: return s.worklist(spec, q)
        if s.kind == "Do": raise Unsupported("do-while")
        if s.kind == "RangeFor":
            s.list = it.lval(n["r"]).get()
            if isinstance(s.list, Ptr): s.list = s.list.cell.get()
            s.list = seen(s.list)
            if isinstance(s.list, PyVec):
                if any(not isinstance(x, Cell) for x in s.list.items): raise Unsupported("range-for over an abstract list")
                for i in range(len(s.list.items)):
                    o = s.body(i)
                    if o[0] == "break": return
                    if o[0] == "return": raise o[1]
                return
            if not isinstance(s.list, (AbsList, Vec)): raise Unsupported("range-for over %r" % (s.list,))
            s.K = c.inorm(s.list.length if isinstance(s.list, AbsList) else s.list.buf.size)
            if s.K.is_const() and s.K.cval() <= 4:
                for i in range(s.K.cval()):
                    o = s.body(ip(i))
                    if o[0] == "break": return
                    if o[0] == "return": raise o[1]
                return
            return s.summarise()
        if s.kind == "For" and n.get("i"): it.stmt(n["i"])
        cnt = 0
        while True:
            cv = s.cond()
            if not isinstance(cv, bool): cv = s.decide(cv)
            if cv is False: return
            if cv is True:
                cnt += 1
                if cnt > 64: raise Budget("loop with a large constant trip count")
                o = s.body()
                if o[0] == "break": return
                if o[0] == "return": raise o[1]
                continue
            return s.summarise()
    def decide(s, cv):
        cv = z3.simplify(cv)
        if z3.is_true(cv): return True
        if z3.is_false(cv): return False
        if s.ctx._check(cv) == z3.unsat: return False
        return cv
    def cond(s):
        if s.n.get("c") is None: return True
        return s.it.cond(s.n["c"])
    # ---- condition split into a counting part and the rest
    def split(s):
        c = s.n["c"]; parts = []
        def fl(e):
            if e["k"] == "Bin" and e["op"] == "&&": fl(e["a"]); fl(e["b"])
            else: parts.append(e)
        fl(c); return parts
    def diff(s, e):
        """(op, a-b) of a comparison, as integer polynomial"""
        it = s.it
        while e["k"] in ("Load", "Mat"): e = e["e"]
        if e["k"] == "Bin" and e["op"] in ("<", ">", "<=", ">=", "!="): op = e["op"]; a, b = it.rval(e["a"]), it.rval(e["b"])
        elif e["k"] == "OpCall" and e["f"]["n"] in ("operator!=", "operator<"):
            op = e["f"]["n"][8:]; a, b = [it.lval(x).get() for x in e["a"]]
        else: return None
        if isinstance(a, BPtr) and isinstance(b, BPtr) and a.buf is b.buf: return op, s.ctx.inorm(a.off - b.off)
        if type(a).__name__ == "M_LIter" and type(b).__name__ == "M_LIter": return op, s.ctx.inorm(a.i - b.i)
        if isinstance(a, IPoly) and isinstance(b, IPoly): return op, s.ctx.inorm(a - b)
        return None
    # ---- summary
    def preexisting(s, o, mark):
        return o.sn <= mark
    def first_value(s, o): return value(o)
    def delta(s, a, b, sub):
        if isinstance(a, BPtr) and isinstance(b, BPtr) and a.buf is b.buf: a, b = a.off, b.off
        elif type(a).__name__ == "M_LIter" and type(b).__name__ == "M_LIter": a, b = a.i, b.i
        if isinstance(a, IPoly) and isinstance(b, IPoly): return b.subst(sub) - a.subst(sub)
        return None
    def guessed(s, guess, i):
        v, d = guess[i]; k = s.kat
        s.ctx.assume(k.z() >= 0)
        if isinstance(v, BPtr): return BPtr(v.buf, v.off + d * k)
        if type(v).__name__ == "M_LIter": return type(v).make(v, v.i + d * k)
        return s.ctx.inorm(v) + d * k
    def probe(s, W, shapes, kform, gform=None):
        """one iteration on all paths from the havoced state; returns outcomes [(kind, {id:(pre,post)}, touched)]"""
        it, c = s.it, s.ctx; mark = s.mark
        def fn():
            pre = {}
            for o in W.values():
                f = (kform or gform or {}).get(id(o))
                if f is not None: put(o, f(c)); pre[id(o)] = value(o)
                else: havoc(it, o, "p", shapes); pre[id(o)] = value(o)
            if kform is not None or s.kind == "RangeFor": s.assume_k()
            elif gform: c.assume(s.kat.z() >= 0)
            jp = len(c.journal)
            ex = s.enter(kform is not None)
            out = ("condexit",) if ex == "exit" else s.body(s.kat if s.kind == "RangeFor" else None)
            touched = {}
            for o, _ in c.journal[jp:]:
                if isinstance(o, (Cell, Buf, IBuf)):
                    if s.preexisting(o, mark): touched[id(o)] = o
                    elif any(a < o.sn <= b for a, b in c.lazyr) : touched[id(o)] = o; 
            post = {i: value(o) for i, o in list(W.items()) + list(touched.items())}
            for o, v in reversed(c.journal[jp:]):
                if id(o) in touched and id(o) not in W: pre[id(o)] = v
            return (out[0], pre, post, touched, dict(c.isub))
        return fn
    def enter(s, counted):
        """evaluate the loop condition at the start of an iteration, on the current state"""
        it, c = s.it, s.ctx
        if s.kind == "RangeFor" or s.n.get("c") is None: return None
        if not counted:
            if not c.branch(s.cond()): raise PathEnd("condition false")
            return None
        for e in s.extra:
            if not c.branch(it.cond(e)): return "exit"
        return None
    def assume_k(s):
        c = s.ctx; c.assume(z3.And(s.kat.z() >= 0, s.kat.z() < c.zi(s.K)))
    def summarise(s):
        it, c = s.it, s.ctx
        s.mark = c.serial; s.extra = []
        s.n0 = next_id(c); kn = "k[%d]" % next_id(c); s.kn = kn; s.kat = IPoly.atom(kn)
        g = FOREACH.get(base_name(it.fr.f.get("qn", "")))
        if g is not None: s.each = g(it, s)
        g = COUNTED.get(base_name(it.fr.f.get("qn", "")))
        if g is not None and s.kind == "RangeFor": s.inv = g(it, s)
        W = {}; shapes = {}
        # --- probe for the modified locations
        sup = c.suppress; c.suppress += 1; nf = getattr(c, "noforms", 0); c.noforms = nf + 1; spec = None
        try:
            if s.kind != "RangeFor": s.K = None
            guess = {}
            for rnd in range(8):
                gf = {i: (lambda ctx, i=i: s.guessed(guess, i)) for i in guess}
                outs = explore(it, s.probe(W, shapes, None, gf), True)
                new = {}
                for o in outs:
                    for i, x in o[3].items():
                        if x.sn > s.mark and s.each is not None and (s.each.owns(x, s.kat) or rnd == 0 and s.each.owns(x, None)): continue     # (the first round does not know the counters yet)
                        if x.sn > s.mark: raise Unsupported("loop modifies elements of a collection (%s)" % x.name)
                        new[i] = x
                for o in outs:
                    for i, v in o[2].items():
                        if isinstance(v, MTerm) and i in new and isinstance(new[i], Buf) and isinstance(value(new[i]), Fill) and not c.ambig.get(i): shapes[i] = s.flat_shape(v) or (c.inorm(v.r), c.inorm(v.c))
                normal = [o for o in outs if o[0] == "normal"]
                if rnd == 0 or not set(new) <= set(W):
                    W.update(new)
                    for i, o in W.items():
                        if i in guess or i in s.noguess: continue
                        ds = set()
                        for oc in normal:
                            d = s.delta(oc[1].get(i, s.first_value(o)), oc[2].get(i), oc[4]); ds.add(d if d is None else repr(d)); dd = d
                        if len(ds) == 1 and None not in ds and all(s.outer_atom(x) for m in dd.t for x in m): guess[i] = (s.first_value(o), dd)
                    continue
                # confirm the guesses
                wrong = [i for i in guess if any((lambda d: d is None or repr(d) != repr(guess[i][1]))(s.delta(oc[1][i], oc[2][i], oc[4])) for oc in normal)]
                if not wrong: break
                for i in wrong: guess.pop(i); s.noguess.add(i)
            else: raise Unsupported("modified locations of the loop do not stabilise")
            normal = [o for o in outs if o[0] == "normal"]
            # --- integers: arithmetic progressions
            steps = {i: g[1] for i, g in guess.items()}
            for i, o in W.items():
                if i in steps: continue
                ds = set()
                for oc in normal:
                    a, b = oc[1][i], oc[2][i]
                    if isinstance(a, BPtr) and isinstance(b, BPtr) and a.buf is b.buf: a, b = a.off, b.off
                    elif type(a).__name__ == "M_LIter" and type(b).__name__ == "M_LIter": a, b = a.i, b.i
                    if isinstance(a, IPoly) and isinstance(b, IPoly): ds.add(IPoly(dict((b.subst(oc[4]) - a.subst(oc[4])).t)))
                    else: ds.add(None)
                if len(ds) == 1 and None not in ds:
                    d, = ds
                    if all(s.outer_atom(x) for m in d.t for x in m): steps[i] = d
                    else:
                        d = s.partial_sums(d)
                        if d is not None: steps[i] = d
        finally: c.suppress = sup; c.noforms = nf
        init = {i: value(o) for i, o in W.items()}
        if s.omp and c.par is not None:
            for i, o in W.items():
                if isinstance(o, Buf) and o.sn > c.par.mark and c.par.acc.get(i) is not o.content:
                    x = o.content; z = (isinstance(x, Fill) and x.v is not None and c.mzero(c.mnorm(x.v)) if isinstance(x, Fill) else c.mzero(x))
                    c.oblig("omp for: the thread's private %s is zero before the iterations are shared out" % o.name, z, "starts from %r, which every thread would add" % (x.v if isinstance(x, Fill) else x,), "normal-form")
        def lin(i, k):
            v = init[i]; st = steps[i]; st = st(ip(k)) if callable(st) else st * k
            if isinstance(v, BPtr): return BPtr(v.buf, v.off + st)
            if type(v).__name__ == "M_LIter": return type(v).make(v, v.i + st)
            return c.inorm(v) + st
        # --- trip count
        if s.kind != "RangeFor":
            s.K = s.trip(W, steps, lin)
        if s.K is None: return s.uncounted(W, shapes)
        g2 = STATE.get(base_name(it.fr.f.get("qn", ""))) if not nf else None
        if g2 is not None: spec = g2(it, s, W)
        def stated(l, when=None):
            for o, v in l:
                if when is None: put(o, v); continue
                ok, d = c.meq(o.content, v) if isinstance(o.content, MTerm) else (False, "content unknown"); c.oblig("loop invariant %s: content of %s" % (when, o.name), ok, "%r | path: %s" % (d, " & ".join(c.trace[-8:])), "normal-form")
        if spec is not None:
            if s.omp: raise Unsupported("given contents in an omp loop")
            stated(spec.start(), "on entry")
        if g is not None and s.inv is None: s.inv = g(it, s)
        def invcheck(when, k):
            for label, e, *d in s.inv.at(k): c.oblig("loop invariant %s: %s" % (when, label), c.prove(e), (d[0] if d else "") + " | path: " + " & ".join(c.trace[-8:]), "z3")
        def invassume(k):
            for label, e, *d in s.inv.at(k): c.assume(e)
        if s.inv is not None: invcheck("on entry", ip(0))
        kform = {i: (lambda ctx, i=i: lin(i, s.kat)) for i in steps}
        # --- increments of the numeric locations
        c.suppress += 1; c.noforms = nf + 1
        try: outs = explore(it, s.probe(W, shapes, kform), True)
        finally: c.suppress = sup; c.noforms = nf
        normal = [o for o in outs if o[0] == "normal"]
        exits = [o for o in outs if o[0] != "normal"]
        closed = {}; arr = {}; inv_atoms = {}
        num = [i for i, o in W.items() if i not in steps and (spec is None or i not in spec.owns) and normal and all(isinstance(oc[2][i], MTerm) and isinstance(oc[1][i], MTerm) for oc in normal)]
        # every probe run creates fresh names for the pre-state: rename them to one canonical pre atom
        pre_atom = {}
        for i in num:
            o = W[i]; sh = shapes.get(i) or (normal[0][1][i].r, normal[0][1][i].c)
            pre_atom[i] = c.gen("Pre<%s.%s>" % (kn[1:].strip("[]"), o.name if isinstance(o, Buf) else "s" + o.name), sh[0], sh[1]) if isinstance(o, Buf) else c.scal("Pre<%s.s%s.%d>" % (kn[1:].strip("[]"), o.name, list(W).index(i)))
        def canon(oc, m):
            mp = {}; sp = {}
            for i in num:
                p = oc[1][i]
                if isinstance(W[i], Buf): mp[next(iter(p.t))[0][0].key()] = pre_atom[i]
                else: sp[next(iter(next(iter(p.t.values())).t))[0][0]] = next(iter(pre_atom[i].t.values()))
            m = subst_atoms(m, mp)
            if sp: m = MTerm(m.r, m.c, {w: cf.map_atoms(lambda n, cj: sp[n].conj() if n in sp and cj else sp.get(n, SPoly.atom(n, cj))) for w, cf in m.t.items()})
            return m
        cand = {}
        for i in num:
            ds = []
            for oc in normal:
                d = canon(oc, oc[2][i]).add(pre_atom[i], -1)
                if not any(d == None for _ in ()): ds.append(d)
            ds.sort(key=lambda m: -len(repr(m)))
            cand[i] = ds
        closedform = {}
        for i in num:
            for d in cand[i]:
                cf = s.closable(i, d, pre_atom, num, W)
                if cf is not None: closedform[i] = cf; break
        # --- integer arrays: one store per iteration
        iarr = {}
        for i, o in W.items():
            if isinstance(o, IBuf) and len(normal) >= 1:
                r = s.store_form(normal, i)
                if r is not None: iarr[i] = r
        pref = s.prefix_forms(W, [i for i, o in W.items() if isinstance(o, IBuf) and i not in iarr], iarr, init, shapes, kform) if normal else {}
        # --- vectors that get one element appended per iteration
        grow = {}
        for i, o in W.items():
            if not isinstance(o, Cell) or not normal or not isinstance(init[i], (Buf, IBuf)): continue
            vs = []
            for oc in normal:
                a, b = oc[1][i], oc[2][i]; g = b.ghost.get("append") if isinstance(b, (Buf, IBuf)) else None
                if g is None or g[0] is not a: vs = None; break
                vs.append(canon(oc, g[1]) if isinstance(g[1], MTerm) else c.unname(c.zi(g[1])))
            if not vs: continue
            r = vs[0].sexpr() if z3.is_expr(vs[0]) else repr(vs[0])
            if any((v.sexpr() if z3.is_expr(v) else repr(v)) != r for v in vs) or any(t in r for t in ("h_", "hs_", "L_", "Pre<%s" % kn[1:].strip("[]"), "hsz", "ha!", "hp_", "hb_")): continue
            grow[i] = vs[0]
        over = {}
        for i, o in W.items():
            if i in grow: continue
            if i in steps or i in num or not isinstance(o, Cell) or not normal: continue
            vs = [oc[2][i] for oc in normal]
            if all(isinstance(v, bool) or z3.is_bool(v) for v in vs) or all(isinstance(v, IPoly) for v in vs):
                vs = [c.unname(v.z() if isinstance(v, IPoly) else bz(v)) for v in vs]; v0 = vs[0]; rep = lambda v: v.sexpr()
                if all(rep(v) == rep(v0) for v in vs) and not any(t in rep(v0) for t in ("h_", "hb_", "hp_", "hsz", "la!", "!c")): over[i] = v0
        # --- lists that get the same elements appended in every iteration
        glist = {}
        for i, o in W.items():
            if not isinstance(o, Cell) or not normal or not isinstance(init[i], tuple): continue
            ps = [pushes(oc[1].get(i), oc[2].get(i)) for oc in normal]
            if any(p is None or any(not isinstance(x, Cell) for x in p) for p in ps): continue
            sg = [[vsig(c, x.get()) for x in p] for p in ps]
            if any(len(x) != len(sg[0]) for x in sg) or any("h_" in y or "hb_" in y or y.startswith("?") for y in sg[0]): continue
            glist[i] = [(x.get(), y) for x, y in zip(ps[0], sg[0])]
        def listed(i, k): return init[i] + tuple(Gen(kn, k, v, y) for v, y in glist[i])
        # --- check the candidate on all paths, with obligations recorded
        bad = set(); badover = set(); badgrow = set(); badpref = set()
        def check():
            for i, o in W.items():
                if i in steps: put(o, lin(i, s.kat))
                elif i in pre_atom: put(o, pre_atom[i])
                elif i in grow: put(o, s.grown(init[i], grow[i], s.kat))
                elif i in glist: put(o, listed(i, s.kat))
                elif pref and i in iarr: put(o, s.apply_store(iarr[i], init[i], s.kat, init))
                elif i in pref: put(o, pref[i](s.kat))
                else: havoc(it, o, "c", shapes)
            s.assume_k()
            if s.inv is not None: invassume(s.kat)
            if spec is not None: stated(spec.pre(s.kat))
            jp = len(c.journal)
            if s.omp and c.par is not None: c.par.infor = s; c.par.forw = {}
            pre = {i: value(o) for i, o in W.items()}
            if spec is not None: spec.enter(s.kat)
            try: out = ("condexit",) if s.enter(True) == "exit" else s.body(s.kat if s.kind == "RangeFor" else None)
            finally:
                if spec is not None: spec.leave()
            if out[0] != "normal":
                if s.omp: raise Unsupported("early exit of an omp loop")
                return None
            for i, o in W.items():
                if i in steps:
                    v = value(o); e = lin(i, s.kat + 1); a = v.off if isinstance(v, BPtr) else v.i if type(v).__name__ == "M_LIter" else v; b = e.off if isinstance(e, BPtr) else e.i if type(e).__name__ == "M_LIter" else e
                    if not c.ieq(a, b): raise Unsupported("integer progression of %s not preserved" % o.name)
                elif i in grow:
                    g = value(o).ghost.get("append")
                    if g is None or g[0] is not pre[i]: badgrow.add(i); continue
                    ok = c.meq(g[1], grow[i])[0] if isinstance(g[1], MTerm) else c.prove(c.zi(g[1]) == grow[i])
                    if not ok: badgrow.add(i)
                elif i in glist:
                    p = pushes(pre[i], value(o))
                    if p is None or len(p) != len(glist[i]) or not all(isinstance(x, Cell) and vsame(c, x.get(), y) for x, (y, _) in zip(p, glist[i])): raise Unsupported("elements appended to a list differ between the paths of an iteration: %s" % [vsig(c, y) for y, _ in glist[i]])
                elif i in over:
                    v = value(o)
                    ok = c.prove((c.zi(v) if isinstance(v, IPoly) else bz(v)) == over[i])
                    if not ok: badover.add(i)
                elif i in pref:
                    x = z3.Int("i!pf"); v, w = value(o), pref[i](s.kat + 1); kk = s.kat.z()
                    ok = c.prove(z3.Implies(z3.And(x >= 0, x < c.zi(o.size), x != kk), z3.Select(v, x) == z3.Select(w, x)))
                    a, b = c.to_ip(c.select(v, kk)), c.to_ip(c.select(w, kk))
                    if not (ok and (c.prove(z3.Select(v, kk) == z3.Select(w, kk)) or a is not None and b is not None and c.ieq(a, b))): badpref.add(i)
                elif i in closedform:
                    ok, d = c.meq(value(o).add(pre_atom[i], -1), closedform[i])
                    if not ok: bad.add(i); s.why = "%s: %r" % (o.name, d)
            for oo, _ in c.journal[jp:]:
                if isinstance(oo, (Cell, Buf, IBuf)) and oo.sn <= s.mark and id(oo) not in W: raise Unsupported("loop modifies %s on some path only" % oo.name)
            if s.each is not None:
                if s.list is not None or s.K is not None:
                    for l, ok, d in s.each.post(s.kat): c.oblig("iteration: " + l, ok, d + " | path: " + " & ".join(c.trace[-10:]), "normal-form")
            if s.inv is not None: invcheck("preserved", s.kat + 1)
            if spec is not None: stated(spec.post(s.kat), "preserved")
            if s.omp and c.par is not None: s.omp_check(W, closedform)
            return ("normal",)
        n0 = len(c.obls); explore(it, check)
        for i in bad: closedform.pop(i, None)
        for i in badover: over.pop(i, None)
        for i in badgrow: grow.pop(i, None)
        if badpref: pref = {}      # the forms may use one another
        # --- leave the loop
        def at(k):
            for i, o in W.items():
                if i in steps: put(o, lin(i, k))
                elif i in closedform:
                    v0 = s.shaped(o, init[i], shapes.get(i))
                    if isinstance(closedform[i], ProdForm):
                        if k is not s.K: havoc(it, o, "e", shapes); continue
                        put(o, c.mnorm(v0.add(s.subst_pre(closedform[i].total, i, v0, W, pre_atom)))); continue
                    d = s.subst_pre(closedform[i], i, v0, W, pre_atom)
                    put(o, c.mnorm(v0.add(sum_term(c, d, kn, k))))
                elif i in over: put(o, s.overwritten(over[i], init[i], k))
                elif i in grow: put(o, s.grown(init[i], grow[i], k))
                elif i in glist: put(o, listed(i, k))
                elif i in iarr: put(o, s.apply_store(iarr[i], init[i], k, init))
                elif i in pref: put(o, pref[i](k))
                else: havoc(it, o, "e", shapes)
        if exits and c.choose(2, "loop exit") == 1:
            if s.omp: raise Unsupported("early exit of an omp loop")
            k = IPoly.atom("k[%d]" % next_id(c)); c.assume(z3.And(k.z() >= 0, k.z() < c.zi(s.K))); at(k); c.trace.append("early exit of loop line %s" % s.n.get("l"))
            for i, o in W.items():
                pass
            if s.enter(True) == "exit": return
            out = s.body(k)
            if out[0] == "break": return
            if out[0] == "return": raise out[1]
            raise PathEnd("iteration does not exit")
        at(s.K)
        if spec is not None:
            if exits: raise Unsupported("early exit of a loop with given contents")
            stated(spec.end())
        if s.inv is not None:
            if exits: raise Unsupported("early exit of a loop with a given invariant")
            invassume(s.K)
        if s.each is not None:
            if exits: raise Unsupported("early exit of a loop over the elements")
            s.each.after(s.K)
        if s.omp and c.par is not None:
            for i, o in W.items():
                if isinstance(o, Buf): c.par.acc[i] = o.content
    def grown(s, b0, v, k):
        """the vector b0 with v(0), ..., v(k-1) appended"""
        c = s.ctx; k = c.inorm(k); n = c.inorm(b0.size)
        if isinstance(b0, IBuf):
            x = z3.Int("i!gr%d" % next_id(c)); kz = z3.Int(s.kn)
            b = IBuf(c, n + k, z3.Lambda([x], z3.If(x < n.z(), z3.Select(b0.arr, x), z3.substitute(v, (kz, x - n.z())))), b0.name); return b
        X = b0.content
        N = c.inorm(n + k); Y = MTerm.zero(N, 1)
        if not c.ieq(n, 0):
            if isinstance(X, Fill): X = c.fillterm(b0, X.v, n, ip(1))
            Y = Y.add(MTerm.of(c.sel(N, 0, n)).mul(X))
        j = "k[g%d]" % next_id(c)      # the index of the sum must not be the k of the loop, which N mentions
        w = ren_term(v, s.kn, IPoly.atom(j), c.realscal)
        e = MTerm.of(c.sel(N, n + IPoly.atom(j), 1))
        Y = Y.add(sum_term(c, MTerm(N, 1, e.mul(c.orient1(w, N, j)).t), j, k))
        b = Buf(c, N, c.mnorm(MTerm(N, 1, Y.t)), b0.name, b0.et); b.ghost["vector"] = True; return b
    def overwritten(s, g, v0, k):
        c = s.ctx; k = c.inorm(k)
        x = z3.substitute(g, (z3.Int(s.kn), k.z() - 1))
        if isinstance(v0, IPoly):
            if k.is_const() and k.cval() == 0: return v0
            return c.name_int(x if c.prove(k.z() >= 1) else z3.If(k.z() <= 0, c.zi(v0), x))
        return z3.simplify(z3.If(k.z() <= 0, bz(v0), x))
    def outer_atom(s, x):
        """an integer that exists before the loop and does not change in it"""
        ns = re.findall(r"!(\d+)", x) + re.findall(r"k\[(\d+)\]", x)
        return all(int(n) < s.n0 for n in ns) and s.kn not in x
    def shaped(s, o, v, sh):
        if isinstance(v, Fill): return s.ctx.fillterm(o, v.v, sh[0], sh[1])
        return v
    def subst_pre(s, d, i, v0, W, pre_atom):
        if isinstance(W[i], Buf): return subst_atoms(d, {next(iter(pre_atom[i].t))[0][0].key(): v0})
        return d
    def closable(s, i, d, pre_atom, num, W):
        """x_{k+1} = x_k + d(k, x_k) with d affine in x and increments of different iterations independent"""
        c = s.ctx
        if "hs_" in repr(d) or "L_" in repr(d) and "L_" in "".join(f[0].name for w in d.t for f in w if f[0].kind == "gen") and any(f[0].name.startswith("L_") for w in d.t for f in w): return None
        for j in num:
            if j != i and (isinstance(W[j], Buf) and has_atom(d, next(iter(pre_atom[j].t))[0][0].key()) or not isinstance(W[j], Buf) and mentions_sc(d, pre_atom[j])): return None
        if not isinstance(W[i], Buf):
            return d if not mentions_sc(d, pre_atom[i]) else None
        key = next(iter(pre_atom[i].t))[0][0].key()
        lin = MTerm(d.r, d.c, {w: cf for w, cf in d.t.items() if any(f[0].key() == key for f in w)})
        if any(sum(f[0].key() == key for f in w) > 1 for w in lin.t): return None
        if not lin.t: return d
        pf = s.product_form(d, key)
        if pf is not None: return pf
        if s.entrywise(d, lin, key): return d
        # independence: L_k(d(j)) = 0 for j < k
        sn = Snap(s.it)
        try:
            j = IPoly.atom("k[%d]" % next_id(c)); c.assume(z3.And(j.z() >= 0, j.z() < s.kat.z(), s.kat.z() < c.zi(s.K)))
            for g in c.pairfacts: g(j, s.kat)
            dj = ren_term(d, s.kn, j, c.realscal)
            return d if c.mzero(subst_atoms(lin, {key: dj})) else None
        finally: sn.rollback()
    def flat_shape(s, v):
        """the shape of the matrices whose entries, numbered by columns, a loop over the entries of a vector reads"""
        c = s.ctx; R, C = [], []
        for w in v.t:
            for f in w:
                o = repr(f[0].off) if f[0].kind == "sel" and f[0].off is not None else ""
                if o.startswith("mod<%s," % s.kn): R.append(f[0].rows)
                elif o.startswith("div<%s," % s.kn): C.append(f[0].rows)
        if not R or not C or not c.ieq(v.c, 1) or any(not c.ieq(R[0], x) for x in R) or any(not c.ieq(C[0], x) for x in C) or not c.ieq(R[0] * C[0], v.r): return None
        return c.inorm(R[0]), c.inorm(C[0])
    def entrywise(s, d, lin, key):
        """iteration k reads and writes entry k of the matrix, numbered by columns: different iterations are independent"""
        def sel(f, what, op): return f[0].kind == "sel" and f[1] == op and f[0].off is not None and repr(f[0].off).startswith("%s<%s," % (what, s.kn)) and s.ctx.ieq(f[0].cols, 1)
        for w in d.t:
            if len(w) < 2 or not sel(w[0], "mod", "N") or not sel(w[-1], "div", "T"): return False
        for w in lin.t:
            p = [x for x, f in enumerate(w) if f[0].key() == key][0]
            if p < 1 or p + 1 >= len(w) or w[p][1] not in "NJ" or not sel(w[p - 1], "mod", "T") or not sel(w[p + 1], "div", "N"): return False
        return True
    def product_form(s, d, key):
        """x_{k+1} = x_k + E x_k (T_k - I), E a projection independent of k, T_k the k-th exchange of a pivot array:
        x_K = x_0 + E x_0 (T_0 T_1 ... T_{K-1} - I)"""
        c = s.ctx
        if len(d.t) != 2: return None
        (w1, c1), (w2, c2) = sorted(d.t.items(), key=lambda x: -len(x[0]))
        if len(w1) != len(w2) + 1 or not (c1 == SPoly.const(1) and c2 == SPoly.const(-1)): return None
        t = w1[-1][0]
        if w1[:-1] != w2 or not (isinstance(t.tag, tuple) and t.tag[0] == "swap"): return None
        if w2[-1][0].key() != key or w2[-1][1] != "N" or any(mentions_atom(f[0], s.kn) for f in w2): return None
        E = w2[:-1]
        if E and not (len(E) == 2 and c.wnorm(E + E) == E): return None
        arr, j, n, mk = t.tag[1:5]
        j0 = c.inorm(ren_ip(j, s.kn, ip(0))); st = c.inorm(ren_ip(j, s.kn, IPoly.atom(s.kn) + 1) - j)
        if not c.ieq(s.K, n): return None
        if c.ieq(st, 1) and c.ieq(j0, 0): op = "N"
        elif c.ieq(st, -1) and c.ieq(j0, n - 1): op = "T"
        else: return None
        s.prod = getattr(s, "prod", {}); P = mk()
        s.prod[id(d)] = True
        r = ProdForm(d.r, d.c, d.t); r.step = d; r.total = MTerm(d.r, d.c, {w2: SPoly.const(1)}).mul(P.op(op)).add(MTerm(d.r, d.c, {w2: SPoly.const(1)}), -1)
        return r
    def store_form(s, normal, i):
        """arr' = Store(arr, idx(k), val(k)) on every path"""
        forms = []
        for oc in normal:
            a, b = oc[1][i], oc[2][i]
            if not z3.is_expr(b) or not z3.is_store(b) or not b.arg(0).eq(a): return None
            if occurs(b.arg(1), a) or occurs(b.arg(2), a): return None
            forms.append((s.ctx.unname(b.arg(1)), s.ctx.unname(b.arg(2))))
        i0, v0 = forms[0]
        if any(not i0.eq(x) or not v0.eq(y) for x, y in forms): return None
        if any(n in repr(i0) + repr(v0) for n in ("h_", "hs_")): return None
        kz = z3.Int(s.kn); nx = z3.simplify(z3.substitute(i0, (kz, kz + 1)) - i0)
        if z3.is_int_value(nx) and nx.as_long() == 1: return (i0, v0)
        return None
    def apply_store(s, f, arr0, K, init):
        i0, v0 = f; c = s.ctx; x = z3.Int("i!ls%d" % next_id(c)); kz = z3.Int(s.kn)
        base = z3.simplify(z3.substitute(i0, (kz, z3.IntVal(0))))
        return z3.Lambda([x], z3.If(z3.And(x >= base, x < base + c.zi(K)), z3.substitute(v0, (kz, x - base)), z3.Select(arr0, x)))
    def prefix_forms(s, W, ids, iarr, init, shapes, kform):
        """integer arrays filled by partial sums: arr[k] = arr[k-1] + g(k) for k >= 1, with g known and its sum a known function"""
        c = s.ctx; out = {}
        if not ids: return out
        kf = dict(kform)
        for i in iarr: kf[i] = lambda ctx, i=i: s.apply_store(iarr[i], init[i], s.kat, init)
        res = {i: [] for i in ids}; pieces = {i: [] for i in ids}
        def fn():
            c.branched = []
            pr = s.probe(W, shapes, kf)()
            if pr[0] != "normal": return None
            cond = [x for x in map(c.unname, c.branched) if not RESIDUE.search(repr(x))]
            for i in ids:
                a, b = pr[1][i], pr[2][i]
                if b.eq(a): pieces[i].append((cond, None)); continue
                if z3.is_store(b) and b.arg(0).eq(a) and c.prove(b.arg(1) == s.kat.z()):
                    v = c.unname(b.arg(2)); pieces[i].append((cond, "?" if occurs(v, a) or RESIDUE.search(repr(v)) else v))
                else: pieces[i].append((cond, "?"))
                if not z3.is_store(b) or not b.arg(0).eq(a) or not c.prove(b.arg(1) == s.kat.z()): res[i].append(None); continue
                v = z3.simplify(c.unname(b.arg(2)) - z3.Select(a, s.kat.z() - 1)); g = None if occurs(v, a) or not c.prove(s.kat.z() >= 1) else c.to_ip(v)
                res[i].append(g)
            return True
        sup = c.suppress; c.suppress += 1
        try: explore(s.it, fn, True)
        except (Unsupported, z3.Z3Exception): return {}
        finally: c.suppress = sup
        kz = z3.Int(s.kn)
        for i in ids:
            ps = pieces[i]
            if ps and all(v is None or z3.is_expr(v) for _, v in ps) and any(v is not None for _, v in ps):      # the value stored by iteration k, a case of k
                def direct(k, i=i, ps=ps):
                    x = z3.Int("i!pre%d" % next_id(c)); a0 = init[i]; e = z3.Select(a0, x)
                    for n, (cs, v) in enumerate(ps):
                        w = z3.Select(a0, x) if v is None else z3.substitute(v, (kz, x))
                        e = w if n == 0 else z3.If(z3.And([z3.substitute(y, (kz, x)) for y in cs]), w, e)
                    return z3.Lambda([x], z3.If(z3.And(x >= 0, x < c.zi(k)), e, z3.Select(a0, x)))
                out[i] = direct; continue
            gs = res[i]
            if not gs or any(g is None or not g == gs[0] for g in gs): continue
            G = s.telescoped(gs[0])
            if G is None: continue
            def form(k, i=i, G=G):
                x = z3.Int("i!pre%d" % next_id(c)); a0 = init[i]
                return z3.Lambda([x], z3.If(z3.And(x >= 1, x < c.zi(k)), z3.Select(a0, z3.IntVal(0)) + G(x), z3.Select(a0, x)))
            out[i] = form
        return out
    def partial_sums(s, g):
        """sum of g(i) for 0 <= i < k as a function of k, when it is a known function"""
        c = s.ctx; parts = []; me = repr(IPoly.atom(s.kn))
        for m, cf in g.t.items():
            dep = [x for x in m if not s.outer_atom(x)]
            if not dep: parts.append((m, cf, None)); continue
            F = [F for pre, F in c.telescope.items() if len(dep) == 1 and dep[0] == "%s<%s>" % (pre, me)]
            if not F: return None
            rest = list(m); rest.remove(dep[0]); parts.append((tuple(rest), cf, F[0]))
        def known(z):
            z = z3.simplify(z); p = c.to_ip(z); return p if p is not None else c.name_int(z)
        def at(k):
            t = ip(0)
            for m, cf, F in parts: t = t + IPoly({m: cf}) * (k if F is None else known(F(k.z())) - known(F(z3.IntVal(0))))
            return c.inorm(t)
        return at
    def telescoped(s, g):
        """sum of g(i) for 1 <= i <= j as a function of j"""
        c = s.ctx; parts = []; prev = repr(c.inorm(s.kat - 1))
        for m, cf in g.t.items():
            dep = [x for x in m if s.kn in x]
            if not dep: parts.append(lambda j, m=m, cf=cf: IPoly({m: cf}).z() * j); continue
            if len(dep) != 1: return None
            for pre, F in c.telescope.items():
                if dep[0] == "%s<%s>" % (pre, prev):
                    rest = list(m); rest.remove(dep[0]); parts.append(lambda j, rest=tuple(rest), cf=cf, F=F: IPoly({rest: cf}).z() * (F(j) - F(z3.IntVal(0)))); break
            else: return None
        return lambda j: z3.Sum([p(j) for p in parts]) if parts else z3.IntVal(0)
    def trip(s, W, steps, lin):
        it, c = s.it, s.ctx
        if s.n.get("c") is None: return None
        parts = s.split(); res = []
        def fn():
            for i, o in W.items():
                if i in steps: put(o, lin(i, s.kat))
                else: havoc(it, o, "t", {})
            b4 = c.n
            for e in parts:
                if not it.simple_cmp(e): res.append(None); continue
                try: res.append(s.diff(e))
                except (Unsupported, PathEnd): res.append(None)
            return True
        ok = explore(it, fn, True)
        if len(res) != len(parts): return None
        for idx, r in enumerate(res):
            if r is None: continue
            op, D = r
            if any(x.startswith(("h_", "hp_", "hsz")) for m in D.t for x in m): continue
            D0 = ren_ip(D, s.kn, ip(0)); sl = c.inorm(ren_ip(D, s.kn, IPoly.atom(s.kn) + 1) - D)
            if mentions_ip(sl, s.kn): continue
            if not sl.is_const() or sl.cval() not in (1, -1): 
                if op == "!=": continue
                if sl.is_const() and ((op in ("<", "<=") and sl.cval() > 0) or (op in (">", ">=") and sl.cval() < 0)):
                    K = IPoly.atom(c.fresh("trip")); a = abs(sl.cval()); N = (-D0 if sl.cval() > 0 else D0) + (1 if "=" in op else 0)
                    N = c.inorm(N)
                    if not c.branch(N.z() > 0): K = ip(0)
                    else: c.assume(z3.And(K.z() * a >= N.z(), (K.z() - 1) * a < N.z(), K.z() >= 1))
                    s.extra = [p for j, p in enumerate(parts) if j != idx]; return K
                continue
            if op == "<" and sl.cval() == 1: K = -D0
            elif op == "<=" and sl.cval() == 1: K = -D0 + 1
            elif op == ">" and sl.cval() == -1: K = D0
            elif op == ">=" and sl.cval() == -1: K = D0 + 1
            elif op == "!=":
                K = -D0 if sl.cval() == 1 else D0
                if not c.ile(0, K): continue
            else: continue
            K = c.inorm(K)
            s.extra = [p for j, p in enumerate(parts) if j != idx]
            if not c.ile(0, K):
                if not c.branch(K.z() >= 0): K = ip(0)
                K = c.inorm(K)
            return K
        return None
    def uncounted(s, W, shapes):
        """no trip count: the state after the loop is arbitrary except for the negated condition"""
        it, c = s.it, s.ctx
        def live():
            for o in W.values(): havoc(it, o, "u", shapes)
            if not c.branch(s.cond()): raise PathEnd("exit")
            return s.body()
        outs = explore(it, live)
        for o in W.values(): havoc(it, o, "u", shapes)
        ex = [o for o in outs if o[0] in ("break", "return")]
        if ex and c.choose(2, "loop exit") == 1:
            if not c.branch(s.cond()): raise PathEnd("")
            o = s.body()
            if o[0] == "break": return
            if o[0] == "return": raise o[1]
            raise PathEnd("iteration does not exit")
        if c.branch(s.cond()): raise PathEnd("loop continues")
    def with_invariant(s, inv):
        """the loop is cut by an invariant given with the contract: it holds on entry, the body preserves it, and what follows
        the loop knows nothing else about what the loop modifies.  An invariant that the body does not preserve is a failed
        obligation."""
        it, c = s.it, s.ctx
        if s.omp: raise Unsupported("given invariant of an omp loop")
        if s.kind == "For" and s.n.get("i"): it.stmt(s.n["i"])
        s.mark = c.serial; s.extra = []; s.kn = "?"
        def check(when):
            for label, ok, d in inv.holds(): c.oblig("loop invariant %s: %s" % (when, label), ok if isinstance(ok, bool) else c.prove(ok), d + " | path: " + " & ".join(c.trace[-8:]), "z3")
        def go():
            if s.kind != "Do" and s.n.get("c") is not None and not c.branch(s.cond()): raise PathEnd("condition false")
            return s.body()
        if hasattr(inv, "setup"): inv.setup()
        check("on entry"); W = {}; shapes = dict(getattr(inv, "shapes", {}) or {})
        def arb(tag):
            for o in W.values(): havoc(it, o, tag, shapes)
            inv.assume()
        given = inv.mods() if hasattr(inv, "mods") else None      # what the loop may modify, given with the invariant
        if given is not None: W.update((id(o), o) for o in given)
        def others(jp):
            new = [o for o, _ in c.journal[jp:] if isinstance(o, (Cell, Buf, IBuf)) and (o.sn <= s.mark or any(a < o.sn <= b for a, b in c.lazyr)) and id(o) not in W]
            if new: raise Unsupported("the loop modifies %s" % sorted({str(o.name) for o in new}))
        sup = c.suppress; c.suppress += 1
        try:
            for rnd in range(8 if given is None else 0):
                def fn():
                    arb("p"); jp = len(c.journal); out = go(); new = {}
                    for o, _ in c.journal[jp:]:
                        if isinstance(o, (Cell, Buf, IBuf)) and (o.sn <= s.mark or any(a < o.sn <= b for a, b in c.lazyr)): new[id(o)] = o
                    if out[0] == "normal" and s.kind == "Do": c.branch(s.cond())
                    for i, o in new.items():
                        if isinstance(o, Buf) and isinstance(o.content, MTerm): shapes.setdefault(i, (c.inorm(o.content.r), c.inorm(o.content.c)))
                    return new
                outs = explore(it, fn, True); new = {}
                for o in outs: new.update(o)
                for x in new.values():
                    if x.sn > s.mark: raise Unsupported("loop modifies elements of a collection (%s)" % x.name)
                if set(new) <= set(W): break
                W.update(new)
            else:
                if given is None: raise Unsupported("modified locations of the loop do not stabilise")
        finally: c.suppress = sup
        def keep():
            arb("i"); jp = len(c.journal); r = go()
            if given is not None: others(jp)
            if r[0] == "normal": check("preserved")
            return None
        if s.kind == "Do":
            def keep():
                # the invariant is that of the top of the body
                if given is not None: raise Unsupported("frame of a do loop")
                arb("i")
                if go()[0] == "normal" and c.branch(s.cond()): check("preserved")
                return None
        # the paths that part after the loop share what comes before it: the obligations of the body are generated once for them
        key = (id(s.n), tuple(c.decisions[:c.dpos])) if not getattr(c, "nested", 0) else None
        if key is None or key not in c.cuts:
            explore(it, keep)
            if key is not None: c.cuts.add(key)
        arb("x")
        if s.kind == "Do":
            o = go()
            if o[0] == "return": raise o[1]
            if o[0] == "normal" and c.branch(s.cond()): raise PathEnd("loop continues")
            return
        if c.choose(2, "loop exit") == 0:
            if s.n.get("c") is None or c.branch(s.cond()): raise PathEnd("loop continues")
            return
        if s.n.get("c") is not None and not c.branch(s.cond()): raise PathEnd("condition false")
        o = s.body()
        if o[0] == "return": raise o[1]
        if o[0] == "normal": raise PathEnd("iteration does not exit")
        c.trace.append("early exit of loop line %s" % s.n.get("l"))
    def stack(s):
        """the stack or queue that the loop works off"""
        qs = [v.get() for v in s.it.fr.env.values() if isinstance(v, (Cell, Tmp)) and isinstance(v.get(), PyVec) and tmpl(strip(v.get().t))[0] in ("std::stack", "std::queue")]
        return qs[0] if len(qs) == 1 else None
    def worklist(s, spec, q):
        """a loop that takes one item from a stack or queue until it is empty.  Every item x stands for a finite multiset F(x) (or a
        search of the nodes below x); what has been collected plus the F of the waiting items does not change.  The body is executed
        for one arbitrary item: what it collects plus the F of what it pushes must be F(x).  When the list is empty, F(the first item)
        has been collected.  (F is defined by recursion on the tree, which is finite.)"""
        it, c = s.it, s.ctx; s.mark = c.serial; isq = "queue" in tmpl(strip(q.t))[0]
        if s.n.get("v") or s.omp: raise Unsupported("work list loop")
        if c.prove(z3.BoolVal(True)) and not q.items: return
        for label, ok, d in spec.initial([x.get() if isinstance(x, Cell) else x for x in q.items]): c.oblig("work list on entry: " + label, ok, d + " | path: " + " & ".join(c.trace[-8:]), "z3")
        W = {}
        def arb():
            for o in W.values(): n = IPoly.atom(c.fresh("n_list")); c.assume(n.z() >= 0); o.set((Rest(n),))
            n = IPoly.atom(c.fresh("n_list")); c.assume(n.z() >= 0); r = Rest(n); x = spec.item(); top = Cell(c, x, "?", "item"); q.cell.set((top, r) if isq else (r, top)); return x, r
        def go():
            x, r = arb(); pre = {i: o.get() for i, o in W.items()}; jp = len(c.journal)
            if not c.branch(bz(s.cond())): raise PathEnd("work list is not empty")
            return x, r, pre, jp, s.body()
        sup = c.suppress; c.suppress += 1
        try:
            for rnd in range(6):
                def fn():
                    x, r, pre, jp, out = go(); new = {}
                    for o, _ in c.journal[jp:]:
                        if isinstance(o, (Cell, Buf, IBuf)) and o is not q.cell and o.sn <= s.mark: new[id(o)] = o
                    return out[0], new
                outs = explore(it, fn, True); new = {}
                for _, o in outs: new.update(o)
                for o in new.values():
                    if not isinstance(o, Cell) or not isinstance(o.get(), tuple): raise Unsupported("work list loop modifies %s" % o.name)
                if set(new) <= set(W): break
                W.update(new)
            else: raise Unsupported("modified locations of the loop do not stabilise")
        finally: c.suppress = sup
        early = any(k == "return" for k, _ in outs)
        for i, o in W.items():
            if o.get() != (): raise Unsupported("the list collected by a work list loop is not empty at first")
        def keep():
            x, r, pre, jp, out = go()
            if out[0] == "return":
                for label, ok, d in spec.found(x, out[1].v): c.oblig("work list: " + label, ok, d + " | path: " + " & ".join(c.trace[-8:]), "z3")
                return None
            if out[0] != "normal": raise Unsupported("break out of a work list loop")
            p = pushes((r,), q.items); a = {i: pushes(pre[i], o.get()) for i, o in W.items()}
            if p is None or any(x is None for x in a.values()): raise Unsupported("work list not used as a stack or queue")
            for label, ok, d in spec.step(x, p, a): c.oblig("work list: " + label, ok, d + " | path: " + " & ".join(c.trace[-8:]), "z3")
            return None
        explore(it, keep)
        for i, o in W.items():
            label, ok, d = spec.collected(i, o); c.oblig("work list: " + label, ok, d, "z3")
            if not ok: raise PathEnd("what the loop collects is not known")
        if early and c.choose(2, "loop exit") == 1:
            x, r, pre, jp, out = go()
            if out[0] != "return": raise PathEnd("iteration does not exit")
            spec.leave(x); raise out[1]
        q.cell.set(())
        for i, o in W.items(): o.set((ListRef(spec.final(i, o)),))
        spec.exhausted()
    def omp_check(s, W, closedform):
        """iterations run concurrently: shared locations written by different iterations must be disjoint"""
        c = s.ctx; par = c.par
        for o in par.forw.values():
            d = closedform.get(id(o))
            if d is None: c.oblig("omp for: iterations write disjoint parts of shared %s" % o.name, False, "shared location written by several iterations", "normal-form"); continue
            sn = Snap(s.it); ok = True
            try:
                j = IPoly.atom("k[%d]" % next_id(c)); c.assume(z3.And(j.z() >= 0, j.z() < c.zi(s.K), j.z() != s.kat.z()))
                for w in d.t:
                    f = w[0] if w else None; g = w[-1] if w else None
                    dis = False
                    for x, tr in ((f, "N"), (g, "T")):
                        if x is not None and x[0].kind == "sel" and x[1] == tr and mentions_atom(x[0], s.kn):
                            y = ren_atom(x[0], s.kn, j)
                            if c.pair((x[0], "T"), (y, "N")) == 0: dis = True
                    ok = ok and dis
            finally: sn.rollback()
            c.oblig("omp for: iterations write disjoint parts of shared %s" % o.name, ok, "shared location written by several iterations", "normal-form")
        par.infor = None

def bz(v): return z3.BoolVal(v) if isinstance(v, bool) else v
def mentions_sc(d, atom_term):
    (n, _), = next(iter(next(iter(atom_term.t.values())).t))
    return any(n in x for cf in d.t.values() for m in cf.t for x, _ in m) or any(n in f[0].name for w in d.t for f in w)
def occurs(e, a):
    if e.eq(a): return True
    return any(occurs(x, a) for x in e.children())
def next_id(c): c.n += 1; return c.n

def loop(it, n, omp=False): return Loop(it, n, omp).run()

# ------------------------------------------------------------------ OpenMP
class Par:
    """a parallel region: executed by an arbitrary number of threads.  Verified by running it once as a
    generic thread that takes all iterations, together with the conditions that make the result
    independent of the number of threads and of the schedule."""
    def __init__(s, mark): s.mark = mark; s.infor = None; s.crit = False; s.forw = {}; s.acc = {}
    def write(s, ctx, o):
        if o.sn > s.mark and not any(a < o.sn <= b for a, b in ctx.lazyr): return
        if s.crit: return
        if s.infor is not None:
            if s.infor.each is not None and s.infor.each.owns(o, s.infor.kat): return       # part of the element this iteration belongs to
            s.forw[id(o)] = o; return
        ctx.oblig("omp parallel: no unsynchronised write to shared %s" % o.name, False, "shared location written outside critical / worksharing", "normal-form")

def omp_directive(it, n):
    c = it.ctx; d = n["d"]; cl = n.get("cl") or []
    for x in cl:
        nm = x["c"]
        if nm not in ("schedule", "nowait", "default", "shared", "num_threads"): raise Unsupported("omp clause %s" % nm)
    if d == "parallel":
        if c.par is not None: raise Unsupported("nested parallel region")
        c.par = Par(c.serial)
        try: it.stmt(n["b"])
        finally: c.par = None
        return
    if d == "parallel for":
        if c.par is not None: raise Unsupported("nested parallel region")
        c.par = Par(c.serial)
        try: loop(it, n["b"], True)
        finally: c.par = None
        return
    if d == "for":
        if c.par is None: return loop(it, n["b"])
        # private accumulators must start from zero: the sum over the threads of their values is then the total
        return loop(it, n["b"], True)
    if d == "critical": return critical(it, n["b"])
    if d in ("master", "single", "barrier"): raise Unsupported("omp %s" % d)
    raise Unsupported("omp %s" % d)

def critical(it, b):
    """shared' = shared + L(private), L linear homogeneous: then the order of the threads is irrelevant and the sum over
    the threads of L(private_t) is L(sum of private_t)"""
    c = it.ctx; par = c.par
    if par is None: return it.stmt(b)
    jp = len(c.journal)
    privs = {}
    # replace private numeric buffers by fresh atoms
    for lv in list(it.fr.env.values()):
        if isinstance(lv, Cell) and lv.sn > par.mark and isinstance(lv.v, Vec) and isinstance(lv.v.buf, Buf):
            privs[id(lv.v.buf)] = lv.v.buf
    saved = {}
    for i, bf in privs.items():
        X = bf.content
        if isinstance(X, Fill): X = c.fillterm(bf, X.v, bf.size, ip(1))
        nm = "Priv<%s>" % bf.name; saved[i] = (X, nm); bf.setc(c.gen(nm, X.r, X.c))
    before = {}
    par.crit = True
    try: it.stmt(b)
    finally: par.crit = False
    shared = {}
    for o, old in list(c.journal[jp:]):
        if isinstance(o, Buf) and o.sn <= par.mark and id(o) not in shared: shared[id(o)] = (o, old)
        elif isinstance(o, (Cell, IBuf)) and o.sn <= par.mark:
            if isinstance(o, Cell) and isinstance(o.v, PyVec): continue
            if isinstance(o, Cell) and isinstance(o.v, IPoly): o.set(c.fint("after critical")); continue     # depends on the order of the threads: unspecified
            raise Unsupported("critical section writes %s" % o.name)
    mp = {("gen", nm): X for X, nm in saved.values()}
    for o, old in shared.values():
        X0 = c.fillterm(o, old.v, o.content.r, o.content.c) if isinstance(old, Fill) else old
        d = c.mnorm(o.content.add(X0, -1))
        ok = all(sum(f[0].key() in mp for f in w) == 1 for w in d.t)
        c.oblig("omp critical: shared %s is updated by adding a linear function of the thread's private data" % o.name, ok, "update is %r" % d, "normal-form")
        o.setc(c.mnorm(X0.add(subst_atoms(d, mp))))
    for i, bf in privs.items(): bf.setc(saved[i][0])
