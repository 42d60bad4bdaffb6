"""Processes and collectives.  One generic process is executed: its number is the integer RK, the number of processes NP.  What
depends on the process carries RK in its name, so that the values of the other processes are obtained by renaming.  A collective
is reached by all processes or by none: the path taken so far must not depend on RK."""
import z3
from .terms import *
from .engine import *
from .loops import ren_term, ren_ip, sum_term, mentions_ip, mentions, next_id
from . import models as M
RK, NP = "rk@", "np@"
rank, nprocs = IPoly.atom(RK), IPoly.atom(NP)
def start(ctx):
    ctx.assume(z3.And(rank.z() >= 0, rank.z() < nprocs.z())); ctx.parts = []
class Part:
    """sizes and offsets of the parts of 0..total, one per process, in order"""
    def __init__(s, ctx, name):
        s.ctx = ctx; s.name = name; s.total = IPoly.atom(name + ".total"); ctx.assume(s.total.z() >= 1); S = lambda x: z3.Array("%s.%s" % (name, x), z3.IntSort(), z3.IntSort()); s.sz, s.of = S("sizes"), S("offsets"); s.done = {}
        ctx.zarrays[name + ".sizes"] = s.size; ctx.zarrays[name + ".offsets"] = s.offset; ctx.telescope[name + ".size"] = lambda j: z3.Select(s.of, j)
        ctx.assume(z3.And(z3.Select(s.of, z3.IntVal(0)) == 0, z3.Select(s.of, nprocs.z()) == s.total.z())); ctx.parts.append(s); s.facts(rank); ctx.sumrules.append(s.rule); ctx.pairfacts.append(s.apart)
    def apart(s, j, k):
        """a part ends where a later one starts, or before"""
        s.facts(j); s.facts(k); s.ctx.assume(z3.Implies(z3.And(j.z() >= 0, j.z() < k.z(), k.z() < nprocs.z()), z3.Select(s.of, j.z()) + z3.Select(s.sz, j.z()) <= z3.Select(s.of, k.z())))
    def nm(s, what, i): return "%s.%s<%r>" % (s.name, what, i)
    def facts(s, i):
        ctx = s.ctx; z, o = IPoly.atom(s.nm("size", i)), IPoly.atom(s.nm("offset", i)); k = i.z(); g = [z.z() == z3.Select(s.sz, k), o.z() == z3.Select(s.of, k), z3.Select(s.of, k + 1) == o.z() + z.z()]
        r = z3.And(z.z() >= 0, o.z() >= 0, o.z() + z.z() <= s.total.z(), o.z() <= s.total.z())
        for e in g: ctx.assume(e)
        ctx.assume(z3.Implies(z3.And(k >= 0, k < nprocs.z()), r)); ctx.nexpr[z.z()] = z3.Select(s.sz, k); ctx.nexpr[o.z()] = z3.Select(s.of, k)
        if i.is_const() and i.cval() == 0: ctx.assume_eq(o, 0)
        return z, o
    def size(s, i): i = s.ctx.inorm(i); s.facts(i); return s.ctx.inorm(IPoly.atom(s.nm("size", i)))
    def offset(s, i): i = s.ctx.inorm(i); s.facts(i); return s.ctx.inorm(IPoly.atom(s.nm("offset", i)))
    def sel(s, i): return MTerm.of(s.ctx.sel(s.total, s.offset(i), s.size(i)))
    def rule(s, ctx, w, dep, k, K):
        """sum over the parts of S S^T = identity; with the renumbering of each part in between, the renumbering of all the parts"""
        i = dep[0]
        if not ctx.ieq(K, nprocs): return None
        def mine(f, o): return f[0].kind == "sel" and f[1] == o and ctx.ieq(f[0].rows, s.total) and ctx.ieq(f[0].off, s.offset(IPoly.atom(k))) and ctx.ieq(f[0].cols, s.size(IPoly.atom(k)))
        if len(dep) == 2 and dep[1] == i + 1 and mine(w[i], "N") and mine(w[i + 1], "T"): return (i, i + 2), MTerm.ident(s.total)
        if len(dep) == 3 and dep[2] == i + 2 and mine(w[i], "N") and mine(w[i + 2], "T") and w[i + 1][0].kind == "perm" and w[i + 1][0].name == s.pname(IPoly.atom(k)):
            return (i, i + 3), MTerm.of(Atom("perm", "P{%s.parts}" % s.name, s.total, s.total, real=True)).op(w[i + 1][1])
        return None
    def pname(s, i): return "P{%s.part<%r>}" % (s.name, i)
    def perm(s, i): n = s.size(i); return MTerm.of(Atom("perm", s.pname(s.ctx.inorm(i)), n, n, real=True))
def uniform(it, what):
    """every process takes the same path to the collective"""
    ctx = it.ctx
    if any(RK in k for k in ctx.isub): raise Unsupported("%s under a condition on the process" % what)
    if any(RK in str(x) for x in ctx.trace): raise Unsupported("%s under a condition on the process: %s" % (what, [x for x in ctx.trace if RK in str(x)][:2]))
def other(ctx, k):
    for p in ctx.parts: p.facts(k)
def on(ctx, X, k): return ctx.mnorm(ren_term(ctx.mnorm(X), RK, k, ctx.realscal))
def any_rank(ctx):
    k = IPoly.atom("k[%d]" % next_id(ctx)); ctx.assume(z3.And(k.z() >= 0, k.z() < nprocs.z())); other(ctx, k); return k
def gather(ctx, X, pre=None, post=None):
    """sum over the processes k of pre(k) X(k) post(k)"""
    k = any_rank(ctx); Y = on(ctx, X, k)
    if pre is not None: Y = pre(k).mul(Y)
    if post is not None: Y = Y.mul(post(k))
    return sum_term(ctx, Y, next(iter(k.t))[0], nprocs)
def counts(it, p, k, what):
    """element k of an array of counts or displacements"""
    ctx = it.ctx
    if isinstance(p, Ptr) or not isinstance(p, BPtr) or not isinstance(p.buf, IBuf): raise Unsupported("array of %s" % what)
    return ctx.inorm(ctx.elem_get(p.buf, p.off + k))
def known(p, g):
    """the entries of an array of counts or displacements are g(k): proved for an arbitrary process k"""
    p.buf.ghost["form"] = (p.buf.arr, nprocs, g)
def handle(v):
    """the predefined object an MPI handle points to"""
    if isinstance(v, Ptr) and v.cell is not None: v = v.cell.get()
    return v
def dtype(it, *vs):
    want = ("double" if it.ctx.real else "complex")
    for v in map(handle, vs):
        if not (isinstance(v, Opaque) and v.what == "mpi type " + want): 
            if isinstance(v, Opaque) and v.what.startswith("mpi type"): it.ctx.oblig("type of the elements sent", False, "%r for %s" % (v, want))
            else: raise Unsupported("mpi datatype %r" % (v,))
def register(ms):
    fn = ms.fn
    def d(*names):
        def g(f):
            for n in names: fn[n] = f
            return f
        return g
    def vals(it, nodes): return [it.rval(a) for a in nodes]
    @M.hook("global_var")
    def gvar(it, e):
        n = e["n"]
        if n == "ompi_mpi_double": return Tmp(Opaque("mpi type double"))
        if n in ("ompi_mpi_c_double_complex", "ompi_mpi_cxx_dblcplex"): return Tmp(Opaque("mpi type complex"))
        if n == "ompi_mpi_int": return Tmp(Opaque("mpi type int"))
        if n == "ompi_mpi_op_sum": return Tmp(Opaque("mpi sum"))
        if n.startswith("ompi_mpi_"): return Tmp(Opaque("mpi " + n))
    def put(it, p, v):
        if not isinstance(p, Ptr) or p.cell is None: raise Unsupported("result of an MPI function")
        it.store(p.cell, v)
    @d("MPI_Comm_rank")
    def crank(it, f, this, nodes, e): v = vals(it, nodes); put(it, v[1], rank); return ip(0)
    @d("MPI_Comm_size")
    def csize(it, f, this, nodes, e): v = vals(it, nodes); put(it, v[1], nprocs); return ip(0)
    @d("MPI_Wtime")
    def wtime(it, f, this, nodes, e): return it.ctx.scal(it.ctx.fresh("wtime"), True)
    def block(ctx, part, mu, rest):
        """the term of the process k: rest(k)"""
        def f(c, off):
            off = c.inorm(off); ks = []
            for m in off.t:
                for x in m:
                    if x.startswith(part.name + ".offset<"): ks.append(x[len(part.name) + 8:-1])
            for s in dict.fromkeys(ks + ["0"]):
                k = parse(c, s)
                if k is None: continue
                X = rest(k); rel = c.inorm(off - part.offset(k) * mu)
                if c.ile(0, rel) and c.ile(rel, X.r * X.c): return X, rel
            return None
        return f
    def parse(c, s):
        if s.isdigit(): return IPoly.const(int(s))
        if "+" in s or "*" in s: return None
        return IPoly.atom(s)
    def setforms(ctx, p, mu, n, o, k, cn, dn):
        if ctx.ieq(n, p.size(k) * mu): known(cn, lambda j: p.size(j) * mu)
        if ctx.ieq(o, p.offset(k) * mu): known(dn, lambda j: p.offset(j) * mu)
    def partof(ctx, n, r):
        """which partition has n = size * m entries on the process r?"""
        for p in ctx.parts:
            q = M.exact(ctx, n, p.size(r))
            if q: yield p, q[0]
    @d("MPI_Allgatherv")
    def allgatherv(it, f, this, nodes, e):
        ctx = it.ctx; sb, sc, st, rb, rc, dp, rt, comm = vals(it, nodes); uniform(it, "MPI_Allgatherv"); dtype(it, st, rt); ms.trusted.add("MPI_Allgatherv")
        k = any_rank(ctx); sc = ctx.inorm(it.toint(sc)); n, o = counts(it, rc, k, "counts"), counts(it, dp, k, "displacements")
        ctx.oblig("MPI_Allgatherv: process k sends as many elements as the others expect from it", ctx.ieq(ren_ip(sc, RK, k), n), "sends %r, expected %r" % (ren_ip(sc, RK, k), n))
        for p, mu in partof(ctx, n, k):
            if mentions_ip(mu, next(iter(k.t))[0]): continue
            ctx.oblig("MPI_Allgatherv: the part of process k starts where the parts before it end", ctx.ieq(o, p.offset(k) * mu), "starts at %r instead of %r" % (o, p.offset(k) * mu)); setforms(ctx, p, mu, n, o, k, rc, dp); break
        else: raise Unsupported("counts of MPI_Allgatherv: %r" % n)
        total = ctx.inorm(p.total * mu)
        if isinstance(rb, Ptr): raise Unsupported("receive buffer")
        ctx.require("MPI_Allgatherv: the receive buffer holds %r elements" % total, z3.And(ctx.zi(rb.off) >= 0, ctx.zi(rb.off + total) <= ctx.zi(rb.buf.size)))
        if isinstance(sb, Ptr): raise Unsupported("send buffer")
        ctx.require("MPI_Allgatherv: the send buffer holds %r elements" % sc, z3.And(ctx.zi(sb.off) >= 0, ctx.zi(sb.off + sc) <= ctx.zi(sb.buf.size)))
        X, sh = M.flat_read(ctx, sb, sc); sz = p.size(rank)
        if X is None: raise Unsupported("uninitialised data sent")
        if isinstance(X, Fill): X = ctx.fillterm(sb.buf, X.v, mu, sz)
        if ctx.ieq(X.r, mu) and ctx.ieq(X.c, sz): ctx.write_view(rb, mu, p.total, mu, gather(ctx, X, None, lambda k: p.sel(k).op("T"))); return ip(0)
        if ctx.ieq(mu, 1) and ctx.ieq(X.c, 1): ctx.write_view(rb, p.total, 1, p.total, gather(ctx, X, lambda k: p.sel(k))); return ip(0)
        if ctx.ieq(X.r, sz) and ctx.ieq(X.c, mu):      # blocks by columns, one after the other
            rb = ctx.seg(rb, mu, p.total, mu, True)
            if not (ctx.ieq(rb.off, 0) and ctx.ieq(rb.buf.size, total)): raise Unsupported("blocks inside a larger receive buffer")
            rb.buf.setc(Ragged(block(ctx, p, mu, lambda k: on(ctx, X, k)))); return ip(0)
        raise Unsupported("layout of the data sent: %r x %r" % (X.r, X.c))
    @d("MPI_Alltoallv")
    def alltoallv(it, f, this, nodes, e):
        ctx = it.ctx; sb, sc, sd, st, rb, rc, rd, rt, comm = vals(it, nodes); uniform(it, "MPI_Alltoallv"); dtype(it, st, rt); ms.trusted.add("MPI_Alltoallv")
        k = any_rank(ctx); n, o, m, q = counts(it, sc, k, "counts"), counts(it, sd, k, "displacements"), counts(it, rc, k, "counts"), counts(it, rd, k, "displacements")
        # what process k sends to this one: sc_k[rank]; what this one expects from k: rc[k].  swap(rank, k) of the first
        sw = ren_ip(ren_ip(ren_ip(n, RK, IPoly.atom("tmp@")), next(iter(k.t))[0], rank), "tmp@", k)
        ctx.oblig("MPI_Alltoallv: process k sends as many elements as this one expects from it", ctx.ieq(sw, m), "sends %r, expected %r" % (sw, m))
        for p, mu in partof(ctx, n, k):
            if mentions_ip(mu, next(iter(k.t))[0]): continue
            ctx.oblig("MPI_Alltoallv: what is sent to process k is its part", ctx.ieq(o, p.offset(k) * mu), "starts at %r instead of %r" % (o, p.offset(k) * mu)); setforms(ctx, p, mu, n, o, k, sc, sd); break
        else: raise Unsupported("counts of MPI_Alltoallv: %r" % n)
        ctx.oblig("MPI_Alltoallv: blocks received one after the other", ctx.ieq(q, m * k), "block %r starts at %r" % (k, q))
        if ctx.ieq(q, m * k) and not mentions_ip(m, next(iter(k.t))[0]): known(rd, lambda j: m * j)
        total = ctx.inorm(p.total * mu); rtot = ctx.inorm(m * nprocs)
        if mentions_ip(m, next(iter(k.t))[0]): raise Unsupported("receive counts")
        if isinstance(rb, Ptr) or isinstance(sb, Ptr): raise Unsupported("buffers")
        ctx.require("MPI_Alltoallv: the receive buffer holds %r elements" % rtot, z3.And(ctx.zi(rb.off) >= 0, ctx.zi(rb.off + rtot) <= ctx.zi(rb.buf.size)))
        ctx.require("MPI_Alltoallv: the send buffer holds %r elements" % total, z3.And(ctx.zi(sb.off) >= 0, ctx.zi(sb.off + total) <= ctx.zi(sb.buf.size)))
        X, sh = M.flat_read(ctx, sb, total); sz = p.size(rank)
        if X is None: raise Unsupported("uninitialised data sent")
        if isinstance(X, Fill): X = ctx.fillterm(sb.buf, X.v, mu, p.total)
        if ctx.ieq(mu, 1) and ctx.ieq(X.c, 1): cut = lambda k: p.sel(rank).op("T").mul(on(ctx, X, k))
        elif ctx.ieq(X.r, mu) and ctx.ieq(X.c, p.total): cut = lambda k: on(ctx, X, k).mul(p.sel(rank))
        else: raise Unsupported("layout of the data sent")
        rb = ctx.seg(rb, m, nprocs, m, True)
        if not (ctx.ieq(rb.off, 0) and ctx.ieq(rb.buf.size, rtot)): raise Unsupported("blocks inside a larger receive buffer")
        def blk(c, off):
            off = c.inorm(off)
            for kk, rel in list(off.divs(m)) + [(IPoly.const(0), off)]:
                if c.ile(0, kk) and c.ile(kk + 1, nprocs) and c.ile(0, rel) and c.ile(rel, m): other(c, kk); return c.mnorm(cut(kk)), rel
            return None
        rb.buf.setc(Ragged(blk)); return ip(0)
    @d("MPI_Allreduce")
    def allreduce(it, f, this, nodes, e):
        ctx = it.ctx; sb, rb, n, ty, op, comm = vals(it, nodes); uniform(it, "MPI_Allreduce"); dtype(it, ty); ms.trusted.add("MPI_Allreduce")
        op = handle(op)
        if not (isinstance(op, Opaque) and op.what == "mpi sum"): raise Unsupported("reduction %r" % (op,))
        if not (isinstance(sb, Opaque) and sb.what == "address 1"): raise Unsupported("MPI_Allreduce not in place")
        n = ctx.inorm(it.toint(n)); k = any_rank(ctx)
        ctx.oblig("MPI_Allreduce: every process gives as many elements", ctx.ieq(ren_ip(n, RK, k), n), "%r" % n)
        ctx.require("MPI_Allreduce: the buffer holds %r elements" % n, z3.And(ctx.zi(rb.off) >= 0, ctx.zi(rb.off + n) <= ctx.zi(rb.buf.size)))
        X, sh = M.flat_read(ctx, rb, n)
        if X is None or isinstance(X, Fill): 
            if isinstance(X, Fill) and ctx.mzero(X.v): return ip(0)
            raise Unsupported("reduction of uninitialised data")
        M.flat_write(ctx, rb, n, gather(ctx, X)); return ip(0)
