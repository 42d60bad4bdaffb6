"""Contracts of the cluster tree (include/htool/clustering)."""
import z3
from ..terms import *
from ..engine import *
from .. import models as M
from ..contract import Contract, Spec, same
from .dense import shape_ptr, H, num, mk_ptr, mk_int
C = []
CT = "htool::Cluster<double>"; TD = "htool::ClusterTreeData<double>"
def mk_cluster(it, name, parts=True):
    """a cluster of a cluster tree whose permutation maps the range of the cluster onto itself, as it does for the root and,
    when the permutation is local, for the clusters of the partition"""
    ctx = it.ctx; o = Obj(ctx, CT, name); f = o.f
    off = ctx.fint(name + ".offset", 0); sz = ctx.fint(name + ".size", 0); N = ctx.fint(name + ".total", 0); ctx.assume((off + sz).z() <= N.z())
    f["m_offset"] = Cell(ctx, off, "int", name + ".m_offset"); f["m_size"] = Cell(ctx, sz, "int", name + ".m_size")
    f["m_depth"] = Cell(ctx, ctx.fint(name + ".depth", 0), "unsigned int", name + ".m_depth"); f["m_is_root"] = Cell(ctx, z3.Bool(name + ".is_root"), "bool", name + ".m_is_root")
    f["m_counter"] = Cell(ctx, ctx.fint(name + ".counter", 0), "int", name + ".m_counter"); f["m_rank"] = Cell(ctx, ctx.fint(name + ".rank", -1), "int", name + ".m_rank")
    arr = z3.Array("perm_" + name, z3.IntSort(), z3.IntSort()); pb = IBuf(ctx, N, arr, name + ".perm")
    pb.ghost["stable"] = [("P{%s}" % name, off, sz)]; o.ghost["perm"] = pb
    td = Obj(ctx, TD, name + ".data")
    td.f["m_permutation"] = Cell(ctx, Ptr(Cell(ctx, Vec(ctx, pb, "int"), "std::vector<int>", name + ".permutation")), "std::shared_ptr<std::vector<int>>", name + ".m_permutation")
    td.f["m_is_permutation_local"] = Cell(ctx, z3.Bool(name + ".is_permutation_local"), "bool", name + ".m_is_permutation_local")
    if parts:
        n = ctx.fint(name + ".parts", 1)
        def elem(k):
            nm = "%s.part<%r>" % (name, ctx.inorm(ip(k))); p = Obj(ctx, CT, nm); po, ps = IPoly.atom(nm + ".offset"), IPoly.atom(nm + ".size")
            p.f["m_offset"] = Cell(ctx, po, "int", nm + ".m_offset"); p.f["m_size"] = Cell(ctx, ps, "int", nm + ".m_size"); p.f["m_depth"] = Cell(ctx, IPoly.atom(nm + ".depth"), "unsigned int", nm + ".m_depth")
            ctx.assume(z3.And(po.z() >= 0, ps.z() >= 0, (po + ps).z() <= ctx.zi(N)))
            return Cell(ctx, Ptr(Cell(ctx, p, CT, nm)), "const %s *" % CT, nm)
        td.f["m_clusters_on_partition"] = Cell(ctx, AbsList(ctx, "std::vector<const %s *>" % CT, name + ".clusters_on_partition", n, elem), "std::vector<const %s *>" % CT, name + ".m_clusters_on_partition")
    f["m_tree_data"] = Cell(ctx, Ptr(Cell(ctx, td, TD, name + ".data")), "std::shared_ptr<%s>" % TD, name + ".m_tree_data")
    return Cell(ctx, o, CT, name)
def fld(c, n): return c.get().field(n).get()
def mk(it, f):
    a = []
    for p in f["p"]:
        t = strip(p["t"]); nm = p["n"]
        if t.startswith("htool::Cluster<"): a.append(mk_cluster(it, nm))
        elif t == "int": a.append(mk_int(it, nm))
        else: a.append(mk_ptr(it, nm))
    return None, a
def P(ctx, name, n): return MTerm.of(Atom("perm", name, n, n, real=True))
def renumber(s, c, inp, out, fwd, name, n):
    """out := P in (from the numbering of the tree to the user's) or P^T in, P the permutation matrix of the tree on the range"""
    ctx = s.ctx; shape_ptr(s, inp, n, 1); shape_ptr(s, out, n, 1)
    x = s.view(inp, n, 1, n); s.write(out, n, 1, P(ctx, name, n).op("N" if fwd else "T").mul(x), n)
for nm, fwd in (("root_cluster_to_global", True), ("global_to_root_cluster", False), ("cluster_to_user", True), ("user_to_cluster", False)):
    C.append(Contract(H + nm, mk, (lambda s, f, this, a, fwd=fwd: renumber(s, a[0], a[1], a[2], fwd, "P{%s}" % a[0].get().name, fld(a[0], "m_size"))), title=H + nm))
def local(s, f, this, a, fwd):
    """the same on the range of the index-th cluster of the partition, which a local permutation maps onto itself"""
    ctx = s.ctx; td = fld(a[0], "m_tree_data").cell.get(); L = td.f["m_clusters_on_partition"].get(); i = a[1].get()
    s.req("index of a cluster of the partition", z3.And(ctx.zi(i) >= 0, ctx.zi(i) < ctx.zi(L.length)))
    p = L.at(i).get().cell.get(); pb = a[0].get().ghost["perm"]; nm = "P{%s}" % p.name
    if s.mode == "verify": pb.ghost["stable"] = [(nm, p.f["m_offset"].get(), p.f["m_size"].get())]
    renumber(s, a[0], a[2], a[3], fwd, nm, p.f["m_size"].get())
for nm, fwd in (("local_cluster_to_local", True), ("local_to_local_cluster", False)):
    C.append(Contract(H + nm, mk, (lambda s, f, this, a, fwd=fwd: local(s, f, this, a, fwd)), title=H + nm))

# ---- the partition made from a cluster tree
PC = H + "PartitionFromCluster::"
def mk_part(it, f):
    ctx = it.ctx; t = strip(f["cls"]); o = Obj(ctx, t, "this"); c = mk_cluster(it, "root"); o.f["m_root_cluster"] = c
    _, a = mk(it, f); return Cell(ctx, o, t, "this"), a
def root(this): return this.get().f["m_root_cluster"]
def whole(s, f, this, a, fwd): c = root(this); renumber(s, c, a[0], a[1], fwd, "P{%s}" % c.get().name, fld(c, "m_size"))
C.append(Contract(PC + "global_to_partition_numbering", mk_part, lambda s, f, this, a: whole(s, f, this, a, False)))
C.append(Contract(PC + "partition_to_global_numbering", mk_part, lambda s, f, this, a: whole(s, f, this, a, True)))
C.append(Contract(PC + "local_to_local_partition_numbering", mk_part, lambda s, f, this, a: local(s, f, this, [root(this)] + a, False)))
C.append(Contract(PC + "local_partition_to_local_numbering", mk_part, lambda s, f, this, a: local(s, f, this, [root(this)] + a, True)))
def part_get(s, f, this, a, n):
    ctx = s.ctx; L = fld(root(this), "m_tree_data").cell.get().f["m_clusters_on_partition"].get(); i = a[0].get()
    s.req("number of a subdomain", z3.And(ctx.zi(i) >= 0, ctx.zi(i) < ctx.zi(L.length))); s.ret = L.at(i).get().cell.get().f[n].get()
C.append(Contract(PC + "get_size_of_partition", mk_part, lambda s, f, this, a: part_get(s, f, this, a, "m_size")))
C.append(Contract(PC + "get_offset_of_partition", mk_part, lambda s, f, this, a: part_get(s, f, this, a, "m_offset")))
def _gsz(s, f, this, a): s.ret = fld(root(this), "m_size")
C.append(Contract(PC + "get_global_size", mk_part, _gsz))
def _loc(s, f, this, a): s.ret = fld(root(this), "m_tree_data").cell.get().f["m_is_permutation_local"].get()
C.append(Contract(PC + "is_renumbering_local", mk_part, _loc))
