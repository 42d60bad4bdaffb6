"""Contracts and the per-function verification driver."""
import time, traceback, z3
from .terms import *
from .engine import *
from . import models as M
from .interp import Interp, Frame, FreeMark
from .loops import subst_atoms

class Spec:
    """one evaluation of a contract.  mode 'verify': requires are assumed; mode 'call': requires are obligations"""
    def __init__(s, it, mode, name): s.it = it; s.ctx = it.ctx; s.mode = mode; s.name = name; s.ret = None; s.dontcare = set(); s.postchecks = []
    def req(s, label, c):
        if s.mode == "verify": 
            if isinstance(c, bool): 
                if not c: raise PathEnd("precondition false")
            else: s.ctx.learn(c)
        else: s.ctx.require("%s: precondition: %s" % (s.name, label), c)
    def req_eq(s, label, a, b):
        if s.mode == "verify": s.ctx.assume_eq(a, b)
        else: s.ctx.require("%s: precondition: %s" % (s.name, label), s.ctx.ieq(a, b) or s.ctx.zi(ip(a)) == s.ctx.zi(ip(b)))
    def char(s, cell, cands, what):
        """the argument is one of cands"""
        v = s.ctx.concretize(cell.get(), [ord(x) for x in cands], what)
        if v is None:
            if s.mode == "verify": raise PathEnd("precondition false")
            s.ctx.oblig("%s: precondition: %s in %s" % (s.name, what, cands), False, "path: " + " & ".join(s.ctx.trace[-8:])); raise PathEnd("bad char")
        if s.mode == "call": s.ctx.oblig("%s: precondition: %s in %s" % (s.name, what, cands), True)
        return chr(v)
    def scalar(s, cell):
        """scalar argument as a coefficient"""
        sp = s.it.spure(s.it.toscal(cell.get() if hasattr(cell, "get") else cell))
        if sp is None: raise Unsupported("coefficient taken from a matrix entry")
        return s.ctx.snorm(sp)
    def view(s, p, m, n, ld=None):
        if isinstance(p, Cell) or isinstance(p, Tmp): p = p.get()
        if isinstance(p, Ptr) and p.cell is None:
            s.ctx.require("null pointer only for empty data", z3.Or(s.ctx.zi(ip(m)) <= 0, s.ctx.zi(ip(n)) <= 0)); return MTerm.zero(m, n)
        return s.ctx.view(p, ip(m), ip(n), ip(m) if ld is None else ip(ld))
    def write(s, p, m, n, new, ld=None):
        if isinstance(p, Cell) or isinstance(p, Tmp): p = p.get()
        if isinstance(p, Ptr) and p.cell is None:
            s.ctx.require("null pointer only for empty data", z3.Or(s.ctx.zi(ip(m)) <= 0, s.ctx.zi(ip(n)) <= 0)); return
        s.ctx.write_view(p, ip(m), ip(n), ip(m) if ld is None else ip(ld), s.ctx.mnorm(new))

class Contract:
    def __init__(s, name, mk, spec, pred=None, title=None, inline_at_calls=False, verify=True, budget=60, only=None, aux=None):
        s.name = name; s.mk = mk; s.spec = spec; s.pred = pred; s.title = title or name; s.inline_at_calls = inline_at_calls; s.verify = verify; s.budget = budget; s.aux = aux; s.only = only

class Contracts:
    def __init__(s, *mods):
        s.by = {}
        for m in mods:
            for c in m: s.by.setdefault(c.name, []).append(c)
    def find(s, f):
        for c in s.by.get(base_name(f["qn"]), []):
            if c.pred is None or c.pred(f): return c
        return None
    def for_call(s, ctx, d):
        if not d.get("qn"): return None
        c = s.find(d)
        return None if c is None or c.inline_at_calls else c
    def apply(s, it, c, d, this, args):
        it.ctx.called.add(d["qn"] + sigof(d))
        if not c.verify: it.ctx.assumed_contracts.add(c.title)
        sp = Spec(it, "call", c.title)
        c.spec(sp, d, this, args)
        return sp.ret
    def apply_ctor(s, it, c, d, t, args):
        it.ctx.called.add(d["qn"] + sigof(d)); sp = Spec(it, "call", c.title)
        if not c.verify: it.ctx.assumed_contracts.add(c.title)
        c.spec(sp, d, None, args); return sp.ret

def sigof(d): return "(" + ",".join(p["t"] for p in d["p"]) + ")"

# ------------------------------------------------------------------ comparison of values
def same(it, a, b, what="value", depth=0):
    """(equal, detail)"""
    c = it.ctx
    if a is b: return True, ""
    if isinstance(a, (Cell, Tmp, ElemRef)): a = a.get()
    if isinstance(b, (Cell, Tmp, ElemRef)): b = b.get()
    if isinstance(a, bool) and isinstance(b, IPoly): a = ip(int(a))
    if isinstance(b, bool) and isinstance(a, IPoly): b = ip(int(b))
    if isinstance(a, IPoly) and isinstance(b, IPoly):
        return (True, "") if c.ieq(a, b) else (False, "%s: %r instead of %r" % (what, c.inorm(a), c.inorm(b)))
    if (isinstance(a, bool) or z3.is_bool(a)) and (isinstance(b, bool) or z3.is_bool(b)):
        za = z3.BoolVal(a) if isinstance(a, bool) else a; zb = z3.BoolVal(b) if isinstance(b, bool) else b
        return (True, "") if c.prove(za == zb) else (False, "%s: %s instead of %s" % (what, a, b))
    if isinstance(a, MTerm) and isinstance(b, MTerm):
        ok, d = c.meq(a, b); ok = ok or c.empty(a.r, a.c)
        return (ok, "" if ok else "%s: actual - expected = %r" % (what, d))
    if isinstance(a, BPtr) and isinstance(b, BPtr):
        if a.buf is b.buf: return same(it, a.off, b.off, what + " offset")
        return same(it, a.buf, b.buf, what)
    if isinstance(a, Buf) and isinstance(b, Buf):
        ok, d = same(it, a.size, b.size, what + " size")
        if not ok: return ok, d
        return same_content(it, a, a.content, b.content, what)
    if isinstance(a, IBuf) and isinstance(b, IBuf):
        ok, d = same(it, a.size, b.size, what + " size")
        if not ok: return ok, d
        return same_arr(it, a.arr, b.arr, a.size, what)
    if isinstance(a, Vec) and isinstance(b, Vec): return same(it, a.buf, b.buf, what)
    if isinstance(a, PyVec) and isinstance(b, PyVec):
        if len(a.items) != len(b.items): return False, "%s: %d elements instead of %d" % (what, len(a.items), len(b.items))
        for i, (x, y) in enumerate(zip(a.items, b.items)):
            ok, d = same(it, x.get(), y.get(), "%s[%d]" % (what, i), depth + 1)
            if not ok: return ok, d
        return True, ""
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.cell is None or b.cell is None: return (a.cell is None and b.cell is None), "%s: null / non null" % what
        if a.cell is b.cell: return True, ""
        return same(it, a.cell.get(), b.cell.get(), "*" + what, depth + 1)
    if isinstance(a, Obj) and isinstance(b, Obj):
        if strip(a.t) != strip(b.t): return False, "%s: type" % what
        if depth > 6: return True, ""
        for n in list(b.f):
            if n not in a.f: continue
            ok, d = same(it, a.f[n].get(), b.f[n].get(), what + "." + n, depth + 1)
            if not ok: return ok, d
        return True, ""
    if isinstance(b, Opaque) and b.what == "any": return True, ""
    if isinstance(a, Ptr) and a.cell is None and isinstance(b, BPtr): return (c.ieq(b.buf.size, 0), "%s: null instead of a buffer" % what)
    if type(a) is type(b) and isinstance(a, Opaque): return True, ""
    if a is None and b is None: return True, ""
    return False, "%s: %r instead of %r" % (what, a, b)
def same_arr(it, x, y, size, what):
    c = it.ctx
    if x.eq(y): return True, ""
    i = z3.Int("i!cmp")
    ok = c.prove(z3.Implies(z3.And(i >= 0, i < c.zi(size)), z3.Select(x, i) == z3.Select(y, i)))
    return ok, "" if ok else "%s: integer contents differ" % what
def same_content(it, buf, x, y, what):
    c = it.ctx
    if isinstance(y, Fill) and y.v is None: return True, ""
    if isinstance(x, Fill) and isinstance(y, Fill):
        if x.v is None: return (c.ieq(buf.size, 0), "%s: uninitialised contents" % what)
        return same(it, x.v, y.v, what)
    if isinstance(x, Fill): x = c.fillterm(buf, x.v, y.r, y.c)
    if isinstance(y, Fill): y = c.fillterm(buf, y.v, x.r, x.c)
    if not (c.ieq(x.r, y.r) and c.ieq(x.c, y.c)):
        if c.ieq(x.r * x.c, 0) and c.ieq(y.r * y.c, 0): return True, ""
        xv, yv = (c.ieq(x.r, 1) or c.ieq(x.c, 1)), (c.ieq(y.r, 1) or c.ieq(y.c, 1))
        if xv and yv: x = x.op("T")
        else: return False, "%s: layout %r x %r instead of %r x %r" % (what, c.inorm(x.r), c.inorm(x.c), c.inorm(y.r), c.inorm(y.c))
    ok, d = c.meq(x, y); ok = ok or c.empty(x.r, x.c)
    return ok, "" if ok else "%s: actual - expected = %r" % (what, d)

# ------------------------------------------------------------------ verification of one function
class Result:
    def __init__(s, f, title): s.f = f; s.qn = f["qn"]; s.title = title; s.status = "?"; s.obls = []; s.paths = 0; s.completed = 0; s.secs = 0; s.solver = 0; s.calls = 0; s.inlined = set(); s.called = set(); s.assumed = set(); s.reason = ""; s.partial = []; s.notes = []
    def failed(s): return [o for o in s.obls if o.status == "failed"]
    def opened(s): return [o for o in s.obls if o.status == "open"]

def snapshot_value(o):
    if isinstance(o, Cell): return o.v
    if isinstance(o, Buf): return o.content
    if isinstance(o, IBuf): return o.arr
    return None

def verify(prog, contracts, models, con, f, real, budget=None, maxpaths=4000, work=None, slice=None, cuts=()):
    """explores the paths of f below the decision prefixes in work; with slice, stops after that many seconds and leaves the
    prefixes not yet explored in r.rest"""
    r = Result(f, con.title); t0 = time.time(); deadline = t0 + (budget or con.budget)
    work = [[]] if work is None else list(work); seen = 0; undecided = []; r.rest = []; cuts = set(cuts); r.cuts = cuts
    while work:
        if slice and r.paths and time.time() > t0 + slice: r.rest = work; break
        dec = work.pop()
        if time.time() > deadline: undecided.append("time budget"); break
        r.paths += 1
        if r.paths > maxpaths: undecided.append("path budget"); break
        ctx = Ctx(prog, contracts, dec, real, f["unit"], models); ctx.deadline = deadline; ctx.cuts = cuts; it = Interp(ctx); it.fr = Frame({"file": f.get("file", ""), "qn": f["qn"], "rt": f.get("rt", "void"), "p": []})
        try:
            done = one_path(ctx, it, con, f)
            r.completed += 1 if done else 0
        except PathEnd as e: pass
        except Unsupported as e: undecided.append("%s [%s]" % (e, ctx.where))
        except Budget as e: undecided.append("budget: %s" % e)
        except (Return, Break, Continue) as e: undecided.append("control flow")
        except z3.Z3Exception as e: undecided.append("z3: %s" % str(e)[:100])
        except RecursionError: undecided.append("recursion")
        except (KeyError, AttributeError, TypeError, AssertionError, IndexError, ValueError, StopIteration, ZeroDivisionError) as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            undecided.append("internal: %s %s at %s:%s [%s]" % (type(e).__name__, e, tb.filename.split("/")[-1], tb.lineno, ctx.where))
        work += ctx.newbranches
        r.obls += ctx.obls; r.solver += ctx.ztime; r.calls += ctx.solver_calls; r.inlined |= ctx.inlined; r.called |= ctx.called; r.assumed |= ctx.assumed_contracts; r.notes += [n for n in ctx.notes if n not in r.notes]
    undecided += ["not decided: %s -- %s" % (o.label, o.detail[:300]) for o in r.opened()[:3]]
    r.secs = time.time() - t0; r.partial = sorted(set(undecided))
    finish(r, undecided)
    return r
def finish(r, undecided):
    fails = r.failed()
    if fails: r.status = "refuted"; r.reason = fails[0].label + " -- " + fails[0].detail
    elif undecided: r.status = "undecided"; r.reason = "; ".join(r.partial[:4])
    elif not r.completed: r.status = "undecided"; r.reason = "no path completes (vacuous)"
    elif not r.obls: r.status = "undecided"; r.reason = "no obligation generated"
    else: r.status = "proved"

def one_path(ctx, it, con, f):
    this, args = con.mk(it, f)
    jp = len(ctx.journal); mark = ctx.serial
    sp = Spec(it, "verify", con.title); sp.jp = jp
    con.spec(sp, f, this, args)
    exp_ret = sp.ret
    touched = {}
    for o, _ in ctx.journal[jp:]:
        if isinstance(o, (Cell, Buf, IBuf)): touched[id(o)] = o
    expected = {i: snapshot_value(o) for i, o in touched.items()}
    # undo the effect of the specification (keep what was learnt)
    rest = []
    for o, v in reversed(ctx.journal[jp:]):
        if isinstance(o, (Cell, Buf, IBuf, FreeMark)): o.restore(v)
    del ctx.journal[jp:]
    for p, a in zip(f["p"], args): it.fr.env[p["id"]] = a
    it.fr.env.clear()
    if f.get("ctor"):
        t = strip(f["cls"]); o = Obj(ctx, t, "this")
        if f.get("defaulted") and "b" not in f: raise Unsupported("defaulted constructor")
        it.run_ctor(f, o, args); ret = o
    else:
        ctx.callstack.append(f)
        it.fr = Frame(f, this.get() if this is not None else None); it.fr.thislv = this; it.bind(f, args)
        try: it.stmt(f["b"]); ret = None
        except Return as x: ret = x.v
        except ThrowEx: 
            if sp.ctx.trace is not None and getattr(sp, "may_throw", True): return False
            raise
        ctx.callstack.pop()
    ctx.where = "%s:%s (exit)" % (f.get("file", "?"), f.get("l"))
    for o, _ in ctx.journal[jp:]:
        if isinstance(o, (Cell, Buf, IBuf)) and (o.sn <= mark or any(a < o.sn <= b for a, b in ctx.lazyr)): touched.setdefault(id(o), o)
        if isinstance(o, FreeMark) and o.buf.sn <= mark and o.buf.freed and id(o.buf) not in sp.dontcare: sp_freed(ctx, o.buf, sp)
    first = {}
    for o, v in ctx.journal[jp:]:
        if isinstance(o, (Cell, Buf, IBuf)) and id(o) not in first: first[id(o)] = v
    argcells = {id(a) for a in args if isinstance(a, Cell)}
    byval = {id(a) for p, a in zip(f["p"], args) if isinstance(a, Cell) and not is_ref(p["t"])}
    for i, o in touched.items():
        if i in byval or i in sp.dontcare: continue
        if isinstance(o, Buf) and o.freed: continue
        want = expected[i] if i in expected else first[i]
        got = snapshot_value(o)
        what = ("contents of %s" if isinstance(o, (Buf, IBuf)) else "%s") % o.name
        if isinstance(o, Buf): ok, d = same_content(it, o, got, want, what)
        elif isinstance(o, IBuf): ok, d = same_arr(it, got, want, o.size, what) if not isinstance(want, Opaque) else (True, "")
        else: ok, d = same(it, got, want, what)
        label = ("postcondition: %s" if i in expected else "frame: %s is not modified") % what
        ctx.oblig(label, ok, d + " | path: " + " & ".join(ctx.trace[-14:]), "normal-form")
    if exp_ret is not None:
        ok, d = same(it, ret, exp_ret, "result")
        ctx.oblig("postcondition: returned value", ok, d + " | path: " + " & ".join(ctx.trace[-14:]), "normal-form")
    for label, fn in sp.postchecks:
        ok, d = fn(it, ret)
        ctx.oblig("postcondition: " + label, ok, d + " | path: " + " & ".join(ctx.trace[-14:]), "normal-form")
    return True
def sp_freed(ctx, buf, sp):
    if buf.ghost.get("may_free"): return
    ctx.oblig("frame: %s is not released" % buf.name, False, "deleted by the function", "normal-form")
