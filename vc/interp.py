"""Interpreter of the JSON AST over symbolic values."""
import z3
from fractions import Fraction
from .terms import *
from .engine import *

class Frame:
    def __init__(s, f, this=None): s.f = f; s.env = {}; s.this = this

def trunc_w(s): return str(s)[:200]

def logonly(n):
    """an if without else whose body only writes to the log and whose condition changes nothing here: nothing a contract mentions depends on it"""
    if "logonly" in n: return n["logonly"]
    def pure(e):
        if isinstance(e, list): return all(pure(x) for x in e)
        if not isinstance(e, dict): return True
        if e.get("k") in ("Assign", "CAssign", "Lambda", "New", "Delete") or (e.get("k") == "Un" and e.get("op") in ("++", "--")): return False
        return all(pure(v) for k, v in e.items() if k != "f")
    def logs(a):
        if a is None: return False
        if a["k"] == "Block": return bool(a["b"]) and all(logs(x) or x["k"] == "Null" for x in a["b"]) and any(logs(x) for x in a["b"])
        return a["k"] == "Expr" and a["e"].get("k") == "MCall" and a["e"]["f"].get("qn") == "htool::Logger::log" and pure(a["e"]["a"])
    r = not n.get("b") and not n.get("init") and not n.get("cv") and logs(n["a"]) and pure(n["c"])
    n["logonly"] = r
    return r
class Interp:
    def __init__(self, ctx): self.ctx = ctx; self.fr = None
    # ------------------------------------------------------------ statements
    def block(self, n):
        for s in n["b"]: self.stmt(s)
    def stmt(self, n):
        if n is None: return
        ctx = self.ctx; ctx.steps += 1
        if ctx.steps > ctx.MAXSTEPS: raise Budget("steps")
        if ctx.deadline and (ctx.steps & 63) == 0:
            import time
            if time.time() > ctx.deadline: raise Budget("deadline")
        k = n["k"]
        if k == "Block": return self.block(n)
        ctx.where = "%s:%s" % (self.fr.f.get("file", "?"), n.get("l")) if self.fr.f.get("file") else ctx.where
        if k == "Expr": self.rval(n["e"], discard=True); return
        if k == "Decl":
            for d in n["d"]: self.decl(d)
            return
        if k == "If":
            if n.get("init"): self.stmt(n["init"])
            if n.get("cv"): self.stmt(n["cv"])
            if logonly(n): return
            if ctx.branch(self.cond(n["c"])): self.stmt(n["a"])
            elif n.get("b"): self.stmt(n["b"])
            return
        if k == "Return":
            if "e" in n and n["e"] is not None:
                rt = self.fr.f.get("rt", "")
                raise Return(self.lval(n["e"]) if is_ref(rt) else self.rval(n["e"]))
            raise Return(None)
        if k in ("For", "While", "RangeFor", "Do"):
            from .loops import loop
            return loop(self, n)
        if k == "Break": raise Break()
        if k == "Continue": raise Continue()
        if k == "Null": return
        if k == "Try": return self.stmt(n["b"])
        if k == "Switch": return self.switch(n)
        if k == "OMP": return self.omp(n)
        if k in ("Case", "Default"): return self.stmt(n["b"])
        raise Unsupported("statement %s" % n.get("w", k))
    def switch(self, n):
        v = self.rval(n["c"])
        body = n["b"]["b"]
        flat = []
        for s in body:
            while s and s["k"] in ("Case", "Default"):
                flat.append(("lab", s)); s = s["b"]
            flat.append(("st", s))
        pick = None
        for i, (a, s) in enumerate(flat):
            if a == "lab" and s["k"] == "Case":
                if self.ctx.branch(self.ctx.zi(v) == self.ctx.zi(self.rval(s["v"]))): pick = i; break
        if pick is None:
            for i, (a, s) in enumerate(flat):
                if a == "lab" and s["k"] == "Default": pick = i
        if pick is None: return
        try:
            for a, s in flat[pick:]:
                if a == "st": self.stmt(s)
        except Break: pass
    def omp(self, n):
        ctx = self.ctx; d = n["d"]
        from .loops import omp_directive
        return omp_directive(self, n)
    def decl(self, d):
        ctx = self.ctx; t = d["t"]
        if d.get("static"):
            if d["id"] in ctx.statics: self.fr.env[d["id"]] = ctx.statics[d["id"]]; return
        if is_ref(t):
            self.fr.env[d["id"]] = self.lval(d["init"]); return
        if "init" in d and d["init"] is not None: v = self.rval(d["init"])
        else: v = self.default(t, d["n"])
        v = self.own(v)
        if isinstance(v, (Obj,)) and v.name in ("?", "tmp"): v.name = d["n"]
        if isinstance(v, Vec) and isinstance(v.buf, (Buf, IBuf)) and v.buf.name == "vec": v.buf.name = d["n"]
        c = Cell(ctx, v, t, d["n"]); self.fr.env[d["id"]] = c
        if d.get("static"): ctx.statics[d["id"]] = c
    def own(self, v): return v
    def default(self, t, name="?"):
        """uninitialised local"""
        s = strip(t)
        if s in SCALARS: return self.ctx.scal(self.ctx.fresh("uninit_" + name))
        if s in INTS or s in self.ctx.prog.enums:
            return IPoly.atom(self.ctx.fresh("uninit_" + name)) if s != "bool" else z3.Bool(self.ctx.fresh("uninit_" + name))
        if s.endswith("*"): return Opaque("uninit pointer")
        return self.zeroinit(t)
    def zeroinit(self, t):
        s = strip(t)
        if s in SCALARS: return self.ctx.const(0)
        if s == "bool": return False
        if s in INTS or s in self.ctx.prog.enums: return IPoly.const(0)
        if s.endswith("*"): return NULL
        m = self.ctx.models.default_ctor(self, s)
        if m is not None: return m
        if s in self.ctx.prog.records:
            o = Obj(self.ctx, s); self.init_fields(o, s, None, zero=True); return o
        raise Unsupported("value init of %s" % s)
    # ------------------------------------------------------------ conditions
    def cond(self, e):
        v = self.rval(e)
        return self.tobool(v)
    def tobool(self, v):
        ctx = self.ctx
        if isinstance(v, bool) or z3.is_bool(v): return v
        if isinstance(v, IPoly):
            v = ctx.inorm(v)
            if v.is_const(): return v.cval() != 0
            return v.z() != 0
        if isinstance(v, Ptr): return v.cell is not None
        if isinstance(v, BPtr): return True
        if isinstance(v, SymPtr): return z3.Not(v.isnull)
        if isinstance(v, MTerm): return self.cmp("!=", v, ctx.const(0))
        raise Unsupported("condition value %r" % (v,))
    # ------------------------------------------------------------ lvalues
    def lval(self, e):
        ctx = self.ctx; k = e["k"]
        if k == "Ref":
            if e["id"] in self.fr.env: return self.fr.env[e["id"]]
            if e.get("glob"):
                if "cv" in e: return Tmp(IPoly.const(int(e["cv"])))
                return ctx.models.global_var(self, e)
            raise Unsupported("unbound variable %s" % e["n"])
        if k == "Field":
            o = self.objof(e["b"], e.get("arrow"))
            m = ctx.models.field(self, o, e["n"])
            if m is not None: return m
            if not isinstance(o, Obj): raise Unsupported("field %s of %r" % (e["n"], o))
            c = o.field(e["n"])
            if is_ref(getattr(c, "t", "")) and isinstance(c.v, (Cell, ElemRef, Tmp)): return c.v
            return c
        if k == "Un" and e["op"] == "*":
            return self.deref(self.rval(e["e"]))
        if k == "Un" and e["op"] in ("++", "--") and not e["post"]:
            c = self.lval(e["e"]); c.set(self.binop("+" if e["op"] == "++" else "-", c.get(), IPoly.const(1))); return c
        if k == "Index":
            p = self.rval(e["b"]); i = self.rval(e["i"])
            return self.deref(self.ptradd(p, i))
        if k == "Cond":
            return self.lval(e["a"]) if ctx.branch(self.cond(e["c"])) else self.lval(e["b"])
        if k in ("Assign", "CAssign"): return self.assign(e)
        if k == "Mat": return Tmp(self.rval(e["e"]), e["t"])
        if k == "Cast":
            if e["c"] in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "Dynamic", "ToXValue", "NoOp"): return self.lval(e["e"])
            if e.get("lv") or e.get("xv"): return self.lval(e["e"])
        if k in ("OpCall", "MCall", "Call", "PMCall"):
            r = self.call(e, want_l=True)
            if isinstance(r, (Cell, ElemRef, Tmp)) or getattr(r, "lvalue", False): return r
            return Tmp(r, e["t"])
        if k == "Bin" and e["op"] == ",":
            self.rval(e["a"]); return self.lval(e["b"])
        if k == "This": return Tmp(Ptr(Tmp(self.fr.this)))
        if k == "Load": return self.lval(e["e"])
        return Tmp(self.rval(e), e.get("t", "?"))
    def deref(self, p):
        ctx = self.ctx
        if isinstance(p, BPtr): return ElemRef(ctx, p.buf, p.off)
        if isinstance(p, Ptr):
            if p.cell is None:
                ctx.oblig("no null dereference", ctx._check() == z3.unsat, "null pointer dereferenced; path: " + " & ".join(ctx.trace[-12:])); raise PathEnd("null")
            return p.cell
        if isinstance(p, SymPtr):
            ctx.require("pointer not null", z3.Not(p.isnull)); return p.cell
        m = ctx.models.deref(self, p)
        if m is not None: return m
        raise Unsupported("dereference of %r" % (p,))
    def objof(self, b, arrow):
        if arrow:
            return self.deref(self.rval(b)).get()
        v = self.lval(b) if (b.get("lv") or b.get("xv") or b["k"] in ("Ref", "Field", "Mat")) else None
        return v.get() if v is not None else self.rval(b)
    # ------------------------------------------------------------ rvalues
    def rval(self, e, discard=False):
        ctx = self.ctx; k = e["k"]
        if k == "Int":
            if strip(e["t"]) == "bool": return int(e["v"]) != 0
            return IPoly.const(int(e["v"]))
        if k == "Bool": return e["v"]
        if k == "Float": return ctx.const(Fraction(e["v"]))
        if k == "Str": return Opaque("str:" + e["v"])
        if k == "Null": return NULL
        if k == "This": return Ptr(Tmp(self.fr.this))
        if k == "Load":
            v = self.lval(e["e"]).get()
            return v
        if k in ("Ref", "Field", "Index"): return self.lval(e).get()
        if k == "Mat": return self.rval(e["e"])
        if k == "Un": return self.unary(e)
        if k == "Bin":
            op = e["op"]
            if op in ("&&", "||"): return self.logic(e)
            if op == ",": self.rval(e["a"]); return self.rval(e["b"])
            a = self.rval(e["a"]); b = self.rval(e["b"])
            return self.binop(op, a, b, e.get("t"))
        if k in ("Assign", "CAssign"): 
            c = self.assign(e)
            return None if discard else c.get()
        if k == "Cond":
            cv = self.cond(e["c"])
            if isinstance(cv, bool): return self.rval(e["a"] if cv else e["b"])
            if strip(e["t"]) in INTS and self.pure(e["a"]) and self.pure(e["b"]) and strip(e["t"]) != "bool" and False: pass
            return self.rval(e["a"]) if ctx.branch(cv) else self.rval(e["b"])
        if k == "Cast": return self.cast(e)
        if k in ("Call", "MCall", "OpCall", "PMCall"):
            r = self.call(e, want_l=False)
            return r.get() if isinstance(r, (Cell, ElemRef, Tmp)) else r
        if k == "Ctor": return self.ctor(e)
        if k == "Lambda":
            env = {}
            for c in e["caps"]:
                if c.get("this"): continue
                if "init" in c: env[c["id"]] = Cell(ctx, self.rval(c["init"]), "?", c["n"]); continue
                lv = self.fr.env.get(c["id"])
                if lv is None: raise Unsupported("capture %s" % c["n"])
                env[c["id"]] = lv if c.get("ref") else Cell(ctx, lv.get(), "?", c["n"])
            return Closure(e, env, self.fr.this)
        if k == "InitList": return self.initlist(e)
        if k == "StdInitList": return self.rval(e["e"])
        if k == "ValueInit": return self.zeroinit(e["t"])
        if k == "New": return self.new(e)
        if k == "Delete":
            p = self.rval(e["e"])
            if isinstance(p, BPtr):
                if p.buf.ghost.get("foreign"): ctx.oblig("delete[] only of owned storage (%s)" % p.buf.name, False, "buffer not owned by this object; path: " + " & ".join(ctx.trace[-8:])); raise PathEnd("bad delete")
                if p.buf.freed: ctx.oblig("no double delete of %s" % p.buf.name, False, "already deleted; path: " + " & ".join(ctx.trace[-8:])); raise PathEnd("double free")
                if not ctx.ieq(p.off, 0): ctx.oblig("delete[] of the start of %s" % p.buf.name, False)
                fr = FreeMark(p.buf); ctx.journal.append((fr, False)); p.buf.freed = True
            elif isinstance(p, Ptr) and p.cell is None: pass
            elif isinstance(p, Opaque): raise Unsupported("delete of %r" % p)
            return None
        if k == "Throw": raise ThrowEx("throw")
        if k == "FRef": return FnRef(e["f"])
        raise Unsupported("expression %s" % e.get("w", k))
    def simple_cmp(self, e):
        while e["k"] in ("Load", "Mat"): e = e["e"]
        return (e["k"] == "Bin" and e["op"] in ("<", ">", "<=", ">=", "!=")) or (e["k"] == "OpCall" and e.get("f", {}).get("n") in ("operator!=", "operator<"))
    def pure(self, e): return e["k"] in ("Int", "Load", "Ref")
    def initlist(self, e):
        t = strip(e["t"])
        if t in SCALARS or t in INTS:
            return self.rval(e["a"][0]) if e["a"] else self.zeroinit(t)
        if len(e["a"]) == 1 and ("::*" in t or t.endswith("*") or t in self.ctx.prog.enums): return self.rval(e["a"][0])
        if t in self.ctx.prog.records:
            o = Obj(self.ctx, t)
            for f, x in zip(self.ctx.prog.records[t]["fields"], e["a"]): o.f[f["n"]] = Cell(self.ctx, self.rval(x), f["t"], f["n"])
            return o
        return PyVec(self.ctx, t, [Cell(self.ctx, self.rval(x), "?", "il") for x in e["a"]])
    def logic(self, e):
        a = self.cond(e["a"])
        if isinstance(a, bool):
            if e["op"] == "&&": return self.cond(e["b"]) if a else False
            return True if a else self.cond(e["b"])
        # short circuit: evaluate the right side on its own branch when it may have effects or partiality
        if self.simple(e["b"]):
            b = self.cond(e["b"])
            return z3.And(a, b) if e["op"] == "&&" else z3.Or(a, b)
        if self.ctx.branch(a): return self.cond(e["b"]) if e["op"] == "&&" else True
        return False if e["op"] == "&&" else self.cond(e["b"])
    def simple(self, e):
        k = e["k"]
        if k in ("Int", "Bool", "Null", "This", "Float"): return True
        if k == "Ref": return True
        if k == "Load" or k == "Mat": return self.simple(e["e"])
        if k == "Un": return e["op"] in ("!", "-", "+") and self.simple(e["e"])
        if k == "Bin": 
            if e["op"] in ("/", "%"): return False
            return strip(e["a"].get("t", "")) not in SCALARS and self.simple(e["a"]) and self.simple(e["b"])
        if k == "Cast": return self.simple(e["e"])
        if k == "MCall": return not e["a"] and base_name(e["f"]["qn"]).split("::")[-1].startswith(("nb_", "get_size", "get_offset", "size")) and not e["arrow"] and self.simple(e["o"])
        return False
    def unary(self, e):
        ctx = self.ctx; op = e["op"]
        if op == "&":
            x = e["e"]
            lv = self.lval(x)
            if isinstance(lv, ElemRef): return BPtr(lv.buf, lv.off)
            return Ptr(lv)
        if op == "*": return self.lval(e).get()
        if op in ("++", "--"):
            c = self.lval(e["e"]); old = c.get()
            new = self.ptradd(old, IPoly.const(1 if op == "++" else -1)) if isinstance(old, (BPtr,)) else self.binop("+" if op == "++" else "-", old, IPoly.const(1))
            c.set(new); return old if e["post"] else new
        v = self.rval(e["e"])
        if op == "!":
            b = self.tobool(v)
            return (not b) if isinstance(b, bool) else z3.Not(b)
        if op == "-":
            if isinstance(v, IPoly): return -v
            if isinstance(v, MTerm): return v.scale(SPoly.const(-1))
        if op == "+": return v
        raise Unsupported("unary %s on %r" % (op, v))
    def toint(self, v):
        if isinstance(v, bool): return IPoly.const(int(v))
        if z3.is_bool(v): return self.ctx.name_int(z3.If(v, 1, 0))
        return v
    def binop(self, op, a, b, t=None):
        ctx = self.ctx
        if isinstance(a, (BPtr,)) or isinstance(b, BPtr):
            if op == "+" : return self.ptradd(a, b) if isinstance(a, BPtr) else self.ptradd(b, a)
            if op == "-" and isinstance(b, IPoly): return self.ptradd(a, -b)
            if op == "-" and isinstance(b, BPtr) and a.buf is b.buf: return a.off - b.off
            if op in ("==", "!="):
                if not (isinstance(a, BPtr) and isinstance(b, BPtr)): r = False
                elif a.buf is not b.buf: r = False
                else: r = ctx.zi(a.off) == ctx.zi(b.off)
                return r if op == "==" else ((not r) if isinstance(r, bool) else z3.Not(r))
        if isinstance(a, (Ptr, SymPtr)) or isinstance(b, (Ptr, SymPtr)):
            if op in ("==", "!="):
                r = self.ptreq(a, b)
                return r if op == "==" else ((not r) if isinstance(r, bool) else z3.Not(r))
        if isinstance(a, MTerm) or isinstance(b, MTerm):
            if op in ("==", "!=", "<", ">", "<=", ">="): return self.cmp(op, self.toscal(a), self.toscal(b))
            return self.sarith(op, self.toscal(a), self.toscal(b))
        if isinstance(a, (bool,)) or z3.is_bool(a) or isinstance(b, bool) or z3.is_bool(b):
            if op in ("==", "!=") and (isinstance(a, bool) or z3.is_bool(a)) and (isinstance(b, bool) or z3.is_bool(b)):
                if isinstance(a, bool) and isinstance(b, bool): r = a == b; return r if op == "==" else not r
                za = z3.BoolVal(a) if isinstance(a, bool) else a; zb = z3.BoolVal(b) if isinstance(b, bool) else b
                return (za == zb) if op == "==" else (za != zb)
            if op in ("&", "|"):
                za = z3.BoolVal(a) if isinstance(a, bool) else a; zb = z3.BoolVal(b) if isinstance(b, bool) else b
                return z3.And(za, zb) if op == "&" else z3.Or(za, zb)
            a = self.toint(a); b = self.toint(b)
        if isinstance(a, IPoly) and isinstance(b, IPoly):
            if op == "+": return a + b
            if op == "-": return a - b
            if op == "*": return a * b
            if op in ("/", "%"):
                a = ctx.inorm(a); b = ctx.inorm(b)
                if a.is_const() and b.is_const() and b.cval() > 0 and a.cval() >= 0: return IPoly.const(a.cval() // b.cval() if op == "/" else a.cval() % b.cval())
                ctx.require("division by non zero", b.z() != 0)
                for q, r in a.divs(b):
                    if not r.t: return q if op == "/" else IPoly.const(0)
                if not (ctx.prove(a.z() >= 0) and ctx.prove(b.z() > 0)): raise Unsupported("signed division")
                key = ("div", repr(a), repr(b))
                if key not in ctx._named:
                    q = IPoly.atom(ctx.fresh("q")); r = IPoly.atom(ctx.fresh("r"))
                    ctx.assume(z3.And(q.z() >= 0, r.z() >= 0, r.z() < b.z(), a.z() == q.z() * b.z() + r.z(), q.z() <= a.z()))
                    ctx._named[key] = (q, r)
                return ctx._named[key][0 if op == "/" else 1]
            a = ctx.inorm(a); b = ctx.inorm(b); d = a - b
            if d.is_const():
                v = d.cval()
                if op in ("==", "!=", "<", ">", "<=", ">="): return {"==": v == 0, "!=": v != 0, "<": v < 0, ">": v > 0, "<=": v <= 0, ">=": v >= 0}[op]
            za, zb = a.z(), b.z()
            if op == "==": return za == zb
            if op == "!=": return za != zb
            if op == "<": return za < zb
            if op == ">": return za > zb
            if op == "<=": return za <= zb
            if op == ">=": return za >= zb
        m = ctx.models.binop(self, op, a, b)
        if m is not NotImplemented: return m
        raise Unsupported("binary %s on %r, %r" % (op, a, b))
    def ptreq(self, a, b):
        if isinstance(a, BPtr) or isinstance(b, BPtr): 
            if isinstance(a, BPtr) and isinstance(b, BPtr): return a.buf is b.buf and self.ctx.ieq(a.off, b.off)
            return False
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.cell is None or b.cell is None: return a.cell is None and b.cell is None
            if a.cell is b.cell: return True
            x, y = a.cell.get(), b.cell.get()
            return self.objeq(x, y)
        if isinstance(a, SymPtr) and isinstance(b, Ptr) and b.cell is None: return a.isnull
        if isinstance(b, SymPtr) and isinstance(a, Ptr) and a.cell is None: return b.isnull
        raise Unsupported("pointer comparison")
    def objeq(self, x, y):
        if x is y: return True
        if isinstance(x, Obj) and isinstance(y, Obj):
            ia = x.ghost.get("ident"); ib = y.ghost.get("ident")
            if ia is not None and ib is not None: return self.ctx.inorm(ia).z() == self.ctx.inorm(ib).z()
        return False
    def ptradd(self, p, i):
        if isinstance(p, BPtr): return BPtr(p.buf, p.off + ip(self.toint(i)))
        if isinstance(p, Ptr) and p.cell is None and self.ctx.ieq(i, 0): return p
        m = self.ctx.models.ptradd(self, p, i)
        if m is not None: return m
        raise Unsupported("pointer arithmetic on %r" % (p,))
    # ---- scalars
    def toscal(self, v):
        if isinstance(v, MTerm): return v
        if isinstance(v, bool): return self.ctx.const(int(v))
        if isinstance(v, IPoly):
            v = self.ctx.inorm(v)
            r = SPoly({})
            for m, c in v.t.items():
                p = SPoly.const(c)
                for a in m: self.ctx.realscal.add("i:" + a); p = p * SPoly.atom("i:" + a)
                r = r + p
            return MTerm.scalar(r)
        raise Unsupported("not a scalar: %r" % (v,))
    def spure(self, m):
        m = self.ctx.mnorm(m)
        if all(w == () for w in m.t): return m.t.get((), SPoly({}))
        return None
    def sarith(self, op, a, b):
        ctx = self.ctx
        if op == "+": return ctx.mnorm(a.add(b))
        if op == "-": return ctx.mnorm(a.add(b, -1))
        if op == "*":
            return ctx.smul(a, b)
        if op == "/":
            return ctx.smul(a, self.sinv(b))
        raise Unsupported("scalar op " + op)
    def sinv(self, b):
        ctx = self.ctx; s = self.spure(b)
        if s is not None and s.is_const() and s.cval() != 0: return ctx.const(1 / s.cval())
        if s is not None and len(s.t) == 1:
            (m, c), = s.t.items()
            r = SPoly.const(1 / c)
            for n, cj in m: 
                if n in ctx.realscal: ctx.realscal.add("inv:" + n)
                r = r * (SPoly.atom("inv:" + n, cj) if not n.startswith("inv:") else SPoly.atom(n[4:], cj))
            return MTerm.scalar(r)
        nm = "1/(%r)" % (ctx.mnorm(b),)
        return ctx.scal(nm)
    def whole(self, m):
        """the integer that a floating-point number holds, when it is a polynomial of such integers"""
        s = self.spure(m) if isinstance(m, MTerm) else None
        if s is None or s.is_const() or not all(a.startswith("i:") and j == 0 for t in s.t for a, j in t) or not all(getattr(k, "denominator", 1) == 1 for k in s.t.values()): return None
        r = IPoly.const(0)
        for t, k in s.t.items():
            q = IPoly.const(int(k))
            for a, _ in t: q = q * IPoly.atom(a[2:])
            r = r + q
        return self.ctx.inorm(r)
    def cmp(self, op, a, b):
        ctx = self.ctx
        d = ctx.mnorm(a.add(b, -1))
        s = self.spure(d); w = self.whole(d)
        if w is not None:
            z = w.z(); return {"==": z == 0, "!=": z != 0, "<": z < 0, ">": z > 0, "<=": z <= 0, ">=": z >= 0}[op]
        if d.is_zero() : return op in ("==", "<=", ">=")
        if s is not None and s.is_const():
            v = s.cval(); return {"==": v == 0, "!=": v != 0, "<": v < 0, ">": v > 0, "<=": v <= 0, ">=": v >= 0}[op]
        if op in ("==", "!="):
            key = repr(d)
            if key in ctx.nonzero: return op == "!="
            # decide now (fork) so that the knowledge can be used as a substitution
            if ctx.choose(2, "scalar zero") == 0:
                ctx.trace.append("%s != 0" % key[:60]); ctx.nonzero.add(key); ctx.nonzero.add(repr(d.scale(SPoly.const(-1))))
                return op == "!="
            ctx.trace.append("%s == 0" % key[:60])
            if s is not None:
                # solve for an atom
                for m, c in s.t.items():
                    if len(m) == 1 and not any(m[0][0] == n for mm in s.t if mm != m for n, _ in mm):
                        rest = SPoly({mm: -cc / c for mm, cc in s.t.items() if mm != m})
                        ctx.ssub[m[0][0]] = rest.conj(ctx.realscal) if m[0][1] else rest
                        return op == "=="
            else:
                ctx.notes.append("equality of non-polynomial scalars assumed opaque")
            return op == "=="
        k1 = {"<": ("<", repr(d)), ">": ("<", repr(ctx.mnorm(d.scale(SPoly.const(-1))))), ">=": ("!<", repr(d)), "<=": ("!<", repr(ctx.mnorm(d.scale(SPoly.const(-1)))))}[op]
        bv = z3.Bool("lt0:" + k1[1])
        return bv if k1[0] == "<" else z3.Not(bv)
    # ---- casts
    def cast(self, e):
        ctx = self.ctx; c = e["c"]; t = strip(e["t"])
        if c == "ToVoid": self.rval(e["e"], discard=True); return None
        if c == "ArrayToPointerDecay":
            v = self.lval(e["e"]).get()
            if isinstance(v, Opaque): return v
            if isinstance(v, (Buf, IBuf)): return BPtr(v, 0)
            m = ctx.models.decay(self, v)
            if m is not None: return m
            raise Unsupported("array decay")
        v = self.rval(e["e"])
        if c in ("IntegralCast",):
            if t == "bool": return self.tobool(v)
            return self.toint(v)
        if c in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean"): return self.tobool(v)
        if c == "IntegralToFloating": return self.toscal(self.toint(v))
        if c == "FloatingCast": return v
        if c in ("FloatingRealToComplex", "FloatingComplexCast"): return v
        if c == "FloatingToIntegral":
            s = self.spure(v) if isinstance(v, MTerm) else None
            if s is not None and s.is_const(): return IPoly.const(int(s.cval()))
            if s is not None and all(a.startswith("i:") and j == 0 for m in s.t for a, j in m) and all(getattr(k, "denominator", 1) == 1 for k in s.t.values()):      # an integer kept in a floating-point number
                r = IPoly.const(0)
                for m, k in s.t.items():
                    q = IPoly.const(int(k))
                    for a, _ in m: q = q * IPoly.atom(a[2:])
                    r = r + q
                return ctx.inorm(r)
            key = ("f2i", repr(v))
            if key not in ctx._named: ctx._named[key] = IPoly.atom(ctx.fresh("f2i"))
            return ctx._named[key]
        if c == "NullToPointer": return NULL
        if c in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "Dynamic", "ToXValue", "NoOp", "BitCast", "ConstructorConversion", "UserDefinedConversion"): return v
        if c == "IntegralToPointer" and isinstance(v, IPoly) and v.is_const(): return Opaque("address %d" % v.cval())     # MPI_IN_PLACE
        raise Unsupported("cast %s" % c)
    # ---- assignment
    def assign(self, e):
        ctx = self.ctx
        if e["k"] == "Assign":
            if e["op"] != "=": raise Unsupported(e["op"])
            v = self.rval(e["b"]); c = self.lval(e["a"])
        else:
            c = self.lval(e["a"]); b = self.rval(e["b"]); op = e["op"]
            v = self.binop(op, c.get(), b, e.get("ct"))
            if strip(e["t"]) in INTS and isinstance(v, MTerm): raise Unsupported("compound assign to int from scalar")
        if isinstance(c, ElemRef) or not isinstance(v, bool): pass
        if strip(e["t"]) == "bool": v = self.tobool(v)
        self.store(c, v); return c
    def store(self, c, v):
        if isinstance(c, Cell) and self.ctx.par is not None: self.ctx.par.write(self.ctx, c)
        c.set(v)
    # ---- objects
    def new(self, e):
        ctx = self.ctx; nt = strip(e["nt"])
        if e["arr"]:
            n = ctx.inorm(self.rval(e["n"]))
            if nt in SCALARS:
                ini = e.get("init"); zero = ini is not None and ini["k"] in ("ValueInit", "InitList") or (ini is not None and ini.get("k") == "Ctor" and (ini.get("zero") or nt.startswith("std::complex")))
                b = Buf(ctx, n, Fill(ctx.const(0) if zero else None), ctx.fresh("new"), nt); x = e["n"]
                while x.get("k") in ("Cast", "Load", "Mat") and "e" in x: x = x["e"]
                if x.get("k") == "Bin" and x["op"] == "*": b.ghost["shape"] = (self.rval(x["a"]), self.rval(x["b"]))   # a hint: never affects soundness
                return BPtr(b, 0)
            if nt in INTS:
                return BPtr(IBuf(ctx, n, z3.Array(ctx.fresh("newi"), z3.IntSort(), z3.IntSort()), ctx.fresh("newi")), 0)
            raise Unsupported("new %s[]" % nt)
        v = self.rval(e["init"]) if e.get("init") else self.default(nt)
        return Ptr(Cell(ctx, v, nt, "heap"))
    def ctor(self, e):
        ctx = self.ctx; f = e["f"]; t = strip(e["t"])
        if e["ck"] in ("copy", "move") and e["a"]:
            src = self.lval(e["a"][0])
            m = ctx.models.copy(self, t, src, e["ck"])
            if m is not None: return m
        m = ctx.models.ctor(self, e, t)
        if m is not None: return m
        d = ctx.prog.byid.get("%d:%s" % (ctx.unit, f["id"]))
        if d is None: raise Unsupported("constructor of %s" % t)
        args = self.args(d, e["a"])
        return self.construct(d, t, args)
    def construct(self, d, t, args):
        ctx = self.ctx
        if d.get("defaulted") and "b" not in d or (d.get("defaulted") and not d.get("inits") and d["p"]):
            o = Obj(ctx, t, "tmp")
            if d["p"]:   # defaulted copy / move
                src = args[0].get(); mv = "&&" in d["p"][0]["t"]
                self.copy_fields(o, src, mv); return o
            self.init_fields(o, t, None); return o
        ct = ctx.contracts.for_call(ctx, d)
        if ct is not None: return ctx.contracts.apply_ctor(self, ct, d, t, args)
        o = Obj(ctx, t, "tmp"); ctx.inlined.add(d["qn"])
        self.run_ctor(d, o, args); return o
    def copyval(self, c, t, mv):
        """copy (move) construction of one field or element from the cell c: the class's own constructor when it has one"""
        ctx = self.ctx; v = ctx.models.copy(self, strip(t), c, "move" if mv else "copy")
        if v is not None: return v
        if not isinstance(c.v, Obj): return c.v
        d = self.find_copy(c.v.t, "ctor", mv)
        if d is not None and "b" in d: return self.construct(d, c.v.t, [c])
        o = Obj(ctx, c.v.t, c.v.name); self.copy_fields(o, c.v, mv and (d is None or "&&" in d["p"][0]["t"])); return o
    def find_copy(self, t, what, mv):
        t = strip(t); best = None
        for g in self.ctx.prog.copyfns.get((self.ctx.unit, t, what), []):
            if mv and "&&" in g["p"][0]["t"]: return g
            if "&&" not in g["p"][0]["t"]: best = g
        return best
    def copy_fields(self, o, src, mv):
        if not isinstance(src, Obj): raise Unsupported("copy of %r" % src)
        o.ghost.update(src.ghost)
        rec = self.ctx.prog.records.get(strip(src.t)); 
        if src.ghost.get("lazy") and rec:
            for f in self.allfields(src.t): src.field(f["n"])
        for n, c in list(src.f.items()):
            o.f[n] = Cell(self.ctx, self.copyval(c, c.t, mv), c.t, n)
    def allfields(self, t):
        rec = self.ctx.prog.records.get(strip(t)); out = []
        if rec is None: return out
        for b in rec["bases"]: out += self.allfields(b)
        return out + list(rec["fields"])
    def assign_fields(self, o, src, mv):
        for n, c in list(src.f.items()):
            if n not in o.f: o.f[n] = Cell(self.ctx, self.copyval(c, c.t, mv), c.t, n); continue
            if isinstance(c.v, Obj) and isinstance(o.f[n].v, Obj):
                d = self.find_copy(c.v.t, "assign", mv)
                if d is not None and "b" in d: self.invoke(d, o.f[n], [c]); continue
                self.assign_fields(o.f[n].v, c.v, mv); continue
            v = self.copyval(c, c.t, mv)
            if isinstance(o.f[n].v, Vec) and isinstance(v, Vec): self.store(o.f[n].v.cell, v.buf)
            elif isinstance(o.f[n].v, PyVec) and isinstance(v, PyVec): o.f[n].v.cell.set(v.items)
            else: self.store(o.f[n], v)
    def init_fields(self, o, t, d, zero=False):
        rec = self.ctx.prog.records.get(t)
        if rec is None: raise Unsupported("layout of %s" % t)
        for b in rec["bases"]:
            if strip(b) in self.ctx.prog.records: self.init_fields(o, strip(b), None, zero)
        for f in rec["fields"]:
            if f["n"] in o.f: continue
            if "init" in f and f["init"] is not None: v = self.rval(f["init"])
            else: v = self.zeroinit(f["t"]) if zero else self.default(f["t"], f["n"])
            o.f[f["n"]] = Cell(self.ctx, v, f["t"], f["n"])
    def run_ctor(self, d, o, args):
        ctx = self.ctx; old = self.fr; wh = ctx.where
        self.fr = Frame(d, o); self.bind(d, args)
        ctx.depth += 1
        if ctx.depth > 40: raise Unsupported("call depth")
        try:
            for i in d.get("inits", []):
                if "f" in i:
                    rec = None
                    ft = self.ftype(o.t, d, i["f"])
                    ex = i["e"]
                    if is_ref(ft): v = self.lval(ex)
                    elif ex is None: v = self.default(ft)
                    else: v = self.rval(ex)
                    o.f[i["f"]] = Cell(ctx, v, ft, i["f"])
                elif "base" in i:
                    ex = i["e"]; bt = strip(i["base"])
                    if ex["k"] == "Ctor":
                        bd = ctx.prog.byid.get("%d:%s" % (ctx.unit, ex["f"]["id"]))
                        if bd is None:
                            if bt in ctx.prog.records: self.init_fields(o, bt, None)
                            continue
                        a = self.args(bd, ex["a"])
                        if bd.get("defaulted") and bd["p"]:
                            self.copy_base(o, a[0].get(), bt, "&&" in bd["p"][0]["t"])
                        else: self.run_ctor(bd, o, a)
                    elif ex["k"] == "ValueInit": self.init_fields(o, bt, None, zero=True)
                    else: raise Unsupported("base init")
                else:
                    ex = i["e"]
                    bd = ctx.prog.byid.get("%d:%s" % (ctx.unit, ex["f"]["id"])) if ex["k"] == "Ctor" else None
                    if bd is None: raise Unsupported("delegating ctor")
                    self.run_ctor(bd, o, self.args(bd, ex["a"]))
            # fields not mentioned
            rec = ctx.prog.records.get(d["cls"] and strip(d["cls"]))
            if rec:
                for f in rec["fields"]:
                    if f["n"] not in o.f: o.f[f["n"]] = Cell(ctx, self.rval(f["init"]) if f.get("init") else self.default(f["t"], f["n"]), f["t"], f["n"])
            if d.get("b"):
                try: self.stmt(d["b"])
                except Return: pass
        finally:
            self.fr = old; ctx.depth -= 1; ctx.where = wh
    def copy_base(self, o, src, bt, mv):
        rec = self.ctx.prog.records.get(bt)
        if rec is None: return
        for b in rec["bases"]: self.copy_base(o, src, strip(b), mv)
        for f in rec["fields"]:
            c = src.field(f["n"]); o.f[f["n"]] = Cell(self.ctx, self.copyval(c, c.t, mv), f["t"], f["n"])
    def ftype(self, t, d, n):
        rec = self.ctx.prog.records.get(strip(d["cls"]))
        if rec:
            for f in rec["fields"]:
                if f["n"] == n: return f["t"]
        return "?"
    # ---- calls
    def args(self, d, nodes):
        out = []
        ps = d["p"]
        for i, a in enumerate(nodes):
            pt = ps[i]["t"] if i < len(ps) else "?"
            if is_ref(pt): out.append(self.lval(a))
            else: out.append(Cell(self.ctx, self.rval(a), pt, ps[i]["n"] if i < len(ps) else "vararg"))
        return out
    def bind(self, d, args):
        for p, a in zip(d["p"], args):
            self.fr.env[p["id"]] = a
            if isinstance(a, Cell) and a.name == "vararg": a.name = p["n"]
    def call(self, e, want_l=False):
        ctx = self.ctx; k = e["k"]
        # callee through a value (std::function, lambda)
        if k == "Call" and "f" not in e:
            fv = self.rval(e["fe"])
            if isinstance(fv, Ptr): fv = fv.cell.get()
            if isinstance(fv, FnRef): return self.callf(fv.f, None, e["a"], e)
            raise Unsupported("indirect call")
        if k == "PMCall":
            fv = self.rval(e["fe"])
            if isinstance(fv, Ptr): fv = fv.cell.get()
            if not isinstance(fv, FnRef): raise Unsupported("member pointer call on %r" % (fv,))
            return self.callf(fv.f, self.thisof(e), e["a"], e)
        f = e.get("f")
        if f is None: raise Unsupported("operator call without callee")
        this = None; nodes = e["a"]
        d = ctx.prog.byid.get("%d:%s" % (ctx.unit, f["id"]))
        if k == "MCall":
            this = self.thisof(e)
        elif k == "OpCall" and e.get("m"):
            x = nodes[0]; nodes = nodes[1:]
            lv = self.lval(x) if (x.get("lv") or x.get("xv") or x["k"] in ("Mat", "Ref", "Field")) else Tmp(self.rval(x), x.get("t", "?"))
            this = lv
            if isinstance(lv.get(), Closure): return self.call_closure(lv.get(), nodes)
        return self.callf(f, this, nodes, e, d)
    def thisof(self, e):
        o = e["o"]
        if e.get("arrow"):
            p = self.rval(o)
            return self.deref(p)
        if o.get("lv") or o.get("xv") or o["k"] in ("Mat", "Ref", "Field", "Load"): return self.lval(o)
        return Tmp(self.rval(o), o.get("t", "?"))
    def callf(self, f, this, nodes, e, d=None):
        ctx = self.ctx
        if d is None: d = ctx.prog.byid.get("%d:%s" % (ctx.unit, f["id"]))
        name = base_name(f["qn"])
        if this is not None and f.get("virt") and not e.get("nonvirt"):
            ov = ctx.models.virtual(self, f, this, nodes, e)
            if ov is not NotImplemented: return ov
            o = this.get()
            if isinstance(o, Obj): d = self.dispatch(o, f, d)
        if d is not None and ("b" in d or d.get("defaulted")) and not ctx.models.overrides(name, f):
            args = self.args(d, nodes)
            return self.invoke(d, this, args)
        m = ctx.models.lookup(name, f)
        if m is None:
            # no body (pure virtual): the interface contract
            dd = d if d is not None else dict(qn=f["qn"], n=f["n"], rt=f.get("rt", e.get("t", "void")), cls=f.get("cls"), p=[dict(n="", t=t, id=-1 - i) for i, t in enumerate(f.get("pt", []))])
            ct = ctx.contracts.for_call(ctx, dd)
            if ct is not None and this is not None: return ctx.contracts.apply(self, ct, dd, this, self.args(dd, nodes))
            raise Unsupported("call of %s" % name)
        return m(self, f, this, nodes, e)
    def dispatch(self, o, f, d):
        ctx = self.ctx
        seen = set(); t = o.t; stack = [t]
        while stack:
            t = strip(stack.pop(0))
            if t in seen: continue
            seen.add(t)
            for g in ctx.prog.funcs:
                if g["unit"] == ctx.unit and g.get("cls") and strip(g["cls"]) == t and g["n"] == f["n"] and [p["t"] for p in g["p"]] == f["pt"]: return g
            stack += ctx.prog.records.get(t, {}).get("bases", [])
        return d
    def invoke(self, d, this, args):
        ctx = self.ctx
        ct = ctx.contracts.for_call(ctx, d)
        if ct is not None: return ctx.contracts.apply(self, ct, d, this, args)
        if "b" not in d:
            if d["n"] == "operator=" and d["p"]:
                self.assign_fields(this.get(), args[0].get(), "&&" in d["p"][0]["t"])
                return this
            raise Unsupported("defaulted %s" % d["qn"])
        ctx.inlined.add(d["qn"])
        if any(x is d for x in ctx.callstack): raise Unsupported("recursion through %s without a contract" % d["qn"])
        return self.inline(d, this, args)
    def inline(self, d, this, args):
        ctx = self.ctx
        ctx.depth += 1; ctx.callstack.append(d)
        if ctx.depth > 40: raise Unsupported("call depth")
        old = self.fr; wh = ctx.where
        self.fr = Frame(d, this.get() if this is not None else None); self.fr.thislv = this; self.bind(d, args)
        try:
            self.stmt(d["b"]); r = None
        except Return as x: r = x.v
        finally:
            self.fr = old; ctx.depth -= 1; ctx.callstack.pop()
        ctx.where = wh
        return r
    def call_closure(self, cl, nodes):
        n = cl.node
        if n.get("generic"): raise Unsupported("generic lambda")
        vals = []
        for p, a in zip(n["p"], nodes): vals.append(self.lval(a) if is_ref(p["t"]) else Cell(self.ctx, self.rval(a), p["t"], p["n"]))
        return self.run_closure(cl, vals)
    def run_closure(self, cl, vals):
        n = cl.node; ctx = self.ctx; old = self.fr
        fr = Frame({"rt": n["rt"], "file": self.fr.f.get("file", ""), "qn": "lambda"}, cl.this); fr.env = dict(old.env); fr.env.update(cl.env)
        for p, v in zip(n["p"], vals): fr.env[p["id"]] = v
        ctx.depth += 1
        if ctx.depth > 40: raise Unsupported("call depth")
        self.fr = fr
        try: self.stmt(n["b"]); r = None
        except Return as x: r = x.v
        finally: self.fr = old; ctx.depth -= 1
        return r
    def call_value(self, fv, vals):
        """call a callable value with already evaluated lvalues"""
        if isinstance(fv, (Cell, Tmp)): fv = fv.get()
        if isinstance(fv, Closure): return self.run_closure(fv, vals)
        if type(fv).__name__ == "PyFn": return fv.f(self, vals)
        if isinstance(fv, FnRef):
            d = self.ctx.prog.byid.get("%d:%s" % (self.ctx.unit, fv.f["id"]))
            if d: return self.invoke(d, None, vals)
            m = self.ctx.models.valuefn(base_name(fv.f["qn"]))
            if m: return m(self, vals)
        raise Unsupported("call of %r" % (fv,))

class FreeMark:
    def __init__(s, buf): s.buf = buf
    def restore(s, v): s.buf.freed = v
