"""Symbolic executor / verification-condition generator over the JSON AST produced by cxx2json from the
real sources.  One run = one function against its contract.  Paths are explored by replay: a run is a
deterministic function of a list of decisions."""
import z3, json, sys, os, time, re
from fractions import Fraction
from .terms import IPoly, SPoly, MTerm, Atom, ip, OPC, fop, frows, fcols

class Unsupported(Exception): pass           # outside the verifier's reach: the function is undecided
class PathEnd(Exception): pass               # this path stops here (infeasible / loop body checked / throw)
class ThrowEx(Exception): pass               # the code throws on this path
class Budget(Exception): pass

# ------------------------------------------------------------------ program
class Program:
    def __init__(self, files):
        self.funcs = []; self.records = {}; self.enums = {}
        self.byid = {}; self.copyfns = {}
        for n, fn in enumerate(files):
            d = json.load(open(fn))
            pre = "%d:" % n
            for k, f in d["functions"].items():
                f["unit"] = n; f["key"] = pre + str(k); self.byid[pre + str(k)] = f; self.funcs.append(f)
            for f in d["functions"].values():
                if f.get("cls") and len(f["p"]) == 1 and strip(f["p"][0]["t"]) == strip(f["cls"]):
                    if f.get("ctor"): self.copyfns.setdefault((n, strip(f["cls"]), "ctor"), []).append(f)
                    elif f["n"] == "operator=": self.copyfns.setdefault((n, strip(f["cls"]), "assign"), []).append(f)
            self.records.update(d["records"]); self.enums.update(d["enums"])
    def find(self, name, pred=None):
        return [f for f in self.funcs if base_name(f["qn"]) == name and (pred is None or pred(f))]

def base_name(qn):
    """qualified name without template arguments"""
    out = []; d = 0; i = 0
    s = qn
    for op in ("operator<<", "operator>>", "operator<=", "operator>=", "operator<", "operator>", "operator->"):
        if s.endswith(op): return base_name(s[: -len(op)]) + op
    for ch in s:
        if ch == "<": d += 1
        elif ch == ">": d -= 1
        elif d == 0: out.append(ch)
    return "".join(out)

SCALARS = ("double", "float", "std::complex<double>", "std::complex<float>", "long double")
INTS = ("int", "unsigned int", "long", "unsigned long", "char", "short", "unsigned short", "unsigned char", "long long", "unsigned long long", "signed char", "bool")

def strip(t):
    """strip references, const"""
    t = t.strip()
    while True:
        if t.endswith("&"): t = t[:-1].strip()
        elif t.startswith("const ") and not t.endswith("*") and not t.endswith("*const"): t = t[6:].strip()
        elif t.endswith(" const"): t = t[:-6].strip()
        elif t.endswith("*const"): t = t[:-5].strip()
        else: return t
def is_ref(t): return t.strip().endswith("&")
def is_ptr(t): return strip(t).endswith("*")
def pointee(t): return strip(strip(t)[:-1].strip())
def tmpl(t):
    """('std::vector', ['int', ...])"""
    t = strip(t)
    i = t.find("<")
    if i < 0 or not t.endswith(">"): return t, []
    name = t[:i]; args = []; d = 0; cur = ""
    for ch in t[i + 1:-1]:
        if ch == "," and d == 0: args.append(cur.strip()); cur = ""; continue
        if ch in "<(": d += 1
        elif ch in ">)": d -= 1
        cur += ch
    if cur.strip(): args.append(cur.strip())
    return name, args

# ------------------------------------------------------------------ values
class Cell:
    __slots__ = ("v", "t", "name", "ctx", "sn")
    def __init__(s, ctx, v, t="?", name="?"):
        s.ctx = ctx; s.v = v; s.t = t; s.name = name; ctx.serial += 1; s.sn = ctx.serial
    def get(s):
        return s.v
    def set(s, v):
        s.ctx.journal.append((s, s.v)); s.v = v
    def restore(s, v): s.v = v
class DictMark:
    """journal entry: key added to a dictionary"""
    def __init__(s, d, k): s.d = d; s.k = k
    def restore(s, v): s.d.pop(s.k, None)
class Obj:
    """class object: fields are cells"""
    def __init__(s, ctx, t, name="?"): s.ctx = ctx; s.t = t; s.f = {}; s.name = name; s.ghost = {}
    def field(s, n):
        if n not in s.f:
            lazy = s.ghost.get("lazy")
            if lazy:
                b4 = s.ctx.serial; c = lazy(s, n); s.ctx.lazyr.append((b4, s.ctx.serial))
                if c is not None: s.f[n] = c; s.ctx.journal.append((DictMark(s.f, n), None)); return c
            raise Unsupported("field %s of %s" % (n, s.t))
        return s.f[n]
    def __repr__(s): return "<%s %s>" % (s.t, s.name)
class Ptr:
    """pointer to a cell holding a value (object), or null (cell None)"""
    def __init__(s, cell): s.cell = cell
    def __repr__(s): return "Ptr(%r)" % (s.cell and s.cell.name)
NULL = Ptr(None)
class SymPtr:
    """pointer that may be null: null iff cond"""
    def __init__(s, isnull, cell): s.isnull = isnull; s.cell = cell
class BPtr:
    """pointer into a buffer of numbers at element offset off"""
    def __init__(s, buf, off): s.buf = buf; s.off = ip(off)
    def __repr__(s): return "&%s[%r]" % (s.buf.name, s.off)
class Fill:
    """all entries equal to the scalar v (None: undefined)"""
    def __init__(s, v): s.v = v
class Buf:
    """array of numbers; content is a matrix term (column major) or a Fill"""
    def __init__(s, ctx, size, content, name, et="double"):
        s.ctx = ctx; s.size = ip(size); s.content = content; s.name = name; s.et = et; s.freed = False; s.ghost = {}; ctx.serial += 1; s.sn = ctx.serial
    def setc(s, c):
        if "segs" in s.ghost: raise Unsupported("whole buffer %s written after its parts" % s.name)
        s.ghost["written"] = True; s.ctx.journal.append((s, s.content)); s.content = c
    def restore(s, v): s.content = v
class Ragged(Fill):
    """consecutive blocks of different sizes: block(ctx, off) -> (term, offset inside the block) or None"""
    def __init__(s, block): s.v = None; s.block = block
class IBuf:
    """array of integers: z3 array Int->Int"""
    def __init__(s, ctx, size, arr, name): s.ctx = ctx; s.size = ip(size); s.arr = arr; s.name = name; s.freed = False; s.ghost = {}; ctx.serial += 1; s.sn = ctx.serial
    def setc(s, c): s.ctx.journal.append((s, s.arr)); s.arr = c
    def restore(s, v): s.arr = v
class Vec:
    """std::vector of numbers (buf is Buf) or integers (buf is IBuf): the cell holds the buffer"""
    def __init__(s, ctx, buf, et): s.cell = Cell(ctx, buf, et, "vecbuf"); s.et = et; s.t = "std::vector<%s>" % et
    @property
    def buf(s): return s.cell.v
class PyVec:
    """std::vector / list / stack / queue with concretely known structure; items are cells"""
    def __init__(s, ctx, t, items=()): s.ctx = ctx; s.t = t; s.cell = Cell(ctx, tuple(items), t, "pyvec")
    @property
    def items(s): return s.cell.v
class Rest:
    """marker in the items of a PyVec: elements about which nothing is known"""
    def __init__(s, n): s.n = n
class Gen:
    """marker in the items of a PyVec: elements v(0), .., v(n-1); v is given at the index atom kn"""
    def __init__(s, kn, n, v, sig): s.kn = kn; s.n = n; s.v = v; s.sig = sig
class ListRef:
    """marker in the items of a PyVec: the elements of an abstract list"""
    def __init__(s, l): s.l = l
def resolve(v):
    """the list that a vector with a single ListRef stands for"""
    if isinstance(v, PyVec) and len(v.items) == 1:
        g = v.items[0]
        if isinstance(g, ListRef): return g.l
    return v
def seen(v):
    """a vector as the list of elements that reading it sees"""
    v = resolve(v)
    return alias(v, v.items[0]) or v if isinstance(v, PyVec) and len(v.items) == 1 and isinstance(v.items[0], Gen) else v
def alias(v, g):
    """pointers to the elements 0, ..., n-1 of an abstract list, collected in order, as an abstract list"""
    x = g.v; c = v.ctx
    e = x.cell.get().ghost.get("elemof") if isinstance(x, Ptr) and x.cell is not None and isinstance(x.cell.get(), Obj) else None
    if e is None or not c.ieq(e[1], IPoly.atom(g.kn)): return None
    if not hasattr(g, "list"):
        def elem(k): return Cell(c, Ptr(e[0].at(k).get().cell), tmpl(strip(v.t))[1][0], "%s[%r]" % (e[0].name, k))
        g.list = AbsList(c, v.t, "pointers to " + e[0].name, g.n, elem)
    return g.list
class AbsList:
    """symbolic collection of unknown length.  elem(k) -> cell for element k (memoised)"""
    def __init__(s, ctx, t, name, length, elem):
        s.ctx = ctx; s.t = t; s.name = name; s.length = ip(length); s.mk = elem; s.memo = {}; s.sums = []; s.ghost = {}
    def at(s, k):
        k = s.ctx.inorm(ip(k))
        if k not in s.memo: b4 = s.ctx.serial; s.memo[k] = s.mk(k); s.ctx.lazyr.append((b4, s.ctx.serial)); s.ctx.journal.append((DictMark(s.memo, k), None))
        return s.memo[k]
class Closure:
    def __init__(s, node, env, this): s.node = node; s.env = env; s.this = this
class FnRef:
    def __init__(s, f): s.f = f
class Opaque:
    def __init__(s, what): s.what = what
    def __repr__(s): return "Opaque(%s)" % s.what
class ElemRef:
    __slots__ = ("buf", "off", "ctx")
    def __init__(s, ctx, buf, off): s.ctx = ctx; s.buf = buf; s.off = off
    def get(s): return s.ctx.elem_get(s.buf, s.off)
    def set(s, v): s.ctx.elem_set(s.buf, s.off, v)
class Tmp:
    """rvalue bound to a reference"""
    __slots__ = ("v", "name", "t")
    def __init__(s, v, t="?"): s.v = v; s.name = "tmp"; s.t = t
    def get(s): return s.v
    def set(s, v): s.v = v

class Break(Exception): pass
class Continue(Exception): pass
class Return(Exception):
    def __init__(s, v): s.v = v

RESIDUE = re.compile(r"\b(?:h|hs|hb|hp|L|v|vs|vb|vp|X)_[^\s!()]*!\d+|\b(?:hsz|ha|la|vsz|va|lx)!\d+| \| solver: unknown")
class Obligation:
    def __init__(s, label, where, status, backend, detail="", secs=0.0):
        s.label = label; s.where = where; s.status = status; s.backend = backend; s.detail = detail; s.secs = secs

def z3vars(e):
    out = []; seen = set(); st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body())
        elif z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(x)
        else: st += x.children()
    return out
# ------------------------------------------------------------------ context of one path
class Ctx:
    MAXSTEPS = 200000
    def __init__(self, prog, contracts, decisions, real, unit, models):
        self.serial = 0; self.nexpr = {}; self.permreads = {}; self.ambig = {}; self.pairfacts = []; self.disj = False; self.wordrules = []; self.reads = {}; self.lazyr = []; self.adef = {}; self._named = {}; self.sumrules = []
        self.prog = prog; self.contracts = contracts; self.decisions = decisions; self.dpos = 0; self.newbranches = []
        self.real = real; self.unit = unit; self.models = models
        self.solver = z3.Solver(); self.solver.set("timeout", 4000); self.assumed = []; self.stamp = 1; self.pcache = [{}]; self.keep = []
        self.isub = {}; self.ssub = {}; self.journal = []; self.obls = []; self.n = 0; self.steps = 0
        self.folds = []      # (word pattern tuple, replacement MTerm)
        self.realscal = set(); self.trace = []; self.depth = 0; self.inlined = set(); self.called = set(); self.assumed_contracts = set()
        self.callstack = []; self.ztime = 0.0; self.solver_calls = 0; self.nonzero = set(); self.boolmemo = {}; self.statics = {}
        self.suppress = 0; self.nested = 0; self.cuts = set(); self.where = "?"; self.crit = 0; self.par = None; self.notes = []
        self.deadline = None
        self.zarrays = {}    # integer arrays that stand for a mathematical function: name -> fn(index) -> integer term
        self.telescope = {}  # prefix of the names of the values of f -> fn(index) -> sum of f(i) for i < index
    # ---- names
    def fresh(self, base): self.n += 1; return "%s!%d" % (base, self.n)
    def fint(self, base, lo=None):
        a = IPoly.atom(self.fresh(base))
        if lo is not None: self.assume(a.z() >= lo)
        return a
    def note(self, s):
        if s not in self.notes: self.notes.append(s)
    # ---- solver
    def _check(self, *assump):
        if self.deadline and time.time() > self.deadline: raise Budget("deadline")
        t = time.time(); self.solver.push()
        for a in assump: self.solver.add(a)
        r = self.solver.check(); self.solver.pop(); self.ztime += time.time() - t; self.solver_calls += 1
        return r
    def zi(self, p): return self.inorm(p).z() if isinstance(p, IPoly) else p
    def inorm(self, p): return ip(p).subst(self.isub)
    def assume(self, c):
        if c is True: return
        if c is False: raise PathEnd("assume false")
        self.assumed.append(c); self.solver.add(c); self.stamp += 1
    # what has been proved stays proved while the facts are only added to (scopes of the solver are scopes of this cache)
    def push(self): self.solver.push(); self.pcache.append({}); self.stamp += 1
    def pop(self): self.solver.pop(); self.pcache.pop(); self.stamp += 1
    def cached(self, key, fn):
        for d in self.pcache:
            if key in d and (d[key] is True or d[key] == self.stamp): return d[key] is True
        r = fn(); self.pcache[-1][key] = True if r else self.stamp
        return r
    def assume_eq(self, a, b):
        """integer equality; oriented into the substitution when possible"""
        a = self.inorm(a); b = self.inorm(b); d = a - b
        if not d.t: return
        self.assume(a.z() == b.z())
        for mono, c in d.t.items():
            if len(mono) == 1 and c in (1, -1) and not any(mono[0] in m for m in d.t if m != mono):
                rest = IPoly({m: (-x if c == 1 else x) for m, x in d.t.items() if m != mono})
                v = mono[0]
                for k in list(self.isub): self.isub[k] = self.isub[k].subst({v: rest})
                self.isub[v] = rest; return
    def prove(self, c):
        if c is True: return True
        if c is False: return False
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return self.cached("false", lambda: self._check() == z3.unsat)
        self.keep.append(c)
        return self.cached(c.get_id(), lambda: self._check(z3.Not(c)) == z3.unsat)
    def ieq(self, a, b):
        a = self.inorm(a); b = self.inorm(b)
        if a == b: return True
        d = a - b
        if d.is_const(): return False
        return self.cached(("eq", frozenset(d.t.items())), lambda: self.prove(a.z() == b.z()))
    def empty(self, r, c):
        r, c = self.inorm(r), self.inorm(c)
        return self.cached(("empty", frozenset(r.t.items()), frozenset(c.t.items())), lambda: self.prove(z3.Or(r.z() <= 0, c.z() <= 0)))
    def ile(self, a, b):
        d = self.inorm(b) - self.inorm(a)
        if d.is_const(): return d.cval() >= 0
        return self.cached(("ge0", frozenset(d.t.items())), lambda: self.prove(d.z() >= 0))
    # ---- branching
    def choose(self, n, what=""):
        """non-deterministic choice among n alternatives; explored exhaustively"""
        if n == 1: return 0
        if self.dpos < len(self.decisions):
            d = self.decisions[self.dpos]; self.dpos += 1; return d
        base = list(self.decisions)
        for i in range(1, n): self.newbranches.append(base + [i])
        self.decisions = base + [0]; self.dpos += 1
        return 0
    def branch(self, c):
        if isinstance(c, bool): return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        t = self._check(c); f = self._check(z3.Not(c))
        if t == z3.unsat and f == z3.unsat: raise PathEnd("infeasible")
        if t == z3.unsat: r = False
        elif f == z3.unsat: r = True
        else:
            r = self.choose(2, str(c)) == 0
            self.trace.append(("%s" % c).replace("\n", " ")[:120] if r else "not(%s)" % ("%s" % c).replace("\n", " ")[:120])
        self.learn(c if r else z3.Not(c))
        if t != z3.unsat and f != z3.unsat: self.branched.append(c if r else z3.Not(c))
        return r
    branched = []
    def learn(self, c):
        self.assume(c)
        self.orient_fact(z3.simplify(c))
    def orient_fact(self, e):
        """turn a learnt fact into substitutions (equalities), forking on disjunctions of equalities"""
        def neg(x): return x.arg(0) if z3.is_not(x) else z3.Not(x)
        while z3.is_not(e) and z3.is_not(e.arg(0)): e = e.arg(0).arg(0)
        if z3.is_not(e) and z3.is_and(e.arg(0)): e = z3.Or([neg(x) for x in e.arg(0).children()])
        elif z3.is_not(e) and z3.is_or(e.arg(0)): e = z3.And([neg(x) for x in e.arg(0).children()])
        if z3.is_and(e):
            for x in e.children(): self.orient_fact(x)
        elif z3.is_or(e) and len(e.children()) <= 3 and all(z3.is_eq(x) and x.arg(0).sort() == z3.IntSort() for x in e.children()):
            ds = [x for x in e.children() if self._check(x) != z3.unsat]
            if not ds: raise PathEnd("infeasible")
            x = ds[self.choose(len(ds), "disjunction")]
            self.assume(x)
            if len(ds) > 1: self.trace.append(("%s" % x).replace("\n", " ")[:100])
            self.learn_eq(x)
        elif z3.is_eq(e): self.learn_eq(e)
        elif (z3.is_le(e) or z3.is_ge(e) or z3.is_not(e) and (z3.is_le(e.arg(0)) or z3.is_ge(e.arg(0)))):
            x = e.arg(0) if z3.is_not(e) else e
            up = z3.is_le(x) != z3.is_not(e)        # a <= b (up), else a >= b; strict when negated
            a, b = x.arg(0), x.arg(1)
            if z3.is_not(e): b = b + 1 if not up else b - 1   # not(a<=b): a>=b+1 ; not(a>=b): a<=b-1
            if self._check(z3.Not(a == b)) == z3.unsat:
                p, q = self.to_ip(a), self.to_ip(b)
                if p is None or q is None: return
                self.assume_eq(p, q)
    def learn_eq(self, e):
        if not (z3.is_eq(e) and e.arg(0).sort() == z3.IntSort()): return
        a = self.to_ip(e.arg(0)); b = self.to_ip(e.arg(1))
        if a is None or b is None: return
        d = self.inorm(a) - self.inorm(b)
        for x in sorted(set(y for m in d.t for y in m)):               # x*p == x*q with x non-zero: p == q
            while d.t and all(x in m for m in d.t) and any(len(m) > 1 for m in d.t) and self.prove(z3.Int(x) != 0):
                def rm1(m): m = list(m); m.remove(x); return tuple(m)
                d = IPoly({rm1(m): c for m, c in d.t.items()}); a, b = d, ip(0); self.assume(d.z() == 0)
        if len(d.t) == 1 and len(next(iter(d.t))) > 1:         # a product is zero: one of the factors is
            fs = list(dict.fromkeys(next(iter(d.t)))); fs = [x for x in fs if self._check(z3.Int(x) == 0) != z3.unsat]
            if not fs: raise PathEnd("infeasible")
            x = fs[self.choose(len(fs), "product")]; self.trace.append("%s==0" % x)
            self.assume_eq(IPoly.atom(x), 0); return
        self.assume_eq(a, b)
    def to_ip(self, e):
        if z3.is_int_value(e): return IPoly.const(e.as_long())
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED: return IPoly.atom(e.decl().name())
        if self.zarrays and z3.is_select(e) and z3.is_const(e.arg(0)) and e.arg(0).decl().name() in self.zarrays:
            i = self.to_ip(e.arg(1)); return None if i is None else self.zarrays[e.arg(0).decl().name()](i)
        if z3.is_add(e):
            r = IPoly({})
            for x in e.children():
                y = self.to_ip(x)
                if y is None: return None
                r = r + y
            return r
        if z3.is_mul(e):
            r = IPoly.const(1)
            for x in e.children():
                y = self.to_ip(x)
                if y is None: return None
                r = r * y
            return r
        if z3.is_sub(e):
            a = self.to_ip(e.arg(0)); b = self.to_ip(e.arg(1))
            return None if a is None or b is None else a - b
        if e.decl().kind() == z3.Z3_OP_UMINUS:
            a = self.to_ip(e.arg(0)); return None if a is None else -a
        return None
    def name_int(self, e, base="t"):
        """z3 integer expression as a polynomial (a fresh atom when it is not one)"""
        if isinstance(e, IPoly): return e
        e = z3.simplify(e)
        p = self.to_ip(e)
        if p is not None: return self.inorm(p)
        k = e.sexpr()
        if k in self._named: return self._named[k]
        a = IPoly.atom(self.fresh(base)); self.assume(a.z() == e); self._named[k] = a; self.nexpr[a.z()] = e
        return a
    def select(self, arr, i):
        """element of an integer array; the closed forms of loops are resolved where the facts decide them"""
        e = z3.simplify(z3.Select(arr, i))
        for _ in range(16):
            if not z3.is_app_of(e, z3.Z3_OP_ITE): break
            if self.prove(e.arg(0)): e = z3.simplify(e.arg(1))
            elif self.prove(z3.Not(e.arg(0))): e = z3.simplify(e.arg(2))
            else: break
        return e
    def unname(self, e):
        """replace the names given to array reads by the reads themselves"""
        for _ in range(8):
            vs = [v for v in z3vars(e) if v in self.nexpr]
            if not vs: break
            e = z3.substitute(e, [(v, self.nexpr[v]) for v in vs])
        return z3.simplify(e)
    def concretize(self, p, cands, what="value"):
        """fork on the possible concrete values of an integer"""
        p = self.inorm(p)
        if p.is_const(): return p.cval()
        feas = [c for c in cands if self._check(p.z() == c) != z3.unsat]
        if self._check(z3.And([p.z() != c for c in cands])) != z3.unsat: feas.append(None)
        if not feas: raise PathEnd("infeasible")
        i = feas[self.choose(len(feas), what)]
        if i is None:
            self.assume(z3.And([p.z() != c for c in cands])); return None
        self.trace.append("%r==%s" % (p, repr(chr(i)) if 32 < i < 127 else i)); self.assume_eq(p, i)
        return i
    # ---- obligations
    def oblig(self, label, ok, detail="", backend="z3"):
        if self.suppress: 
            return
        st = "proved" if ok else "failed"
        # what is left over from a loop the engine could not summarise is arbitrary: nothing is refuted then, the function is undecided
        if not ok and (RESIDUE.search(detail.split(" | path:")[0].split(" | model:")[0]) or any(RESIDUE.search(str(x)) for x in self.trace)): st = "open"
        self.obls.append(Obligation(label, self.where, st, backend, "" if ok else detail))
    def require(self, label, c, hard=True):
        """integer/boolean obligation, decided by the SMT solver"""
        t = time.time()
        if isinstance(c, bool): ok = c or self._check() == z3.unsat
        else: ok = self.prove(c)
        det = ""
        if not ok:
            det = "cannot prove: %s" % (c,)
            try:
                self.solver.push(); self.solver.add(z3.Not(c) if not isinstance(c, bool) else z3.BoolVal(True))
                r = self.solver.check()
                if r == z3.sat: det += " | model: " + str(self.solver.model())[:600]
                else: det += " | solver: " + str(r)
                self.solver.pop()
            except Exception: pass
            det += " | path: " + " & ".join(self.trace[-12:])
        self.oblig(label, ok, det)
        if not isinstance(c, bool): self.assume(c)
        elif not ok and hard: raise PathEnd("failed obligation")
        return ok
    # ---- scalars
    def snorm(self, sp):
        if not self.ssub and not self.real: return sp
        def f(n, cj):
            if n in self.realscal or self.real: cj = False
            if n in self.ssub: v = self.ssub[n]; return v.conj(self.realscal) if cj else v
            return SPoly.atom(n, cj)
        return sp.map_atoms(f)
    def scal(self, name, real=False):
        if real: self.realscal.add(name)
        return MTerm.scalar(SPoly.atom(name))
    def const(self, c): return MTerm.scalar(SPoly.const(c))
    # ---- matrix terms: normalisation
    def mnorm(self, m):
        r = {}
        todo = list(m.t.items()); guard = 0
        while todo:
            guard += 1
            if guard > 20000: raise Unsupported("term normalisation diverges")
            w, c = todo.pop()
            c = self.snorm(c)
            if not c.t: continue
            res = self.wnorm(w, m)
            if res is None: continue
            if isinstance(res, MTerm):
                for w2, c2 in res.t.items(): todo.append((w2, c2 * c))
                continue
            r[res] = r[res] + c if res in r else c
            if not r[res].t: r.pop(res)
        return MTerm(self.inorm(m.r), self.inorm(m.c), r)
    def norm_atom(self, f):
        a, o = f
        if a.kind == "sel":
            rows, off, cols = self.inorm(a.rows), self.inorm(a.off), self.inorm(a.cols)
            if rows == cols and not off.t: return None
            if self.ieq(rows, cols) : return None        # 0 <= off, off+len <= n holds by construction
            if self.permreads and cols.is_const() and cols.cval() == 1:
                x = self.perm_sel(a)
                if x is not None: return x.op(o, self.realscal)
            if (rows, off, cols) != (a.rows, a.off, a.cols): a = self.sel(rows, off, cols)
            return (a, {"C": "T", "J": "N"}.get(o, o))
        if a.real or self.real: o = {"C": "T", "J": "N"}.get(o, o)
        if a.sym or (a.herm and self.real): o = {"T": "N", "C": "J"}.get(o, o)
        if a.herm: o = {"C": "N", "T": "J"}.get(o, o)
        if self.real: o = {"C": "T", "J": "N"}.get(o, o)
        if a.kind == "gen" and isinstance(a.tag, tuple) and a.tag[0] == "lr":
            r = self.inorm(a.tag[1])
            if r.is_const() and r.cval() == 0: return 0
        d = self.adef.get(a.key())
        if d is not None: return d.op(o, self.realscal)
        return (a, o)
    def sel(self, n, off, ln): return Atom("sel", "S", n, ln, real=True, off=ip(off))
    def wnorm(self, w, m=None):
        """normalise one word; returns word, None for zero, or an MTerm to be re-expanded"""
        out = []
        for i, f in enumerate(w):
            g = self.norm_atom(f)
            if g is None: continue
            if g == 0: return None
            if isinstance(g, MTerm):
                pre = MTerm(1, 1, {tuple(w[:i]): SPoly.const(1)}); post = MTerm(1, 1, {tuple(w[i + 1:]): SPoly.const(1)})
                return pre.mul(g).mul(post)
            # zero inner dimension
            for dim in (frows(g), fcols(g)):
                dim = self.inorm(dim)
                if dim.is_const() and dim.cval() == 0: return None
            out.append(g)
        changed = True
        while changed:
            changed = False
            for i in range(len(out) - 1):
                r = self.pair(out[i], out[i + 1])
                if r is None: continue
                if r == 0: return None
                out[i:i + 2] = r; changed = True; break
            if changed: continue
            for rule in self.wordrules:
                r = rule(self, out)
                if r is None: continue
                return r[0]
            for pat, rep in self.folds:
                L = len(pat)
                for i in range(len(out) - L + 1):
                    if all(self.feq(out[i + j], pat[j]) for j in range(L)):
                        pre = MTerm(1, 1, {tuple(out[:i]): SPoly.const(1)}); post = MTerm(1, 1, {tuple(out[i + L:]): SPoly.const(1)})
                        return pre.mul(rep).mul(post)
        out = tuple(out)
        # scalars (1x1 words) are invariant by transposition: pick a canonical orientation
        if out:
            fr, lc = self.inorm(frows(out[0])), self.inorm(fcols(out[-1]))
            if fr.is_const() and fr.cval() == 1 and lc.is_const() and lc.cval() == 1:
                tr = tuple(self.norm_f(fop(f, "T")) for f in reversed(out))
                if repr(tr) < repr(out): out = tr
        return out
    def norm_f(self, f):
        g = self.norm_atom(f)
        return g if isinstance(g, tuple) else f
    def feq(self, f, g):
        if f == g: return True
        if f[0].kind == "sel" and g[0].kind == "sel" and f[1] == g[1]:
            return self.ieq(f[0].off, g[0].off) and self.ieq(f[0].cols, g[0].cols) and self.ieq(f[0].rows, g[0].rows)
        return False
    def pair(self, f, g):
        a, o = f; b, p = g
        if a.kind == "sel" and b.kind == "sel":
            if o == "T" and p == "N":       # S_I^T S_J
                if self.ieq(a.off, b.off) and self.ieq(a.cols, b.cols): return []
                if self.ile(a.off + a.cols, b.off) or self.ile(b.off + b.cols, a.off): return 0
                if self.disj and self.prove(z3.Or(self.zi(a.off + a.cols) <= self.zi(b.off), self.zi(b.off + b.cols) <= self.zi(a.off))): return 0
                if self.ile(a.off, b.off) and self.ile(b.off + b.cols, a.off + a.cols):   # J inside I
                    return [(self.sel(a.cols, b.off - a.off, b.cols), "N")]
                if self.ile(b.off, a.off) and self.ile(a.off + a.cols, b.off + b.cols):   # I inside J
                    return [(self.sel(b.cols, a.off - b.off, a.cols), "T")]
                return None
            if o == "N" and p == "N":       # S(n,o,l) S(l,o2,l2)
                return [(self.sel(a.rows, a.off + b.off, b.cols), "N")]
            if o == "T" and p == "T":
                return [(self.sel(b.rows, b.off + a.off, a.cols), "T")]
            return None
        if a.kind == "inv" and OPC[o]["N"] == p and a.base == b.key(): return []
        if b.kind == "inv" and OPC[p]["N"] == o and b.base == a.key(): return []
        if a.kind == "perm" and b.kind == "perm" and a.name == b.name and {o, p} == {"N", "T"}: return []
        if a.kind == "orth" and b.kind == "orth" and a.name == b.name and o in "TC" and p == "N": return []
        return None
    def mzero(self, m): return self.mnorm(m).is_zero()
    def meq(self, a, b):
        d = self.mnorm(a.add(b, -1))
        if not d.t: return True, d
        # identity expressed through complementary selectors etc. could remain
        return False, d
    def fold(self, factors, rep):
        """register  product of factors == rep  together with its transpose / conjugates"""
        for op in "NTCJ":
            fs = tuple(self.norm_f(fop(f, op)) for f in (reversed(factors) if op in "TC" else factors))
            r = self.mnorm(rep.op(op, self.realscal)) if not self.real or op in "NT" else None
            if r is None: continue
            if (fs, ) not in [(p,) for p, _ in self.folds]: self.folds.append((fs, r))
    # ---- buffers
    def gen(self, name, r, c, **kw): return MTerm.of(Atom("gen", name, r, c, real=self.real, **kw))
    def decode(self, X, off, m, n, ld):
        d = self.place(X, off, m, n, ld)
        if d is None and self.ieq(m, 1) and self.ieq(n, 1): d = self.flat(self.inorm(X.r), self.inorm(X.c), self.inorm(off))
        return d
    def flat(self, R, C, off):
        """entry k of the R x C content, k a loop index that runs over the entries: row k mod R, column k div R"""
        if len(off.t) != 1 or self.par is not None: return None
        (mono, cf), = off.t.items()
        if cf != 1 or len(mono) != 1 or not mono[0].startswith("k[") or self.ieq(R, 1) or self.ieq(C, 1) or not self.ile(0, off) or not self.ile(off + 1, R * C): return None
        r, c = IPoly.atom("mod<%r,%r>" % (off, R)), IPoly.atom("div<%r,%r>" % (off, R))
        self.assume(z3.And(r.z() >= 0, r.z() < R.z(), c.z() >= 0, c.z() < C.z(), (c * R + r).z() == off.z()))
        return r, c, False
    def place(self, X, off, m, n, ld):
        """locate the m x n block with leading dimension ld at offset off inside the R x C content; returns (r0,c0,transposed)"""
        R, C = self.inorm(X.r), self.inorm(X.c); off = self.inorm(off); m = self.inorm(m); n = self.inorm(n); ld = self.inorm(ld)
        one = IPoly.const(1)
        if not off.t and self.ieq(m, R) and self.ieq(n, C) and (self.ieq(ld, R) or self.ieq(C, 1)): return IPoly({}), IPoly({}), False
        nvec = self.ieq(n, 1); mvec = self.ieq(m, 1)
        if self.ieq(ld, R) or nvec or (mvec and self.ieq(n, 1)):
            if self.ieq(C, 1):
                r, c = off, IPoly({})
            elif self.ieq(R, 1) and nvec and not self.ieq(m, 1):
                if self.ile(off + m, C) and self.ile(0, off): return IPoly({}), off, True
                return None
            else:
                for c, r in off.divs(R):        # a candidate is right when the ranges are
                    if self.ile(0, r) and self.ile(r + m, R) and self.ile(0, c) and self.ile(c + n, C): return r, c, False
                return None
            if self.ile(0, r) and self.ile(r + m, R) and self.ile(0, c) and self.ile(c + n, C): return r, c, False
        if mvec and self.ieq(C, 1) and self.ieq(ld, 1):
            if self.ile(0, off) and self.ile(off + n, R): return off, IPoly({}), True
        if mvec and self.ieq(R, ld):
            pass
        return None
    def bshape(self, buf, ld):
        """give a Fill buffer a shape with leading dimension ld"""
        size = self.inorm(buf.size); ld = self.inorm(ld)
        if self.ieq(ld, size): return size, IPoly.const(1)
        h = self.hint(buf)
        if h is not None and self.ieq(ld, h[0]): return h
        for q, r in size.divs(ld):
            if not r.t: return ld, q
        return None
    def hint(self, buf):
        """rows x columns written in the allocation of the buffer"""
        h = buf.ghost.get("shape"); o = buf.ghost.get("owner")
        if h is None and o is not None:
            h = (o.f["m_number_of_rows"].get(), o.f["m_number_of_cols"].get())
            if not all(isinstance(x, IPoly) for x in h): h = None
        if h is None: return None
        r, c = self.inorm(h[0]), self.inorm(h[1])
        return (r, c) if self.ieq(r * c, buf.size) else None
    def fillterm(self, buf, v, r, c):
        if v is None: return self.gen(self.fresh("undef"), r, c)
        v = self.mnorm(v)
        if v.is_zero(): return MTerm.zero(r, c)
        if list(v.t) == [()]:
            return MTerm.of(Atom("gen", "ones", r, c, real=True, tag="ones")).scale(v.t[()])
        raise Unsupported("fill with a non-scalar term")
    def flatload(self, buf, off, n):
        """whole-buffer read in any shape"""
        return buf.content
    def view(self, p, m, n, ld):
        buf = p.buf
        if buf.freed: self.oblig("no use after free of %s" % buf.name, False, "buffer already deleted"); raise PathEnd("uaf")
        if not isinstance(buf, Buf): raise Unsupported("view of non numeric buffer")
        m, n, ld = self.inorm(m), self.inorm(n), self.inorm(ld)
        if (m.is_const() and m.cval() == 0) or (n.is_const() and n.cval() == 0): return MTerm.zero(m, n)
        p = self.seg(p, m, n, ld, False); buf = p.buf
        if isinstance(buf.content, Ragged):
            b = buf.content.block(self, self.inorm(p.off))
            if b is None: raise Unsupported("place %r in the blocks of %s" % (self.inorm(p.off), buf.name))
            X, off = b; d = self.decode(X, off, m, n, ld)
            if d is None or d[2]: raise Unsupported("layout of the blocks of %s" % buf.name)
            return self.view(BPtr(Buf(self, X.r * X.c, X, buf.name + " block", buf.et), off), m, n, ld)
        if isinstance(buf.content, Fill):
            last = p.off + ld * (n - 1) + m
            self.require("block [%r,+%rx%r,ld %r] inside buffer %s of size %r" % (p.off, m, n, ld, buf.name, buf.size), z3.Or(m.z() <= 0, n.z() <= 0, z3.And(self.zi(p.off) >= 0, self.zi(last) <= self.zi(buf.size))))
            return self.fillterm(buf, buf.content.v, m, n)
        X = buf.content
        d = self.decode(X, p.off, m, n, ld)
        if d is None:
            ok = self.reshape(buf, p.off, m, n, ld)
            if ok is not None: return ok
            self.bad_view(p, m, n, ld)
        r, c, tr = d
        if tr:  # vector stored as a row, read as a column (or the converse)
            if self.ieq(X.r, 1): sub = X.mul(MTerm.of(self.sel(X.c, c, m))); return self.mnorm(sub.op("T", self.realscal))
            sub = MTerm.of(self.sel(X.r, r, n), "T").mul(X); return self.mnorm(sub.op("T", self.realscal))
        t = X
        if not self.full(r, m, X.r): t = MTerm.of(self.sel(X.r, r, m), "T").mul(t)
        if not self.full(c, n, X.c): t = t.mul(MTerm.of(self.sel(X.c, c, n)))
        return self.mnorm(t)
    def reshape(self, buf, off, m, n, ld): return None
    # ---- buffers made of several parts: a fresh vector of size a+b+... used as consecutive arrays of sizes a, b, ...
    def units(self, buf):
        size = self.inorm(buf.size); u = []
        for m, c in sorted(size.t.items()):
            if not isinstance(c, int) and c.denominator != 1 or c < 1 or c > 3: return []
            u += [IPoly({m: 1})] * int(c)
        return u if 2 <= len(u) <= 4 else []
    def inpart(self, L, off, m, n, ld):
        """does the block lie in an array of L entries, for some layout of it?"""
        if not off.t and self.ieq(m * n, L) and (self.ieq(ld, m) or self.ieq(n, 1)): return True
        lds = [ld] if not (self.ieq(n, 1)) else [IPoly.atom(a) for x in L.t for a in dict.fromkeys(x)] if len(L.t) == 1 else []
        for d in lds:
            if d.is_const(): continue
            for cnt, z in L.divs(d):
                if z.t: continue
                for q, r in off.divs(d):
                    if self.ile(0, r) and self.ile(r + m, d) and self.ile(0, q) and self.ile(q + n, cnt): return True
        return self.ile(0, off) and self.ile(off + (ld * (n - 1) + m if not self.ieq(n, 1) else m), L)
    def seg(self, p, m, n, ld, write):
        buf = p.buf; segs = buf.ghost.get("segs")
        if segs is None and not (write and isinstance(buf.content, Fill) and not buf.ghost.get("written") and not buf.ghost.get("vector") and self.hint(buf) is None): return p
        off, m, n, ld = self.inorm(p.off), self.inorm(m), self.inorm(n), self.inorm(ld)
        for o, L, sub in segs or []:
            rel = self.inorm(off - o)
            if isinstance(sub.content, Fill): ok = self.inpart(L, rel, m, n, ld)
            else:
                ok = self.decode(sub.content, rel, m, n, ld) is not None or not rel.t and self.ieq(m * n, L)
            if ok: return BPtr(sub, rel)
        u = self.units(buf)
        if not u: 
            if segs: raise Unsupported("part of %s" % buf.name)
            return p
        if segs is None and not off.t and self.ieq(m * n, buf.size): return p
        import itertools
        ext = ld * (n - 1) + m if not self.ieq(n, 1) else m
        for o, L, sub in segs or []:       # apart from the parts already known?
            if not (self.ile(off + ext, o) or self.ile(o + L, off)) and not any(self.inpart2(off, m, n, ld, b1, b2) and (self.ile(b2, o) or self.ile(o + L, b1)) for b1, b2 in self.bounds(u)): raise Unsupported("overlapping parts of %s" % buf.name)
        cut = None
        if "units" in buf.ghost and self.ieq(sum(buf.ghost["units"], IPoly({})), buf.size):
            cut = [IPoly({})]
            for x in buf.ghost["units"]: cut.append(self.inorm(cut[-1] + x))
        for b1, b2 in self.bounds(u):
            if cut is not None and not (any(self.ieq(b1, x) for x in cut) and any(self.ieq(b2, x) for x in cut)): continue
            if any(not (self.ile(b2, o) or self.ile(o + L, b1)) for o, L, _ in segs or []): continue
            if not self.orderable(u, [(o, o + L) for o, L, _ in segs or []] + [(b1, b2)]): continue
            if self.inpart2(off, m, n, ld, b1, b2):
                if not write: return BPtr(Buf(self, self.inorm(b2 - b1), Fill(buf.content.v), buf.name, buf.et), self.inorm(off - b1))
                L = self.inorm(b2 - b1)
                if self.ieq(L, buf.size): return p
                sub = Buf(self, L, Fill(buf.content.v), "%s+%r" % (buf.name, b1), buf.et); sub.sn = buf.sn
                buf.ghost.setdefault("segs", []).append((b1, L, sub)); return BPtr(sub, self.inorm(off - b1))
        if segs: raise Unsupported("part of %s" % buf.name)
        return p
    def orderable(self, u, parts):
        """is there one order of the arrays in which each part is a run of consecutive arrays?"""
        import itertools
        for q in itertools.permutations(u):
            cut = [IPoly({})]
            for x in q: cut.append(self.inorm(cut[-1] + x))
            if all(any(self.ieq(b, x) for x in cut) for pr in parts for b in pr): return True
        return False
    def bounds(self, u):
        import itertools
        out = []; idx = range(len(u))
        for na in range(0, len(u)):
            for A in itertools.combinations(idx, na):
                for nb in range(1, len(u) - na + 1):
                    for B in itertools.combinations([i for i in idx if i not in A], nb):
                        b1 = sum((u[i] for i in A), IPoly({})); b2 = b1 + sum((u[i] for i in B), IPoly({}))
                        if not any(x == b1 and y == b2 for _, x, y in out): out.append((nb, b1, b2))
        out.sort(key=lambda x: (x[0], max([len(m) for m in (x[2] - x[1]).t] or [0]))); return [(self.inorm(b1), self.inorm(b2)) for _, b1, b2 in out]
    def inpart2(self, off, m, n, ld, b1, b2): return self.inpart(self.inorm(b2 - b1), self.inorm(off - b1), m, n, ld)
    def bad_view(self, p, m, n, ld):
        X = p.buf.content
        # is the access provably inside the buffer?  if not: a failed safety obligation, else out of reach
        last = self.inorm(p.off) + self.inorm(ld) * (self.inorm(n) - 1) + self.inorm(m)
        c = z3.And(self.zi(p.off) >= 0, last.z() <= self.zi(p.buf.size), self.zi(ld) >= self.zi(m))
        if self._check(z3.Not(c)) == z3.sat:
            self.require("block at offset %r, %r x %r, leading dimension %r, lies inside %s (%r x %r)" % (p.off, m, n, ld, p.buf.name, X.r, X.c), c)
            raise PathEnd("bad view")
        self.oblig("block at offset %r, %r x %r, leading dimension %r, matches the layout of %s (%r x %r)" % (self.inorm(p.off), self.inorm(m), self.inorm(n), self.inorm(ld), p.buf.name, X.r, X.c), False, "layout mismatch; path: " + " & ".join(self.trace[-12:]), "normal-form")
        raise PathEnd("bad view")
    def full(self, off, ln, n): return self.ieq(off, 0) and self.ieq(ln, n)
    def write_view(self, p, m, n, ld, new):
        buf = p.buf
        if self.par is not None: self.par_write(buf)
        m, n, ld = self.inorm(m), self.inorm(n), self.inorm(ld)
        if (m.is_const() and m.cval() == 0) or (n.is_const() and n.cval() == 0): return
        p = self.seg(p, m, n, ld, True); buf = p.buf
        if isinstance(buf.content, Fill):
            if self.ieq(p.off, 0) and self.ieq(m * n, buf.size): buf.setc(self.mnorm(new)); return
            sh = self.bshape(buf, ld)
            h = self.hint(buf)
            if self.ieq(n, 1) and h is not None and sh != h and not self.ieq(h[1], 1) and any(self.ile(0, r) and self.ile(r + m, h[0]) and self.ile(0, c) and self.ile(c + 1, h[1]) for c, r in self.inorm(p.off).divs(h[0])): sh = h
            if sh is None and self.ieq(n, 1): sh = self.col_shape(buf, p.off, m) or (buf.size, IPoly.const(1))
            if sh is None: raise Unsupported("cannot shape fresh buffer %s" % buf.name)
            X = self.fillterm(buf, buf.content.v, sh[0], sh[1])
        else: X = buf.content
        d = self.decode(X, p.off, m, n, ld)
        if d is None:
            if self.ieq(p.off, 0) and self.ieq(m * n, buf.size) and (self.ieq(ld, m)): buf.setc(self.mnorm(new)); return
            self.bad_view(p, m, n, ld)
        r, c, tr = d
        if tr:
            new = new.op("T", self.realscal); m, n = n, m
        if self.full(r, m, X.r) and self.full(c, n, X.c): buf.setc(self.mnorm(new)); return
        Er = None if self.full(r, m, X.r) else MTerm.of(self.sel(X.r, r, m)); Ec = None if self.full(c, n, X.c) else MTerm.of(self.sel(X.c, c, n))
        old = X
        if Er is not None: old = Er.op("T").mul(old)
        if Ec is not None: old = old.mul(Ec)
        dlt = new.add(old, -1)   # not normalised here: a 1x1 term must keep its orientation
        if Er is not None: dlt = Er.mul(dlt)
        if Ec is not None: dlt = dlt.mul(Ec.op("T"))
        buf.setc(self.mnorm(X.add(dlt)))
    def col_shape(self, buf, off, m):
        """the only layout of a fresh buffer in which m consecutive entries are part of a column"""
        size, off = self.inorm(buf.size), self.inorm(off); fit = []
        if buf.ghost.get("vector") or len(size.t) != 1: return None
        for a in dict.fromkeys(next(iter(size.t))):
            ld = IPoly.atom(a); q = self.bshape(buf, ld)
            if q is not None and any(self.ile(0, r) and self.ile(r + m, ld) and self.ile(0, c) and self.ile(c + 1, q[1]) for c, r in off.divs(ld)): fit.append((ld, q[1]))
        return fit[0] if len(fit) == 1 else None
    # ---- elements
    def elem_shape(self, buf, off):
        """shape to give to a fresh buffer so that the element offset decodes"""
        size = self.inorm(buf.size); off = self.inorm(off)
        if buf.ghost.get("vector"): return size, IPoly.const(1)
        cands = []; h = self.hint(buf)
        if h is not None: cands.append(h[0])
        if len(size.t) == 1:
            (mono, c), = size.t.items()
            for a in dict.fromkeys(mono):
                cands.append(IPoly.atom(a))
        fit = []
        for ld in cands:
            q = self.bshape(buf, ld)
            if q is None or ld.is_const(): continue
            for c, r in off.divs(ld):
                if self.ile(0, r) and self.ile(r + 1, ld) and self.ile(0, c) and self.ile(c + 1, q[1]): fit.append((ld, q[1])); break
        self.ambig[id(buf)] = len(fit) > 1 and (h is None or fit[0][0] is not h[0])
        return fit[0] if fit else (size, IPoly.const(1))
    def elem_get(self, buf, off):
        if isinstance(buf, IBuf):
            self.require("index %r within %s" % (off, buf.name), z3.And(self.zi(off) >= 0, self.zi(off) < self.zi(buf.size)))
            if "stable" in buf.ghost:
                v = self.perm_read(buf, off)
                if v is not None: return v
            if "form" in buf.ghost and buf.ghost["form"][0].eq(buf.arr):      # entries known for every index (proved when a collective used the array)
                _, n, g = buf.ghost["form"]
                if self.ile(off + 1, n): return self.inorm(g(self.inorm(off)))
            v = self.name_int(self.select(buf.arr, self.zi(off)), buf.name)
            if "range" in buf.ghost: lo, hi = buf.ghost["range"]; self.assume(z3.And(self.zi(v) >= self.zi(ip(lo)), self.zi(v) < self.zi(ip(hi))))
            if "facts" in buf.ghost and buf.ghost["facts"][0].eq(buf.arr):      # what is known of the entries, at the index that is read
                for e in buf.ghost["facts"][1](self.inorm(off)): self.assume(e)
            self.reads[(id(buf), repr(v))] = (buf, self.inorm(off), v)
            return v
        if buf.freed: self.oblig("no use after free of %s" % buf.name, False); raise PathEnd("uaf")
        p = self.seg(BPtr(buf, off), 1, 1, 1, False); buf, off = p.buf, p.off
        if isinstance(buf.content, Fill):
            self.require("index %r within %s" % (off, buf.name), z3.And(self.zi(off) >= 0, self.zi(off) < self.zi(buf.size)))
            if buf.content.v is None: return self.scal(self.fresh("undef"))
            return buf.content.v
        return self.view(BPtr(buf, off), 1, 1, self.ld_of(buf))
    def perm_read(self, buf, off):
        """entry of a permutation array inside a range [o,o+n) that it maps onto itself: e_{p(o+i)-o} is P e_i"""
        off = self.inorm(off); v = None
        for P, o, n in buf.ghost["stable"]:
            if not (self.ile(o, off) and self.ile(off + 1, ip(o) + n)): continue
            if v is None: nm = "%s<%r>" % (P, off); v = IPoly.atom(nm); self.assume(v.z() == z3.Select(buf.arr, off.z()))
            l = self.permreads.setdefault(nm, [])
            if not any(x[0] == P for x in l): l.append((P, self.inorm(off - o), ip(o), ip(n)))
            self.assume(z3.And(v.z() >= self.zi(o), v.z() < self.zi(ip(o) + n)))
        return v
    def perm_sel(self, a):
        """S(n, p(o+i)-o, 1) = P e_i"""
        off = self.inorm(a.off)
        for m in off.t:
            if len(m) == 1 and m[0] in self.permreads and off.t[m] == 1:
                for P, i, o, n in self.permreads[m[0]]:
                  if self.ieq(a.rows, n) and self.ieq(off - IPoly.atom(m[0]), -o): return MTerm.of(Atom("perm", P, n, n, real=True)).mul(MTerm.of(self.sel(n, i, 1)))
        return None
    def ld_of(self, buf): return buf.content.r if not isinstance(buf.content, Fill) else buf.size
    def elem_set(self, buf, off, v):
        if isinstance(buf, IBuf):
            if self.par is not None: self.par_write(buf)
            self.require("index %r within %s" % (off, buf.name), z3.And(self.zi(off) >= 0, self.zi(off) < self.zi(buf.size)))
            buf.setc(z3.Store(buf.arr, self.zi(off), self.zi(v))); return
        p = self.seg(BPtr(buf, off), 1, 1, 1, True); buf, off = p.buf, p.off
        if isinstance(buf.content, Fill):
            r, c = self.elem_shape(buf, off)
            X = self.fillterm(buf, buf.content.v, r, c)
            old = buf.content; buf.setc(X)
        v = self.orient(buf, off, v)
        self.write_view(BPtr(buf, off), 1, 1, self.ld_of(buf), v)
    def orient(self, buf, off, v):
        """choose, word by word, the orientation of a scalar so that it composes with the selectors of the place written"""
        v = self.mnorm(v); X = buf.content
        d = self.decode(X, off, 1, 1, X.r)
        if d is None: return v
        r, c, _ = d
        er = (self.sel(X.r, r, 1), "T"); ec = (self.sel(X.c, c, 1), "N")
        out = {}
        for w, cf in v.t.items():
            if w:
                # a product of scalars commutes, and each is its own transpose
                first = lambda x: x[0][0].kind == "sel" and x[0][1] == "T" and self.ieq(x[0][0].off, r) and self.ieq(x[0][0].rows, X.r)
                last = lambda x: x[-1][0].kind == "sel" and x[-1][1] == "N" and self.ieq(x[-1][0].off, c) and self.ieq(x[-1][0].cols, 1) and self.ieq(x[-1][0].rows, X.c)
                score = lambda x: int(first(x)) + int(last(x)); T = lambda x: tuple(self.norm_f(fop(f, "T")) for f in reversed(x))
                ps = self.pieces(w)
                ps = [max((p, T(p)), key=score) for p in ps]
                for i, p in enumerate(ps):
                    q = p if first(p) else T(p)
                    if first(q): ps.pop(i); ps.insert(0, q); break
                for i in range(len(ps) - 1, 0, -1):
                    q = ps[i] if last(ps[i]) else T(ps[i])
                    if last(q): ps.pop(i); ps.append(q); break
                w = sum(ps, ())
            out[w] = out[w] + cf if w in out else cf
        return MTerm(1, 1, out)
    def pieces(self, w):
        """the 1x1 factors a scalar word is made of"""
        out = []; cur = ()
        for f in w:
            cur += (f,); a = fcols(f)
            if self.ieq(a, 1) and self.ieq(frows(cur[0]), 1): out.append(cur); cur = ()
        return out + [cur] if cur else out
    def orient1(self, v, n, j):
        """orientation of the scalars e_j^T x of a sum over j: the word starts with a selector that depends on j"""
        out = {}
        for w, cf in v.t.items():
            if w:
                def score(x): return int(x[0][0].kind == "sel" and x[0][1] == "T" and any(j in a for m in x[0][0].off.t for a in m))
                tr = tuple(self.norm_f(fop(f, "T")) for f in reversed(w))
                if score(tr) > score(w): w = tr
            out[w] = out[w] + cf if w in out else cf
        return MTerm(1, 1, out)
    # scalar product of 1x1 terms, chaining  (.. e_k)(e_k^T ..)
    def smul(self, a, b):
        r = {}
        for w, c in a.t.items():
            for x, d in b.t.items():
                k = self.chain(w, x); v = c * d
                r[k] = r[k] + v if k in r else v
        return self.mnorm(MTerm(1, 1, {w: c for w, c in r.items() if c.t}))
    def chain(self, w, x):
        if not w or not x: return w + x
        def tr(y): return tuple(self.norm_f(fop(f, "T")) for f in reversed(y))
        for u in (w, tr(w)):
            for v in (x, tr(x)):
                f, g = u[-1], v[0]
                if f[0].kind == "sel" and f[1] == "N" and g[0].kind == "sel" and g[1] == "T" and f[0] == g[0]: return u + v
                f, g = v[-1], u[0]
                if f[0].kind == "sel" and f[1] == "N" and g[0].kind == "sel" and g[1] == "T" and f[0] == g[0]: return v + u
        return w + x if repr(w) <= repr(x) else x + w
    def par_write(self, buf): 
        self.par.write(self, buf)
