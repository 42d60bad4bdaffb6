"""Normal forms used by the verifier: integer polynomials, scalar coefficient polynomials and
non-commutative matrix terms.  Matrix terms are sums  coef * f1 f2 ... fk  of products of matrix
factors; a factor is an atom with an operation N (plain), T, C (conjugate transpose) or J (conjugate)."""
from fractions import Fraction
import z3

# ------------------------------------------------------------------ integers
class IPoly:
    __slots__ = ("t", "_h")
    def __init__(s, t):
        s.t = t; s._h = None
    @staticmethod
    def const(c): return IPoly({(): c} if c else {})
    @staticmethod
    def atom(n): return IPoly({(n,): 1})
    def is_const(s): return not s.t or (len(s.t) == 1 and () in s.t)
    def cval(s): return s.t.get((), 0)
    def __hash__(s):
        if s._h is None: s._h = hash(frozenset(s.t.items()))
        return s._h
    def __eq__(s, o): return isinstance(o, IPoly) and s.t == o.t
    def __add__(s, o):
        o = ip(o); r = dict(s.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + c
            if v: r[m] = v
            else: r.pop(m, None)
        return IPoly(r)
    __radd__ = __add__
    def __neg__(s): return IPoly({m: -c for m, c in s.t.items()})
    def __sub__(s, o): return s + (-ip(o))
    def __rsub__(s, o): return ip(o) + (-s)
    def __mul__(s, o):
        o = ip(o); r = {}
        for m, c in s.t.items():
            for n, d in o.t.items():
                k = tuple(sorted(m + n)); v = r.get(k, 0) + c * d
                if v: r[k] = v
                else: r.pop(k, None)
        return IPoly(r)
    __rmul__ = __mul__
    def subst(s, m):
        if not m: return s
        if not any(a in m for mono in s.t for a in mono): return s
        r = IPoly({})
        for mono, c in s.t.items():
            p = IPoly.const(c)
            for a in mono: p = p * (m[a] if a in m else IPoly.atom(a))
            r = r + p
        return r
    def divmod_by(s, d):
        """syntactic division by a single-monomial polynomial d: returns (q, r) with s = q*d + r"""
        if d.is_const():
            if d.cval() == 1: return s, IPoly({})
            q = {}; r = {}
            for m, c in s.t.items():
                a, b = divmod(c, d.cval()) if d.cval() else (0, c)
                if c % d.cval() == 0: q[m] = c // d.cval()
                else: r[m] = c
            return IPoly(q), IPoly(r)
        if len(d.t) != 1: 
            return None
        (dm, dc), = d.t.items()
        q = {}; r = {}
        for m, c in s.t.items():
            mm = list(m); ok = c % dc == 0
            if ok:
                for a in dm:
                    if a in mm: mm.remove(a)
                    else: ok = False; break
            if ok: q[tuple(mm)] = q.get(tuple(mm), 0) + c // dc
            else: r[m] = c
        return IPoly(q), IPoly(r)
    def divs(s, d):
        """candidate decompositions s = q*d + r (the caller checks the ranges that make q, r the quotient and remainder)"""
        if d.is_const() or len(d.t) == 1:
            r = s.divmod_by(d); return [r] if r is not None else []
        out = []
        for lead, lc in d.t.items():
            if lc not in (1, -1) or not lead: continue
            q = IPoly({}); r = s; ok = True
            for _ in range(12):
                hit = None
                for m, c in r.t.items():
                    mm = list(m); div = True
                    for a in lead:
                        if a in mm: mm.remove(a)
                        else: div = False; break
                    if div: hit = IPoly({tuple(mm): c * lc}); break
                if hit is None: break
                q = q + hit; r = r - hit * d
            else: ok = False
            if ok and (q, r) not in out: out.append((q, r))
        return out
    def z(s):
        e = None
        for m, c in sorted(s.t.items()):
            p = None
            for a in m:
                x = z3.Int(a); p = x if p is None else p * x
            if p is None: p = z3.IntVal(c)
            elif c != 1: p = z3.IntVal(c) * p
            e = p if e is None else e + p
        return e if e is not None else z3.IntVal(0)
    def __repr__(s):
        if not s.t: return "0"
        return "+".join((str(c) if c != 1 or not m else "") + ("*" if c != 1 and m else "") + "*".join(m) for m, c in sorted(s.t.items())).replace("+-", "-")

def ip(x):
    if isinstance(x, IPoly): return x
    if isinstance(x, bool): return IPoly.const(int(x))
    if isinstance(x, int): return IPoly.const(x)
    raise TypeError("not an int: %r" % (x,))

# ------------------------------------------------------------------ scalar coefficients
class SPoly:
    """commutative polynomial over scalar atoms; monomial = sorted tuple of (name, conj)"""
    __slots__ = ("t",)
    def __init__(s, t): s.t = t
    @staticmethod
    def const(c): c = Fraction(c); return SPoly({(): c} if c else {})
    @staticmethod
    def atom(n, conj=False): return SPoly({((n, conj),): Fraction(1)})
    def __eq__(s, o): return isinstance(o, SPoly) and s.t == o.t
    def __hash__(s): return hash(frozenset(s.t.items()))
    def is_zero(s): return not s.t
    def is_const(s): return not s.t or (len(s.t) == 1 and () in s.t)
    def cval(s): return s.t.get((), Fraction(0))
    def __add__(s, o):
        r = dict(s.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + c
            if v: r[m] = v
            else: r.pop(m, None)
        return SPoly(r)
    def __neg__(s): return SPoly({m: -c for m, c in s.t.items()})
    def __sub__(s, o): return s + (-o)
    def __mul__(s, o):
        r = {}
        for m, c in s.t.items():
            for n, d in o.t.items():
                k = _cancel(tuple(sorted(m + n))); v = r.get(k, 0) + c * d
                if v: r[k] = v
                else: r.pop(k, None)
        return SPoly(r)
    def conj(s, real=()):
        return SPoly({tuple(sorted((n, (not cj) if n not in real else cj) for n, cj in m)): c for m, c in s.t.items()})
    def map_atoms(s, f):
        r = SPoly({})
        for m, c in s.t.items():
            p = SPoly.const(c)
            for n, cj in m: p = p * f(n, cj)
            r = r + p
        return r
    def __repr__(s):
        if not s.t: return "0"
        return "+".join(("%s" % c if c != 1 or not m else "") + ("*" if c != 1 and m else "") + "*".join(("conj(%s)" % n if cj else n) for n, cj in m) for m, c in sorted(s.t.items(), key=str)).replace("+-", "-")

def _cancel(m):
    # x * inv(x) = 1
    m = list(m)
    changed = True
    while changed:
        changed = False
        for i, (n, c) in enumerate(m):
            if n.startswith("inv:") and (n[4:], c) in m:
                m.remove((n, c)); m.remove((n[4:], c)); changed = True; break
    return tuple(m)

# ------------------------------------------------------------------ matrix atoms and terms
class Atom:
    """kind: gen | sel | inv | ...; rows/cols are IPoly. sel: n x len selector of indices [off, off+len)"""
    __slots__ = ("kind", "name", "rows", "cols", "real", "sym", "herm", "off", "base", "tag")
    def __init__(s, kind, name, rows, cols, real=False, sym=False, herm=False, off=None, base=None, tag=None):
        s.kind = kind; s.name = name; s.rows = ip(rows); s.cols = ip(cols); s.real = real; s.sym = sym; s.herm = herm; s.off = off; s.base = base; s.tag = tag
    def key(s):
        if s.kind == "sel": return ("sel", s.rows, s.off, s.cols)
        return (s.kind, s.name)
    def __eq__(s, o): return s is o or (isinstance(o, Atom) and s.key() == o.key())
    def __hash__(s): return hash(s.key())
    def __repr__(s):
        if s.kind == "sel": return "S[%r;%r+%r]" % (s.rows, s.off, s.cols)
        return s.name

OPC = {  # composition of operations: OPC[outer][inner]
    "N": {"N": "N", "T": "T", "C": "C", "J": "J"}, "T": {"N": "T", "T": "N", "C": "J", "J": "C"},
    "C": {"N": "C", "T": "J", "C": "N", "J": "T"}, "J": {"N": "J", "T": "C", "C": "T", "J": "N"}}

def fop(f, op):
    a, o = f
    o = OPC[op][o]
    if a.real: o = {"C": "T", "J": "N"}.get(o, o)
    if a.sym: o = {"T": "N", "C": "J"}.get(o, o)
    if a.herm: o = {"C": "N", "T": "J"}.get(o, o)
    return (a, o)

def frows(f): return f[0].cols if f[1] in "TC" else f[0].rows
def fcols(f): return f[0].rows if f[1] in "TC" else f[0].cols

class MTerm:
    __slots__ = ("r", "c", "t")
    def __init__(s, r, c, t=None): s.r = ip(r); s.c = ip(c); s.t = t or {}
    @staticmethod
    def zero(r, c): return MTerm(r, c, {})
    @staticmethod
    def ident(n, coef=None): return MTerm(n, n, {(): coef or SPoly.const(1)})
    @staticmethod
    def of(atom, op="N"):
        f = fop((atom, "N"), op)
        return MTerm(frows(f), fcols(f), {(f,): SPoly.const(1)})
    @staticmethod
    def scalar(sp): return MTerm(1, 1, {(): sp} if sp.t else {})
    def copy(s): return MTerm(s.r, s.c, dict(s.t))
    def add(s, o, k=1):
        r = dict(s.t)
        for w, c in o.t.items():
            cc = c if k == 1 else (-c if k == -1 else c * k)
            v = r[w] + cc if w in r else cc
            if v.t: r[w] = v
            else: r.pop(w, None)
        return MTerm(s.r, s.c, r)
    def scale(s, sp):
        r = {}
        for w, c in s.t.items():
            v = c * sp
            if v.t: r[w] = v
        return MTerm(s.r, s.c, r)
    def mul(s, o):
        r = {}
        for w, c in s.t.items():
            for x, d in o.t.items():
                k = w + x; v = c * d
                if k in r: v = v + r[k]
                if v.t: r[k] = v
                else: r.pop(k, None)
        return MTerm(s.r, o.c, r)
    def op(s, op, realscal=()):
        if op == "N": return s
        r = {}
        for w, c in s.t.items():
            ww = tuple(fop(f, op) for f in (reversed(w) if op in "TC" else w))
            cc = c.conj(realscal) if op in "CJ" else c
            r[ww] = r[ww] + cc if ww in r else cc
        return MTerm(s.c, s.r, r) if op in "TC" else MTerm(s.r, s.c, r)
    def is_zero(s): return not s.t
    def atoms(s):
        return {f[0] for w in s.t for f in w}
    def __repr__(s):
        if not s.t: return "0"
        out = []
        for w, c in sorted(s.t.items(), key=lambda x: str(x)):
            ws = ".".join(repr(a) + ("" if o == "N" else "^" + o) for a, o in w) or "I"
            out.append(("(%r)*" % c if not (c.is_const() and c.cval() == 1) else "") + ws)
        return " + ".join(out)
