"""Disjunctive forward dataflow over the normalised IR.

Abstract state at a program point (a bounded set of disjuncts per point, joined when the
bound is exceeded): the kind set of every tagged value, intervals of small integers, the set
of comparison atoms known to hold, an abstract model of the interpreter's operand stack
(which pushed values are on it), the set of managed objects that are currently not reachable
from any GC root, and whether a runtime error has been raised.  Nothing is executed and no
solver is involved: transfer functions are evaluated over these finite lattices only."""
import re
from ir import *

QNAN = 0x7ffc000000000000
SIGN = 1 << 63
OBJMASK = QNAN | SIGN
PTRMASK = ~OBJMASK & ((1 << 64) - 1)
M64 = (1 << 64) - 1

NUM, NUMX = object(), object()


class Kinds:
    def __init__(self, mod):
        e = None
        for n, d in mod.enums.items():
            if "OBJ_STRING" in d:
                e = d
        if e is None:
            raise RuntimeError("object kind enumeration not found")
        self.names = ["number", "nil", "false", "true", "empty"]
        self.const = {QNAN | 1: 1, QNAN | 2: 2, QNAN | 3: 3, QNAN | 4: 4}
        self.objtype = {}
        for n, v in sorted(e.items(), key=lambda x: x[1]):
            self.objtype[5 + v] = v
            self.names.append(n[4:].lower())
        self.n = len(self.names)
        self.bit = {n: 1 << i for i, n in enumerate(self.names)}
        self.ALL = (1 << self.n) - 1
        self.OBJ = self.ALL & ~31
        self.BOOL = (1 << 2) | (1 << 3)
        self.struct2kind = {}
        for s in mod.structs:
            k = self.of_type(s)
            if k:
                self.struct2kind[s] = k

    def of_type(self, s):
        """kind bit of a C type name such as 'struct.sObjString', 'sObjList*', 'ObjModule*' (0 if none)"""
        s = s.replace("struct.", "").rstrip("*").strip()
        s = re.sub(r"\.\d+$", "", s)
        if s == "sUpvalue" or s == "ObjUpvalue":
            return self.bit.get("upvalue", 0)
        m = re.match(r"^s?Obj([A-Z]\w*)$", s)
        if not m:
            return 0
        n = re.sub(r"(?<!^)([A-Z])", r"_\1", m.group(1)).lower()
        return self.bit.get(n, 0)

    def is_obj_type(self, s):
        b = s.replace("struct.", "").rstrip("*").strip()
        return b in ("sObj", "Obj")

    def str(self, m):
        if m == self.ALL:
            return "any"
        return "|".join(self.names[i] for i in range(self.n) if m >> i & 1) or "none"


class State:
    __slots__ = ("env", "kinds", "ints", "truth", "mem", "aver", "stack", "base", "err", "dead", "own", "fresh", "x", "trace")

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.kinds = dict(self.kinds)
        s.ints = dict(self.ints)
        s.truth = dict(self.truth)
        s.mem = dict(self.mem)
        s.aver = dict(self.aver)
        s.stack = None if self.stack is None else list(self.stack)
        s.base = self.base
        s.err = self.err
        s.dead = dict(self.dead)
        s.own = dict(self.own)
        s.fresh = dict(self.fresh)
        s.x = dict(self.x)
        s.trace = self.trace
        return s


def new_state():
    s = State()
    s.env, s.kinds, s.ints, s.truth, s.mem, s.aver = {}, {}, {}, {}, {}, {}
    s.stack, s.base, s.err, s.dead, s.own, s.fresh, s.x, s.trace = [], 0, None, {}, {}, {}, {}, None
    return s


def tbase(t):
    """the object a pointer/value term points into"""
    while True:
        o = t.op
        if o in ("box", "unbox", "+", "idx", "ld", "zext", "trunc", "pt"):
            t = t.a[0]
        else:
            return t


def abase(t):
    """base of an address without looking through loads"""
    while t.op in ("+", "idx", "box", "unbox"):
        t = t.a[0]
    return t


SWAP = {"sgt": "slt", "sge": "sle", "ugt": "ult", "uge": "ule"}


class Abort(Exception):
    pass


class Word:
    """one word of a structure assignment, in the role of a load or store"""
    op, ty, x = "word", "i64", 8

    def __init__(self, i):
        self.i = i

    def __getattr__(self, n):
        return getattr(self.i, n)


class Flow:
    signs = False       # remember whether integers are positive when they go round a loop
    MAXD = 48
    WIDEN = 150         # memory shapes at one point before values are merged

    def __init__(self, mod, fn, kinds, clients=(), vm=None, summ=None, gc=None):
        self.mod, self.fn, self.K = mod, fn, kinds
        self.clients = list(clients)
        self.summ = summ
        self.gc = gc
        self.steps = 0
        self.maxsteps = 400000
        self.weak = ()
        self.track_pops = False
        self.maxstack = 40
        self.loop_heights = {}
        self.rets = []
        self._cand = {}
        self.stacktop = None   # byte offset of DictuVM.stackTop
        if "_vm" in mod.structs or True:
            for n in ("_vm", "DictuVM", "sDictuVM"):
                d = mod.ditypes.get(n)
                if d:
                    for m in d["m"]:
                        if m[0] == "stackTop":
                            self.stacktop = m[1]
        self.param_types = fn.ditys[1:] if fn.ditys else []
        self.vmp = None
        for i, t in enumerate(self.param_types[:fn.nargs]):
            if t.rstrip("*") in ("_vm", "DictuVM", "sDictuVM"):
                self.vmp = mk("p", i)
                break
        self.nsimple = 0

    # ---------- terms ----------
    def T(self, st, o):
        if isinstance(o, int):
            if o < self.fn.nargs:
                return mk("p", o)
            t = st.env.get(o)
            if t is None:
                t = mk("s", o)
            return t
        k = o[0]
        if k == "c":
            return mk("c", o[1], o[2])
        if k == "n":
            return NULL
        if k == "g":
            return mk("g", o[1], o[2])
        if k == "fn":
            return mk("fn", o[1])
        if k == "f":
            return mk("f", o[2])
        if k == "ba":
            return mk("ba", o[1], o[2])
        return mk("u")

    def plus(self, b, off):
        if off == 0:
            return b
        if b.op == "+":
            return self.plus(b.a[0], b.a[1] + off)
        if b.op == "sp" and off % 8 == 0:
            return mk("sp", b.a[0] + off // 8)
        if b.op == "g":
            return mk("g", b.a[0], b.a[1] + off)
        return mk("+", b, off)

    def limit(self, t, inst):
        if t.depth > 24:
            return mk("s", inst.id)
        return t

    def binop(self, op, a, b, w):
        if a.op == "c" and b.op == "c":
            x, y = a.a[0], b.a[0]
            m = (1 << w) - 1
            sx = x - (1 << w) if x >> (w - 1) else x
            sy = y - (1 << w) if y >> (w - 1) else y
            r = None
            if op == "add": r = x + y
            elif op == "sub": r = x - y
            elif op == "mul": r = x * y
            elif op == "and": r = x & y
            elif op == "or": r = x | y
            elif op == "xor": r = x ^ y
            elif op == "shl": r = x << y if y < w else 0
            elif op == "lshr": r = x >> y if y < w else 0
            elif op == "ashr": r = sx >> y if y < w else 0
            elif op == "sdiv" and sy: r = int(abs(sx) // abs(sy)) * (1 if (sx < 0) == (sy < 0) else -1)
            elif op == "udiv" and y: r = x // y
            if r is not None:
                return C(r & m, w)
        if a.op == "c" and op in ("add", "mul", "and", "or", "xor"):
            a, b = b, a
        if b.op == "c":
            v = b.a[0]
            if w == 64:
                if op == "and" and v == PTRMASK:
                    return a.a[0] if a.op == "box" else mk("unbox", a)
                if op == "or" and v == OBJMASK:
                    return a.a[0] if a.op == "unbox" else mk("box", a)
            if w == 1:
                if op == "xor" and v == 1:
                    return self.neg(a)
                if op == "and":
                    return a if v else b
                if op == "or":
                    return b if v else a
            if v == 0 and op in ("add", "sub", "or", "xor", "shl", "lshr", "ashr"):
                return a
            if op == "sub":
                op, b = "add", C(-v, w)
            if op == "add" and a.op == "add" and a.a[2] == w and a.a[1].op == "c":
                return self.binop("add", a.a[0], C(a.a[1].a[0] + b.a[0], w), w)
            if op == "mul" and v == 1:
                return a
        if op == "sub" and a is b:
            return C(0, w)
        if op in ("and", "or") and a is b:
            return a
        return mk(op, a, b, w)

    def neg(self, t):
        if t.op == "not":
            return t.a[0]
        if t.op == "c":
            return C(1 - (t.a[0] & 1), 1)
        return mk("not", t)

    def cmp(self, pred, a, b, w):
        if pred == "ne":
            return self.neg(self.cmp("eq", a, b, w))
        if pred == "sgt": return self.cmp("slt", b, a, w)
        if pred == "ugt": return self.cmp("ult", b, a, w)
        if pred == "sle": return self.neg(self.cmp("slt", b, a, w))
        if pred == "ule": return self.neg(self.cmp("ult", b, a, w))
        if pred == "sge": return self.neg(self.cmp("slt", a, b, w))
        if pred == "uge": return self.neg(self.cmp("ult", a, b, w))
        if pred == "eq":
            if a.op == "c" and b.op != "c":
                a, b = b, a
            if b.op == "c":
                if a.op in ("zext", "sext") :
                    src, sw, dw = a.a[0], a.a[1], a.a[2]
                    bv = b.a[0] & ((1 << dw) - 1)
                    if a.op == "zext":
                        if sw == 1:
                            return src if bv == 1 else self.neg(src) if bv == 0 else C(0, 1)
                        if bv < (1 << sw):
                            return self.cmp("eq", src, C(bv, sw), sw)
                        return C(0, 1)
                    sv = bv - (1 << dw) if bv >> (dw - 1) else bv
                    if -(1 << (sw - 1)) <= sv < (1 << (sw - 1)):
                        return self.cmp("eq", src, C(sv, sw), sw)
                    return C(0, 1)
                if w == 1:
                    return a if b.a[0] else self.neg(a)
            elif b.uid < a.uid:
                a, b = b, a
            if a is b:
                return C(1, 1)
            if a.op == "c" and b.op == "c":
                return C(int(a.a[0] == b.a[0]), 1)
        else:
            if a is b:
                return C(0, 1)
            if a.op == "c" and b.op == "c":
                x, y = a.a[0], b.a[0]
                if pred == "slt":
                    x = x - (1 << w) if x >> (w - 1) else x
                    y = y - (1 << w) if y >> (w - 1) else y
                return C(int(x < y), 1)
            # look through sign extension against constants / other extensions
            if pred == "slt" and a.op == "sext" and b.op == "sext" and a.a[1] == b.a[1]:
                return self.cmp("slt", a.a[0], b.a[0], a.a[1])
        return mk("cmp", pred, a, b, w)

    # ---------- abstract evaluation ----------
    def kindmask(self, st, v):
        K = self.K
        if v.op == "box":
            m = st.kinds.get(v)
            if m is not None:
                return m
            return self.ptrkind(st, v.a[0])
        if v.op == "num":
            return 1
        if v.op == "c":
            b = K.const.get(v.a[0])
            if b is not None:
                return 1 << b
            if (v.a[0] & QNAN) != QNAN:
                return 1
            return K.ALL
        if v.op == "f":
            return 1
        m = st.kinds.get(v)
        if v.op == "ld" and st.x:
            e = self.elem(v.a[0])
            if e is not None:
                for k, fm in st.x.items():
                    if k[0] == "fa" and k[2] is e[0] and self.cur not in self.headers[k[1]]:
                        m = fm if m is None else m & fm
        return K.ALL if m is None else m

    def elem(self, a):
        """(array base, index) when a addresses an 8-byte array element"""
        off = 0
        if a.op == "+":
            a, off = a.a[0], a.a[1]
        if a.op == "idx" and len(a.a) == 3 and a.a[2] == 8:
            return (a.a[0], a.a[1], off)
        return (a, None, off)

    def ptrkind(self, st, p):
        """kind of the managed object pointer p"""
        K = self.K
        m = st.kinds.get(mk("box", p))
        if m is not None:
            return m
        t = st.x.get(("pk", p))
        if t:
            return t
        return K.OBJ

    def interval(self, st, t):
        o = t.op
        if o == "c":
            w = t.a[1]
            v = t.a[0]
            if v >> (w - 1) and w > 1:
                v -= 1 << w
            return (v, v)
        f = st.ints.get(t)
        r = self.interval0(st, t)
        if f is None:
            return r
        if r is None:
            return f
        return (max(f[0], r[0]), min(f[1], r[1]))

    def interval0(self, st, t):
        o = t.op
        if o == "zext":
            r = self.interval(st, t.a[0])
            w = t.a[1]
            if w == 1:
                return (0, 1)
            if r and r[0] >= 0:
                return r
            return (0, (1 << w) - 1)
        if o == "sext":
            r = self.interval(st, t.a[0])
            w = t.a[1]
            return r or (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        if o == "add" and t.a[1].op == "c":
            r = self.interval(st, t.a[0])
            if r:
                k = self.interval(st, t.a[1])[0]
                lo, hi = r[0] + k, r[1] + k
                w = t.a[2]
                if -(1 << (w - 1)) <= lo and hi < (1 << (w - 1)):
                    return (lo, hi)
            return None
        if o == "ld" and len(t.a) > 1 and t.a[1] == 1:
            return None
        if o in ("and",) and t.a[1].op == "c":
            v = t.a[1].a[0]
            w = t.a[2]
            if not v >> (w - 1):
                return (0, v)
        if o == "srem" and t.a[1].op == "c":
            v = t.a[1].a[0]
            return (-(v - 1), v - 1)
        if o == "urem" and t.a[1].op == "c":
            return (0, t.a[1].a[0] - 1)
        if o == "trunc":
            r = self.interval(st, t.a[0])
            w = t.a[2]
            if r and -(1 << (w - 1)) <= r[0] and r[1] < (1 << (w - 1)):
                return r
        if o == "s" and ("ind", t) in st.x:
            lo = st.x[("ind", t)]
            return (lo, (1 << 62))
        return None

    def kev(self, t, v, k, memo):
        """value of term t when value v has kind k: int, NUM, NUMX, ('O',k), ('P',k) or None"""
        if t is v:
            if k == 0:
                return NUM
            if k < 5:
                return QNAN | k
            return ("O", k)
        r = memo.get(t, memo)
        if r is not memo:
            return r
        r = None
        o = t.op
        if o == "c":
            r = t.a[0]
        elif v not in self.subs(t):
            r = None
        elif o == "unbox":
            x = self.kev(t.a[0], v, k, memo)
            if isinstance(x, tuple) and x[0] == "O":
                r = ("P", x[1])
        elif o in ("and", "or"):
            x = self.kev(t.a[0], v, k, memo)
            y = self.kev(t.a[1], v, k, memo)
            w = t.a[2]
            if w == 1:
                if o == "and":
                    if x == 0 or y == 0: r = 0
                    elif x == 1 and y == 1: r = 1
                else:
                    if x == 1 or y == 1: r = 1
                    elif x == 0 and y == 0: r = 0
            elif isinstance(y, int):
                if isinstance(x, int):
                    r = x & y if o == "and" else x | y
                elif x is NUM:
                    if o == "and" and (y & QNAN) == QNAN: r = NUMX
                    elif o == "or" and (y & QNAN) == 0: r = NUM
                elif isinstance(x, tuple) and x[0] == "O":
                    if o == "and" and (y & ~OBJMASK) == 0: r = y
                    elif o == "or" and (y & ~0xff) == 0: r = x
        elif o == "not":
            x = self.kev(t.a[0], v, k, memo)
            if isinstance(x, int):
                r = 1 - x
        elif o == "cmp":
            x = self.kev(t.a[1], v, k, memo)
            y = self.kev(t.a[2], v, k, memo)
            w = t.a[3]
            if isinstance(x, int) and isinstance(y, int):
                if t.a[0] == "eq": r = int(x == y)
                elif t.a[0] == "ult": r = int(x < y)
                else:
                    sx = x - (1 << w) if x >> (w - 1) else x
                    sy = y - (1 << w) if y >> (w - 1) else y
                    r = int(sx < sy)
            elif t.a[0] == "eq" and isinstance(y, int):
                if (x is NUM or x is NUMX) and (y & QNAN) == QNAN: r = 0
                elif isinstance(x, tuple) and x[0] == "O" and (y & OBJMASK) != OBJMASK: r = 0
                elif isinstance(x, tuple) and x[0] == "P" and y == 0: r = 0
        elif o == "ld":
            x = self.kev(t.a[0], v, k, memo)
            if isinstance(x, tuple) and x[0] == "P" and t.a[1] == 4:
                r = self.K.objtype.get(x[1])
        elif o in ("zext", "sext", "trunc"):
            x = self.kev(t.a[0], v, k, memo)
            if isinstance(x, int):
                if o == "zext": r = x
                elif o == "trunc": r = x & ((1 << t.a[2]) - 1)
                elif o == "sext":
                    sw, dw = t.a[1], t.a[2]
                    if x >> (sw - 1): x |= ((1 << dw) - 1) ^ ((1 << sw) - 1)
                    r = x
        elif o == "add":
            x = self.kev(t.a[0], v, k, memo)
            y = self.kev(t.a[1], v, k, memo)
            if isinstance(x, int) and isinstance(y, int):
                r = (x + y) & ((1 << t.a[2]) - 1)
        memo[t] = r
        return r

    _subs = {}

    def subs(self, t):
        r = Flow._subs.get(t)
        if r is None:
            r = {t}
            for x in t.a:
                if isinstance(x, Term):
                    r |= self.subs(x)
            r = Flow._subs[t] = frozenset(r)
        return r

    def cands(self, c):
        """value terms whose kind the condition can depend on"""
        r = self._cand.get(c)
        if r is not None:
            return r
        r = []

        def add(x):
            if x.op not in ("c", "box", "num") and x not in r:
                r.append(x)
        for t in self.subs(c):
            if t.op == "unbox":
                add(t.a[0])
            elif t.op in ("and", "or") and t.a[2] == 64 and t.a[1].op == "c":
                v = t.a[1].a[0]
                if (t.op == "and" and (v & QNAN) == QNAN) or (t.op == "or" and v == 1):
                    add(t.a[0])
            elif t.op == "cmp" and t.a[0] == "eq" and t.a[2].op == "c" and t.a[3] == 64 and (t.a[2].a[0] & QNAN) == QNAN:
                if t.a[1].op not in ("and", "or"):
                    add(t.a[1])
        self._cand[c] = r
        return r

    def evalc(self, st, c):
        """truth of an i1 term: True / False / None"""
        if c.op == "c":
            return bool(c.a[0] & 1)
        if c.op == "not":
            r = self.evalc(st, c.a[0])
            return None if r is None else not r
        r = st.truth.get(c)
        if r is not None:
            return r
        if c.op in ("and", "or") and c.a[2] == 1:
            x, y = self.evalc(st, c.a[0]), self.evalc(st, c.a[1])
            if c.op == "and":
                if x is False or y is False: return False
                if x and y: return True
            else:
                if x or y: return True
                if x is False and y is False: return False
            return None
        if c.op == "cmp":
            p, a, b, w = c.a
            if p == "eq" and b.op == "c" and b.a[0] == 0 and (a.op in ("al", "g", "fn", "sp") or (a.op == "+" and abase(a).op in ("al", "g"))):
                return False
            x, y = self.interval(st, a), self.interval(st, b)
            if x and y:
                if p == "eq":
                    if x[1] < y[0] or y[1] < x[0]: return False
                    if x == y and x[0] == x[1]: return True
                elif p == "slt" or (p == "ult" and x[0] >= 0 and y[0] >= 0):
                    if x[1] < y[0]: return True
                    if x[0] >= y[1]: return False
            # relational closure on recorded atoms
            if p == "eq":
                if st.truth.get(mk("cmp", "slt", a, b, w)) or st.truth.get(mk("cmp", "slt", b, a, w)):
                    return False
            elif p == "slt":
                if st.truth.get(mk("cmp", "slt", b, a, w)):
                    return False
        res = None
        for v in self.cands(c):
            m = self.kindmask(st, v)
            seen = set()
            memo_all = True
            for k in range(self.K.n):
                if m >> k & 1:
                    x = self.kev(c, v, k, {})
                    seen.add(x if isinstance(x, int) else None)
            if seen == {1}:
                return True
            if seen == {0}:
                return False
        return res

    def assume(self, st, c, val):
        """refine st in place; False if contradictory"""
        if c.op == "c":
            return bool(c.a[0] & 1) == val
        if c.op == "not":
            return self.assume(st, c.a[0], not val)
        if c.op in ("and", "or") and c.a[2] == 1:
            conj = c.op == "and"
            if conj == val:
                if not (self.assume(st, c.a[0], val) and self.assume(st, c.a[1], val)):
                    return False
            st.truth[c] = val
            return True
        st.truth[c] = val
        if c.op == "cmp":
            p, a, b, w = c.a
            ia, ib = self.interval(st, a), self.interval(st, b)
            full = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if w > 1 else (0, 1)
            if p == "eq" and val:
                if ib and a.op != "c":
                    n = (max(ia[0], ib[0]), min(ia[1], ib[1])) if ia else ib
                    if n[0] > n[1]: return False
                    st.ints[a] = n
                if ia and b.op != "c":
                    n = (max(ia[0], ib[0]), min(ia[1], ib[1])) if ib else ia
                    st.ints[b] = n
                # a memory/SSA term equal to a constant becomes that constant for kind purposes
            elif p == "eq" and not val:
                if ib and ib[0] == ib[1] and a.op != "c":
                    n = ia or full
                    if n[0] == ib[0]: n = (n[0] + 1, n[1])
                    if n[1] == ib[0]: n = (n[0], n[1] - 1)
                    if n[0] > n[1]: return False
                    if ia or n != full:
                        st.ints[a] = n
            elif p == "slt" or (p == "ult" and ia and ib and ia[0] >= 0 and ib[0] >= 0):
                na, nb = ia or full, ib or full
                if val:   # a < b
                    x = (na[0], min(na[1], nb[1] - 1))
                    y = (max(nb[0], na[0] + 1), nb[1])
                else:     # a >= b
                    x = (max(na[0], nb[0]), na[1])
                    y = (nb[0], min(nb[1], na[1]))
                if x[0] > x[1] or y[0] > y[1]: return False
                if a.op != "c" and x != full: st.ints[a] = x
                if b.op != "c" and y != full: st.ints[b] = y
            elif p == "ult" and val and ib and ib[0] >= 0 and a.op != "c":
                st.ints[a] = (0, ib[1] - 1)
        for v in self.cands(c):
            m = self.kindmask(st, v)
            n = 0
            for k in range(self.K.n):
                if m >> k & 1:
                    x = self.kev(c, v, k, {})
                    if not isinstance(x, int) or bool(x) == val:
                        n |= 1 << k
            if n == 0:
                return False
            if n != m:
                st.kinds[v] = n
        return True

    # ---------- state maintenance ----------
    def kill(self, st, leaf, repl=None):
        """leaf is about to be re-defined"""
        hit = lambda t: leaf in t.leaves
        for d in (st.kinds, st.ints, st.truth):
            for t in [t for t in d if hit(t)]:
                del d[t]
        for a in [a for a, v in st.mem.items() if hit(a) or hit(v)]:
            del st.mem[a]
        old = repl or mk("old", leaf)
        if st.stack:
            st.stack = [self.subst(x, leaf, old) if hit(x) else x for x in st.stack]
        for d in (st.dead, st.own, st.fresh):
            for t in [t for t in d if hit(t)]:
                v = d.pop(t)
                if repl is not None:
                    d[self.subst(t, leaf, old)] = v
        for t, v in list(st.own.items()):
            if isinstance(v, Term) and hit(v):
                st.own[t] = self.subst(v, leaf, old)
        for k in [k for k in st.x if isinstance(k, tuple) and any(isinstance(e, Term) and hit(e) for e in k)]:
            del st.x[k]

    def subst(self, t, a, b):
        if t is a:
            return b
        if a not in t.leaves:
            return t
        return mk(t.op, *[self.subst(x, a, b) if isinstance(x, Term) else x for x in t.a])

    def key(self, st, live, bi):
        env = tuple(sorted((i, t.uid) for i, t in st.env.items() if i in live))
        return (env,
                tuple(t.uid for t in st.stack) if st.stack is not None else None, st.base, st.err,
                tuple(sorted(t.uid for t in st.dead)),
                tuple(sorted(t.uid for t in st.fresh)),
                tuple(sorted((t.uid, v.uid if isinstance(v, Term) else 0) for t, v in st.own.items())),
                tuple(sorted((a.uid, v.uid) for a, v in st.mem.items())),
                tuple(sorted((repr(k), repr(v)) for k, v in st.x.items() if k[0] != "ind" and k[0] != "pk")) if st.x else ())

    def facts(self, st):
        return (frozenset(st.kinds.items()), frozenset(st.ints.items()), frozenset(st.truth.items()))

    def merge(self, a, b):
        """join the facts of b into a (same key)"""
        a.kinds = {t: m | b.kinds[t] for t, m in a.kinds.items() if t in b.kinds}
        a.ints = {t: (min(r[0], b.ints[t][0]), max(r[1], b.ints[t][1])) for t, r in a.ints.items() if t in b.ints}
        a.truth = {t: v for t, v in a.truth.items() if b.truth.get(t) == v}
        return a

    def prune(self, st, live):
        st.env = {i: t for i, t in st.env.items() if i in live or isinstance(i, str)}
        reach = set()
        for t in st.env.values():
            reach |= t.leaves
        for t in st.mem.values():
            reach |= t.leaves
        for t in st.mem:
            reach |= t.leaves
        if st.stack:
            for t in st.stack:
                reach |= t.leaves
        ok = lambda t: not t.leaves or t.leaves <= reach
        for n in ("kinds", "ints", "truth", "fresh", "dead"):
            d = getattr(st, n)
            bad = [t for t in d if not ok(t)]
            if bad:
                for t in bad:
                    del d[t]
        bad = [t for t in st.own if not ok(t)]
        for t in bad:
            del st.own[t]
        if st.x:
            for k in [k for k in st.x if isinstance(k, tuple) and any(isinstance(e, Term) and not ok(e) for e in k)]:
                del st.x[k]

    # ---------- running ----------
    def run(self, init=None, entry=0, stop=None):
        fn = self.fn
        cfg = fn.cfg()
        self.live = [l | {i.id for i in b if i.op == "phi"} for l, b in zip(fn.liveness(), fn.blocks)]
        self.headers = cfg["loops"]
        rank = {b: i for i, b in enumerate(cfg["rpo"])}
        self.induct = self.inductions(cfg)
        st = init or new_state()
        pending = {entry: [st]}
        seen = {}
        self.stop = stop
        while pending:
            bi = min(pending, key=lambda b: rank.get(b, 1 << 30))
            sts = pending.pop(bi)
            lst = seen.setdefault(bi, {})
            todo = []
            for s in sts:
                if len(lst) > self.WIDEN:
                    self.widen(s, bi)
                    if len(lst) > 2 * self.WIDEN:
                        # too many memory shapes: forget what is in memory here
                        if len(lst) > 4 * self.WIDEN and s.stack and len(s.stack) > 4:
                            s.stack = None
                        for a in list(s.mem):
                            if tbase(s.mem[a]) not in s.fresh:
                                del s.mem[a]
                                if abase(a).op == "al":
                                    s.aver[abase(a)] = "w%d" % bi
                self.prune(s, self.live[bi])
                k = self.key(s, self.live[bi], bi)
                f = self.facts(s)
                ent = lst.get(k)
                if ent is None:
                    lst[k] = [[f], None]
                    todo.append((k, s))
                else:
                    if any(self.subsumed(f, g) for g in ent[0]):
                        continue
                    if len(ent[0]) >= self.MAXD or sum(len(e[0]) for e in lst.values()) > 4 * self.MAXD:
                        # join
                        if ent[1] is not None:
                            s = self.merge(s, ent[1])
                        for g in ent[0][:1]:
                            pass
                        f = self.facts(s)
                        if f in ent[0]:
                            continue
                        ent[1] = s.copy()
                        ent[0] = [f]
                    else:
                        ent[0].append(f)
                        if ent[1] is None:
                            ent[1] = s.copy()
                        else:
                            ent[1] = self.merge(ent[1], s)
                    todo.append((k, s))
            if len(lst) > 10 * self.WIDEN:
                raise Abort("too many disjuncts in %s block %d" % (fn.disp, bi))
            for k, s in todo:
                for t, ns in self.block(bi, s):
                    if stop and t in stop:
                        self.rets.append((ns, None, None))
                        continue
                    pending.setdefault(t, []).append(ns)
        return self

    def widen(self, st, bi):
        """too many disjuncts at this point: forget how values were merged"""
        for k, t in list(st.env.items()):
            d = self.fn.defs.get(k)
            if d is not None and d.op not in ("call", "alloca") and tbase(t) not in st.fresh:
                leaf = mk("s", k)
                if t is not leaf and (t.depth > 4 or d.op in ("phi", "select", "load", "zext", "add", "icmp")):
                    m = self.kindmask(st, t) if d.ty == "i64" else None
                    self.kill(st, leaf)
                    st.env[k] = leaf
                    if m is not None:
                        st.kinds[leaf] = m
        st.truth = {t: v for t, v in st.truth.items() if not t.leaves}
        st.ints = {t: v for t, v in st.ints.items() if t.op != "add" and t.depth < 6}
        for a, v in list(st.mem.items()):
            if v.op == "h" or v.op == "c":
                st.mem[a] = mk("h", -1, a)

    def subsumed(self, f, g):
        # g is weaker-or-equal: every fact of g is implied by f (syntactically)
        return g[2] <= f[2] and g[0] <= f[0] and g[1] <= f[1]

    def inductions(self, cfg):
        """header phi id -> lower bound for up-counting loops started at a constant"""
        r = {}
        for h, body in cfg["loops"].items():
            for i in self.fn.blocks[h]:
                if i.op != "phi":
                    break
                lo, ok = None, True
                for v, p in zip(i.ops, i.x):
                    if p in body:
                        if not self.incr(v, i.id, body, set()):
                            ok = False
                    elif isinstance(v, tuple) and v[0] == "c":
                        x = v[1] - (1 << v[2]) if v[1] >> (v[2] - 1) else v[1]
                        lo = x if lo is None else min(lo, x)
                    else:
                        ok = False
                if ok and lo is not None:
                    r[i.id] = lo
        return r

    def unit(self, phi, h):
        """the counter takes every value from 0 on (or from its start, for loops that skip a known prefix)"""
        body = self.headers[h]
        d = self.fn.defs[phi]
        for v, p in zip(d.ops, d.x):
            if p in body:
                e = self.fn.defs.get(v) if isinstance(v, int) else None
                if e is None or e.op != "add" or e.ops[0] != phi or not isinstance(e.ops[1], tuple) or e.ops[1][0] != "c" or e.ops[1][1] != 1:
                    return False
        return True

    def incr(self, v, phi, body, seen):
        """v is phi plus a sum of non-negative amounts"""
        if v == phi:
            return True
        if not isinstance(v, int) or v in seen:
            return v in seen if isinstance(v, int) else False
        seen.add(v)
        d = self.fn.defs.get(v)
        if d is None or d.blk not in body:
            return False
        if d.op == "add" and isinstance(d.ops[1], tuple) and d.ops[1][0] == "c":
            c = d.ops[1]
            return c[1] >> (c[2] - 1) == 0 and self.incr(d.ops[0], phi, body, seen)
        if d.op == "phi":
            return all(self.incr(x, phi, body, seen) for x in d.ops)
        if d.op == "select":
            return self.incr(d.ops[1], phi, body, seen) and self.incr(d.ops[2], phi, body, seen)
        return False

    def block(self, bi, st):
        insts = self.fn.blocks[bi]
        self.cur = bi
        out = []
        states = [st]
        st.trace = (st.trace, bi)
        n = 0
        while n < len(insts) and insts[n].op == "phi":
            n += 1
        work = [(st, n)]
        while work:
            st, k = work.pop()
            while True:
                self.steps += 1
                if self.steps > self.maxsteps:
                    raise Abort("step budget exceeded in %s" % self.fn.disp)
                i = insts[k]
                op = i.op
                if op in ("br", "switch", "ret", "unreachable", "indirectbr"):
                    out.extend(self.term(bi, i, st))
                    break
                if op == "call":
                    res = self.call(st, i)
                    for s in res[1:]:
                        work.append((s, k + 1))
                    if not res:
                        break
                    st = res[0]
                    k += 1
                    continue
                if op == "select":
                    c = self.T(st, i.ops[0])
                    v = self.evalc(st, c)
                    if v is None:
                        s2 = st.copy()
                        if self.assume(s2, c, False):
                            s2.env[i.id] = self.T(s2, i.ops[2])
                            work.append((s2, k + 1))
                        if not self.assume(st, c, True):
                            break
                        v = True
                    st.env[i.id] = self.T(st, i.ops[1] if v else i.ops[2])
                    k += 1
                    continue
                self.step(st, i)
                k += 1
        return out

    def step(self, st, i):
        op = i.op
        if op == "load":
            a = self.T(st, i.ops[0])
            for c in self.clients:
                c.on_load(self, st, i, a)
            t = self.limit(self.load(st, a, i), i)
            st.env[i.id] = t
            if i.ty == "i32" and t.op == "ld" and t not in st.ints and self.fieldname(i) in NONNEG:
                st.ints[t] = (0, (1 << 31) - 1)
        elif op == "store":
            v, a = self.T(st, i.ops[0]), self.T(st, i.ops[1])
            for c in self.clients:
                c.on_store(self, st, i, a, v)
            self.store(st, a, v, i)
        elif op == "getelementptr":
            st.env[i.id] = self.limit(self.gep(st, i), i)
            for c in self.clients:
                c.on_gep(self, st, i, self.T(st, i.ops[0]))
        elif op == "icmp":
            w = 64
            st.env[i.id] = self.limit(self.cmp(i.x, self.T(st, i.ops[0]), self.T(st, i.ops[1]), self.width(i, st)), i)
        elif op == "fcmp":
            st.env[i.id] = self.limit(mk("fcmp", i.x, self.T(st, i.ops[0]), self.T(st, i.ops[1])), i)
        elif op in ("ptrtoint", "inttoptr"):
            st.env[i.id] = self.T(st, i.ops[0])
        elif op == "bitcast":
            v = self.T(st, i.ops[0])
            if i.ty == "double":
                for c in self.clients:
                    c.on_asnum(self, st, i, v)
                st.env[i.id] = v.a[0] if v.op == "num" else mk("tonum", v)
            elif i.ty == "i64" and i.x == "double":
                st.env[i.id] = v.a[0] if v.op == "tonum" else mk("num", v)
            else:
                st.env[i.id] = v
        elif op in ("zext", "sext", "trunc"):
            v = self.T(st, i.ops[0])
            sw, dw = int(i.x[1:]), int(i.ty[1:])
            st.env[i.id] = self.limit(self.castt(op, v, sw, dw), i)
        elif op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "sdiv", "udiv", "srem", "urem"):
            w = int(i.ty[1:]) if i.ty[0] == "i" and i.ty[1:].isdigit() else 64
            a, b = self.T(st, i.ops[0]), self.T(st, i.ops[1])
            for c in self.clients:
                c.on_arith(self, st, i, a, b)
            st.env[i.id] = self.limit(self.binop(op, a, b, w), i)
        elif op in ("fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc"):
            for c in self.clients:
                c.on_conv(self, st, i, self.T(st, i.ops[0]))
            st.env[i.id] = self.limit(mk(op, self.T(st, i.ops[0]), i.ty), i)
        elif op == "alloca":
            for c in self.clients:
                c.on_alloca(self, st, i)
            st.env[i.id] = mk("al", i.id)
            for a in [a for a in st.mem if abase(a) is st.env[i.id]]:
                del st.mem[a]
        elif op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            st.env[i.id] = self.limit(mk(op, self.T(st, i.ops[0]), self.T(st, i.ops[1])), i)
        elif op == "fneg":
            st.env[i.id] = self.limit(mk(op, self.T(st, i.ops[0])), i)
        elif op == "extractvalue":
            st.env[i.id] = mk("s", i.id)
        elif op == "freeze":
            st.env[i.id] = self.T(st, i.ops[0])
        elif i.id >= 0:
            st.env[i.id] = mk("s", i.id)

    def fieldname(self, i):
        """source name of the structure field a load/store accesses"""
        o = i.ops[-1]
        d = self.fn.defs.get(o) if isinstance(o, int) else None
        if d is None or d.op != "getelementptr" or not d.x["path"]:
            return None
        s, _, off = d.x["path"][-1]
        return field_name(self.mod, s, off)

    def width(self, i, st):
        # operand width of a comparison
        for o in i.ops:
            if isinstance(o, tuple) and o[0] == "c":
                return o[2]
            if isinstance(o, int):
                d = self.fn.defs.get(o)
                if d is not None:
                    ty = d.ty
                    return int(ty[1:]) if ty[0] == "i" and ty[1:].isdigit() else 64
                if o < self.fn.nargs:
                    ty = self.fn.args[o]
                    return int(ty[1:]) if ty[0] == "i" and ty[1:].isdigit() else 64
        return 64

    def castt(self, op, v, sw, dw):
        if v.op == "c":
            x = v.a[0]
            if op == "sext" and x >> (sw - 1):
                x |= ((1 << dw) - 1) ^ ((1 << sw) - 1)
            return C(x & ((1 << dw) - 1), dw)
        if op == "trunc":
            if v.op in ("zext", "sext"):
                if v.a[1] == dw:
                    return v.a[0]
                if v.a[1] < dw:
                    return mk(v.op, v.a[0], v.a[1], dw)
        if op in ("zext", "sext") and v.op == "zext":
            return mk("zext", v.a[0], v.a[1], dw)
        if op == "sext" and v.op == "sext":
            return mk("sext", v.a[0], v.a[1], dw)
        return mk(op, v, sw, dw)

    def gep(self, st, i):
        b = self.T(st, i.ops[0])
        off = i.x["off"]
        var = []
        for o, s in i.x["v"]:
            t = self.T(st, o)
            while t.op in ("sext", "zext"):
                t = t.a[0]
            k = 0
            if t.op == "add" and t.a[1].op == "c":
                k = self.interval(st, t.a[1])[0]
                t = t.a[0]
            if t.op == "c":
                off += self.interval(st, t)[0] * s + k * s
            else:
                iv = st.ints.get(t)
                if iv and iv[0] == iv[1] and ("ind", t) not in st.x:
                    off += (iv[0] + k) * s
                else:
                    off += k * s
                    var.append((t, s))
        if var:
            # keep constant offset outermost, index innermost
            o2 = 0
            if b.op == "+":
                b, o2 = b.a[0], b.a[1]
            b = mk("idx", b, *[x for p in var for x in p])
            off += o2
        return self.plus(b, off)

    # ---------- memory ----------
    def is_stacktop(self, a):
        return self.vmp is not None and a.op == "+" and a.a[0] is self.vmp and a.a[1] == self.stacktop

    def slot(self, st, h):
        """content of the operand-stack slot at height h (0 = first slot above the entry height)"""
        if st.stack is None:
            return None
        k = h + st.base
        if k < 0:
            return mk("st", h)
        if k < len(st.stack):
            return st.stack[k]
        return mk("u")

    def height(self, st):
        return len(st.stack) - st.base

    def down(self, st, h):
        """materialise the caller's slots from height h upwards"""
        while -st.base > h:
            st.base += 1
            st.stack.insert(0, mk("st", -st.base))

    def popped(self, st, t):
        """a value left the operand stack: nothing is known to keep it alive any more"""
        if self.track_pops and t.op == "st" and t not in st.fresh:
            st.fresh[t] = "popped operand"

    def load(self, st, a, i):
        v = st.mem.get(a)
        if v is not None:
            return v
        if self.is_stacktop(a) and st.stack is not None:
            return mk("sp", self.height(st))
        if a.op == "sp":
            v = self.slot(st, a.a[0])
            if v is not None:
                return v
        ab = abase(a)
        if ab.op == "al":
            ver = st.aver.get(ab)
            if ver is not None:
                return mk("out", ver, a, i.x)
            return mk("ld", a, i.x)
        return mk("ld", a, i.x)

    def store(self, st, a, v, i):
        if self.is_stacktop(a):
            if v.op == "sp" and st.stack is not None:
                h = v.a[0]
                if h + st.base < 0:
                    for c in self.clients:
                        c.on_underflow(self, st, i, h)
                    self.down(st, h)
                k = h + st.base
                if k <= len(st.stack):
                    for t in st.stack[k:]:
                        self.popped(st, t)
                    del st.stack[k:]
                else:
                    st.stack += [mk("u")] * (k - len(st.stack))
            else:
                st.stack = None
            return
        if a.op == "sp":
            if st.stack is not None:
                if a.a[0] + st.base < 0:
                    self.down(st, a.a[0])
                k = a.a[0] + st.base
                if k < len(st.stack):
                    self.popped(st, st.stack[k])
                    st.stack[k] = v
                elif k == len(st.stack):
                    st.x[("abovetop",)] = True
            return
        for t in [t for t in (a,) if t in st.mem]:
            del st.mem[t]
        ldt = mk("ld", a, i.x)
        if ldt is not v and not (v.op == "u" and abase(a).op != "al"):
            # facts about the previous content no longer hold
            for d in (st.kinds, st.ints, st.truth):
                for t in [t for t in d if ldt in self.subs(t)]:
                    del d[t]
            st.mem[a] = v
        self.link(st, a, v)

    def link(self, st, a, v):
        """v is stored into memory at a: it is now reachable from whatever a belongs to"""
        o = tbase(v)
        if o in st.fresh and v.op != "ld":
            if a.op == "+" and a.a[0] is self.vmp and a.a[1] in self.weak:
                return
            b = tbase(a)
            if b is not o and b.op != "al":
                st.own[o] = b

    # ---------- rooting ----------
    def rooted(self, st, o, seen=()):
        if o not in st.fresh:
            return True
        if st.stack is None:
            return True
        for x in st.stack:
            if tbase(x) is o:
                return True
        c = st.own.get(o)
        if c is not None and c not in seen:
            return self.rooted(st, c, seen + (o,))
        return False

    # ---------- calls ----------
    def call(self, st, i):
        name = i.callee
        args = [self.T(st, o) for o in i.ops]
        if name and name.startswith("llvm."):
            if name.startswith("llvm.mem"):
                for c in self.clients:
                    c.on_mem(self, st, i, name, args)
                copy = None
                if name.startswith(("llvm.memcpy", "llvm.memmove")) and args[2].op == "c" and 0 < args[2].a[0] <= 64 and args[2].a[0] % 8 == 0:
                    # assignment of a structure: word by word
                    copy = []
                    for o in range(0, args[2].a[0], 8):
                        a = self.plus(args[1], o)
                        w = Word(i)
                        for c in self.clients:
                            c.on_word(self, st, w, a, None)
                        copy.append((self.plus(args[0], o), self.load(st, a, w), w))
                        for k in range(1, 8):
                            v = st.mem.get(self.plus(args[1], o + k))
                            if v is not None:
                                copy.append((self.plus(args[0], o + k), v, w))
                self.clobber(st, i, args)
                for a, v, w in copy or ():
                    for c in self.clients:
                        c.on_word(self, st, w, a, v)
                    self.store(st, a, v, w)
            if i.id >= 0:
                st.env[i.id] = mk("s", i.id)
            return [st]
        for c in self.clients:
            c.on_call(self, st, i, name, args)
        leaf = mk("s", i.id) if i.id >= 0 else None
        if leaf is not None:
            self.kill(st, leaf)
        if name == "push":
            if st.stack is not None:
                st.stack.append(args[1])
                if len(st.stack) > self.maxstack:
                    st.stack = None
            return [st]
        if name == "pop":
            if st.stack is None:
                r = leaf
            elif st.stack:
                r = st.stack.pop()
            else:
                for c in self.clients:
                    c.on_underflow(self, st, i, -1)
                st.base += 1
                r = mk("st", -st.base)
            if r is not leaf:
                self.popped(st, r)
            if i.id >= 0:
                st.env[i.id] = r
            if st.base > self.maxstack:
                st.stack = None
            return [st]
        if name == "peek":
            r = leaf
            if st.stack is not None and args[1].op == "c":
                r = self.slot(st, self.height(st) - 1 - args[1].a[0]) or leaf
            elif st.stack is not None:
                r = mk("pkd", args[1], len(st.stack) - st.base)
            st.env[i.id] = r
            return [st]
        if name == "runtimeError":
            st.err = "raised"
            st.stack = []
            st.base = 0
            return [st]
        self.clobber(st, i, args)
        res = None
        for c in self.clients:
            r = c.call_effect(self, st, i, name, args, leaf)
            if r is not None:
                res = r
        if res is None:
            if leaf is not None:
                st.env[i.id] = leaf
            res = [st]
        return res

    def clobber(self, st, i, args):
        for k in [k for k in st.aver if st.aver[k] == i.idx * 100003 + i.blk]:
            pass
        for a in args:
            b = abase(a)
            if b.op == "al":
                ver = i.blk * 100003 + i.idx
                st.aver[b] = ver
                for m in [m for m in st.mem if abase(m) is b]:
                    del st.mem[m]
                # facts on earlier outputs of this call site
                for d in (st.kinds, st.ints, st.truth):
                    for t in [t for t in d if any(l.op == "out" and l.a[0] == ver for l in t.leaves)]:
                        del d[t]

    # ---------- terminators ----------
    def term(self, bi, i, st):
        op = i.op
        if op == "unreachable":
            return []
        if op == "ret":
            v = self.T(st, i.ops[0]) if i.ops else None
            for c in self.clients:
                c.on_ret(self, st, i, v)
            self.rets.append((st, v, i))
            return []
        if op == "indirectbr":
            for c in self.clients:
                c.on_indirect(self, st, i)
            return []
        if op == "br" and len(i.x) == 1:
            return self.edge(bi, i.x[0], st)
        if op == "br":
            c = self.T(st, i.ops[0])
            v = self.evalc(st, c)
            if v is not None:
                return self.edge(bi, i.x[0] if v else i.x[1], st)
            s2 = st.copy()
            r = []
            if self.assume(st, c, True):
                r += self.edge(bi, i.x[0], st)
            if self.assume(s2, c, False):
                r += self.edge(bi, i.x[1], s2)
            return r
        # switch
        v = self.T(st, i.ops[0])
        w = 32
        r = []
        cases = i.x[1:]
        by = {}
        for val, dst in cases:
            by.setdefault(dst, []).append(val)
        w = self.width(i, st)
        for dst, vals in by.items():
            for val in vals:
                c = self.cmp("eq", v, C(val, w), w)
                if self.evalc(st, c) is False:
                    continue
                s2 = st.copy()
                if self.assume(s2, c, True):
                    r += self.edge(bi, dst, s2)
        s2 = st.copy()
        ok = True
        for val, dst in cases:
            c = self.cmp("eq", v, C(val, w), w)
            if self.evalc(s2, c) is True or not self.assume(s2, c, False):
                ok = False
                break
        if ok:
            r += self.edge(bi, i.x[0], s2)
        return r

    def edge(self, b, t, st):
        hdr = t in self.headers
        back = hdr and b in self.headers[t]
        if hdr and st.stack is not None and not st.err:
            h = len(st.stack) - st.base
            if not back:
                self.loop_heights.setdefault(t, set()).add(h)
            elif h not in self.loop_heights.get(t, ()):
                drop = False
                for c in self.clients:
                    drop |= bool(c.on_loop(self, st, self.fn.blocks[b][-1], h))
                if drop:
                    return []
        new = {}
        phis = []
        for i in self.fn.blocks[t]:
            if i.op != "phi":
                break
            for v, p in zip(i.ops, i.x):
                if p == b:
                    phis.append((i, self.T(st, v)))
                    break
        if back:
            subs = []
            for i, v in phis:
                leaf = mk("s", i.id)
                subs.append((i, leaf, v))
            # leaves whose previous value is carried by some phi keep object identity
            for i, leaf, v in subs:
                if leaf is v:
                    continue
            carried = {}
            for i, leaf, v in subs:
                o = tbase(v)
                if o in st.fresh and o is not leaf and v.op in ("s", "box", "call", "unbox"):
                    carried[i.id] = (o, st.fresh[o], o in st.dead and st.dead[o])
            facts, sign = {}, {}
            for i, leaf, v in subs:
                if v is not leaf:
                    m = st.kinds.get(v)
                    facts[i.id] = m
                    if self.signs and i.ty[:1] == "i" and i.ty != "i1" and i.id not in self.induct:
                        r = self.interval(st, v)
                        if r and r[0] >= 0:
                            sign[i.id] = (1 if r[0] > 0 else 0, 1 << 62)
            # facts established for the element at the counter hold for every element visited
            new_fa = {}
            for i, leaf, v in subs:
                if i.id in self.induct and self.unit(i.id, t):
                    for kt, m in st.kinds.items():
                        if kt.op == "ld":
                            e = self.elem(kt.a[0])
                            if e[1] is leaf and leaf not in e[0].leaves:
                                new_fa[("fa", t, e[0])] = m
            if ("fav", t) in st.x:
                for k in [k for k in st.x if k[0] == "fa" and k[1] == t]:
                    if k in new_fa:
                        st.x[k] |= new_fa[k]
                    else:
                        del st.x[k]
            else:
                st.x.update(new_fa)
                st.x[("fav", t)] = True
            for i, leaf, v in subs:
                if v is leaf:
                    continue
                self.kill(st, leaf)
            for i, leaf, v in subs:
                st.env[i.id] = leaf
                if v is leaf:
                    continue
                if i.id in carried:
                    o, fr, dd = carried[i.id]
                    st.fresh[leaf] = fr
                    if dd:
                        st.dead[leaf] = dd
                    if st.stack:
                        st.stack = [mk("box", leaf) if tbase(x) is o and x.op in ("box", "s") else x for x in st.stack]
                    if o in st.own:
                        st.own[leaf] = st.own[o]
                if i.id in sign:
                    st.ints[leaf] = sign[i.id]
                if facts.get(i.id) is not None:
                    st.kinds[leaf] = facts[i.id]
                elif v.op in ("c", "box", "num") and i.ty == "i64":
                    st.kinds[leaf] = self.kindmask(st, v)
                iv = self.induct.get(i.id)
                if iv is not None:
                    st.x[("ind", leaf)] = iv
            # memory written inside the loop becomes opaque
            for a in [a for a, v in st.mem.items()]:
                v = st.mem[a]
                if v.op in ("h",) and v.a[0] == t:
                    continue
                if v.op == "c" or (v.leaves and any(l.op in ("s", "out") for l in v.leaves)) or v.depth > 2:
                    if self.written_in(t, a):
                        h = mk("h", t, a)
                        self.kill_facts(st, h)
                        m = self.kindmask(st, v) if v.op in ("c", "box", "num") else None
                        st.mem[a] = h
        else:
            for i, v in phis:
                if hdr and i.id in self.induct:
                    # counting loops: the counter stays symbolic, equal to its start value on entry
                    leaf = mk("s", i.id)
                    self.kill(st, leaf)
                    iv = self.interval(st, v)
                    if iv:
                        st.ints[leaf] = iv
                    st.x[("ind", leaf)] = self.induct[i.id]
                    new[i.id] = leaf
                else:
                    new[i.id] = v
            for k, v in new.items():
                st.env[k] = v
            if hdr:
                for k in [k for k in st.x if k[0] in ("fa", "fav") and k[1] == t]:
                    del st.x[k]
        return [(t, st)]

    def kill_facts(self, st, h):
        for d in (st.kinds, st.ints, st.truth):
            for x in [x for x in d if h in x.leaves]:
                del d[x]

    def written_in(self, hdr, a):
        return True


# sizes and counts of the VM's containers are never negative
NONNEG = {"count", "capacity", "length", "activeCount", "upvalueCount", "arity", "arityOptional"}
_fn = {}


def field_name(mod, s, off):
    k = (s, off)
    if k not in _fn:
        n = re.sub(r"\.\d+$", "", s.replace("struct.", ""))
        d = mod.ditypes.get(n)
        r = None
        if d:
            for m in d["m"]:
                if m[1] == off:
                    r = m[0]
                    break
        _fn[k] = r
    return _fn[k]


class Client:
    """default no-op callbacks"""
    def on_load(self, f, st, i, a): pass
    def on_store(self, f, st, i, a, v): pass
    def on_gep(self, f, st, i, b): pass
    def on_asnum(self, f, st, i, v): pass
    def on_arith(self, f, st, i, a, b): pass
    def on_conv(self, f, st, i, a): pass
    def on_alloca(self, f, st, i): pass
    def on_call(self, f, st, i, name, args): pass
    def on_mem(self, f, st, i, name, args): pass
    def on_word(self, f, st, i, a, v): pass     # a word of a structure assignment is read (v None) or written
    def call_effect(self, f, st, i, name, args, leaf): return None
    def on_ret(self, f, st, i, v): pass
    def on_underflow(self, f, st, i, h): pass
    def on_loop(self, f, st, i, h): return False
    def on_indirect(self, f, st, i): pass
