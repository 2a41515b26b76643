"""Interval analysis of the whole program: a value range for every integer, refined by the tests on the paths that lead to
each block; parameters, results and structure members carry ranges between functions.

State at a block: R (id -> range that holds here), cells (structure member of a base pointer -> the value it holds), eq (id -> id of
the value it is a copy of).  Widening goes through the constants the program compares with."""
import bisect, collections

INF = 1 << 70


def width(ty):
    return int(ty[1:]) if ty[:1] == "i" and ty[1:].isdigit() else None


def full(w):
    return (0, 1) if w == 1 else (-(1 << (w - 1)), (1 << (w - 1)) - 1)


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return (min(a[0], b[0]), max(a[1], b[1]))


def meet(a, b):
    lo, hi = max(a[0], b[0]), min(a[1], b[1])
    return (lo, hi) if lo <= hi else None


def clamp(r, w, nsw=False):
    """range of a result kept in w bits"""
    f = full(w)
    if r[0] >= f[0] and r[1] <= f[1]:
        return r
    if nsw:
        return meet(r, f) or f
    return f


def unsigned(r, w):
    """the same bits read as an unsigned number"""
    if r[0] >= 0:
        return r
    if r[1] < 0:
        return (r[0] + (1 << w), r[1] + (1 << w))
    return (0, (1 << w) - 1)


def signed(r, w):
    """an unsigned range read as signed"""
    h = 1 << (w - 1)
    if w == 1 or r[1] < h:
        return r
    if r[0] >= h:
        return (r[0] - 2 * h, r[1] - 2 * h)
    return full(w)


BASE = sorted({0, 1, -1, 15, 63, 64, 127, 255, 256, 257, 4095, 4096, 65535, 65536, (1 << 31) - 2, (1 << 31) - 1, -(1 << 31),
               (1 << 32) - 1, (1 << 62), (1 << 63) - 1, -(1 << 63)})


class State:
    __slots__ = ("R", "cells", "eq")

    def __init__(self, R=None, cells=None, eq=None):
        self.R, self.cells, self.eq = R or {}, cells or {}, eq or {}

    def copy(self):
        return State(dict(self.R), dict(self.cells), dict(self.eq))

    def same(self, o):
        return self.R == o.R and self.cells == o.cells and self.eq == o.eq


NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}
SWAP = {"eq": "eq", "ne": "ne", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}


class Whole:
    """ranges shared by all functions"""

    def __init__(self, mod, dead=(), results=None, taken_top=lambda f: True):
        self.mod = mod
        self.dead = set(dead)            # functions after which a path is not followed
        self.cap = {}                    # members that a loop counts -> most they can be
        self.results = results or {}     # ranges of the results of functions outside
        self.P, self.Rt, self.F = {}, {}, {}
        self.cnt = collections.Counter()
        self.fns = [f for f in mod.fns.values() if not f.decl]
        self.top = set()
        self.prep()
        called = collections.Counter(i.callee for f in self.fns for i in f.insts() if i.op == "call" and i.callee)
        for f in self.fns:
            if f.taken or not f.static and not called[f.name] or not called[f.name]:
                for k in range(f.nargs):
                    self.P[f.name, k] = self.tytop(f.args[k])
        self.readers = collections.defaultdict(set)
        self.callers = collections.defaultdict(set)
        for f in self.fns:
            for i in f.insts():
                if i.op == "call" and i.callee:
                    self.callers[i.callee].add(f.name)

    def tytop(self, ty):
        w = width(ty)
        return full(w) if w else None

    # ---- structure members
    def prep(self):
        m = self.mod
        self.mods, self.reads = collections.defaultdict(set), collections.defaultdict(set)
        esc = set()
        direct = collections.defaultdict(set)
        stored = set()
        self.locals = {}                 # (fn, alloca id) -> True when only its elements are read and written directly
        for f in self.fns:
            uses = collections.defaultdict(list)
            for i in f.insts():
                for k, o in enumerate(i.ops):
                    if isinstance(o, int):
                        uses[o].append((i, k))
            f.uses = uses
            for i in f.insts():
                if i.fld:
                    (self.reads if i.op == "load" else self.mods)[f.name].add(i.fld)
                    if i.op == "store":
                        stored.add(i.fld)
                if i.op == "getelementptr" and i.x["path"]:
                    s, fi, o = i.x["path"][-1]
                    if i.x["arr"] and not self.endsinfield(i) or not width(i.x["res"]) and i.x["res"] != "ptr":
                        continue
                    for u, k in uses[i.id]:
                        if u.op in ("load", "icmp") or u.op == "store" and k == 1:
                            continue
                        esc.add((s, fi))
                elif i.op == "alloca":
                    self.locals[f.name, i.id] = self.plain(f, i.id)
            for i in f.insts():
                if i.op == "call" and i.callee:
                    direct[f.name].add(i.callee)
                elif i.op == "call":
                    direct[f.name].add(self.sig(f, i))
        self.esc = esc
        self.stored = stored
        # transitive
        taken = {f.name: (f.ret,) + tuple(f.args) for f in self.fns if f.taken}
        for d in (self.mods, self.reads):
            ch = True
            ind = collections.defaultdict(set)
            while ch:
                ch = False
                for n, g in taken.items():
                    if d[n] - ind[g]:
                        ind[g] |= d[n]
                        ch = True
                for n, cs in direct.items():
                    for c in cs:
                        add = d.get(c, ()) if isinstance(c, str) else ind[c]
                        if add and not d[n] >= add:
                            d[n] |= add
                            ch = True
            for g, x in ind.items():
                d[g] = x

    def sig(self, f, i):
        """what can be called through a pointer: functions with these types"""
        def ty(o):
            if isinstance(o, int):
                return f.args[o] if o < f.nargs else f.defs[o].ty
            return "i%d" % o[2] if o[0] == "c" else "ptr"
        return (i.ty,) + tuple(ty(o) for o in i.ops)

    def endsinfield(self, i):
        """the last step of the address is a member, not an element of an array member"""
        st = self.mod.structs.get(i.x["path"][-1][0])
        st = st or self.mod.structs.get(i.x["path"][-1][0].lstrip("%"))
        if st is None:
            return False
        return st["f"][i.x["path"][-1][1]][1] == i.x["res"]

    def plain(self, f, a):
        todo, seen = [a], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for u, k in f.uses[x]:
                if u.op == "load" or u.op == "store" and k == 1:
                    continue
                if u.op == "getelementptr" and k == 0:
                    todo.append(u.id)
                    continue
                return False
        return True

    def field(self, key, w):
        if key in self.esc or key not in self.stored or key[0].lstrip("%").split(".")[-1] in ("tm", "timeval", "timespec", "stat"):
            return full(w)
        r = self.F.get(key, (0, 0))
        return (r[0], min(r[1], self.cap[key])) if key in self.cap else r

    def cap_counted(self):
        """use what is known of members that a loop counts, in the functions that read them"""
        self.cap = counted(self)
        n = 0
        for f in self.fns:
            if f.name in self.an and any(i.op == "load" and i.fld and tuple(i.fld) in self.cap for i in f.insts()):
                self.an[f.name] = Func(self, f)
                self.an[f.name].run()
                n += 1
        return n

    # ---- solving
    def widen(self, key, old, new):
        self.cnt[key] += 1
        if old is None or self.cnt[key] < 3:
            return join(old, new)
        return self.step(old, new, BASE)

    @staticmethod
    def step(old, new, ths):
        lo, hi = old
        if new[0] < lo:
            k = bisect.bisect_right(ths, new[0]) - 1
            lo = ths[k] if k >= 0 else -(1 << 63)
        if new[1] > hi:
            k = bisect.bisect_left(ths, new[1])
            hi = ths[k] if k < len(ths) else (1 << 63) - 1
        return (lo, hi)

    def up(self, table, key, r, w):
        old = table.get(key)
        if r is None or old is not None and old[0] <= r[0] and old[1] >= r[1]:
            return False
        table[key] = clamp(self.widen((id(table), key), old, r), w, True)
        return table[key] != old

    def publish(self, key, r, w):
        if key in self.esc:
            return
        if key not in self.F and r == (0, 0):
            return
        if key not in self.F:
            self.F[key] = (0, 0)
        if self.up(self.F, key, r, w):
            self.dirty |= self.readers[key]

    def solve(self):
        byname = {f.name: f for f in self.fns}
        # callers before callees, so that parameters are known when a function is looked at
        order = self.order()
        rank = {n: k for k, n in enumerate(order)}
        self.dirty = set(order)
        self.an = {}
        rounds = 0
        while self.dirty:
            rounds += 1
            now = sorted(self.dirty, key=rank.get)
            self.dirty = set()
            for n in now:
                f = byname[n]
                if any(width(f.args[k]) and (n, k) not in self.P for k in range(f.nargs)) and f.nargs:
                    continue
                self.cur = n
                a = self.an.get(n)
                if a is None:
                    a = self.an[n] = Func(self, f)
                else:
                    a.again_from_here()
                a.run()
            if rounds > 200:
                raise RuntimeError("ranges do not settle")
        return rounds

    def order(self):
        seen, out = set(), []
        cs = collections.defaultdict(list)
        for f in self.fns:
            for i in f.insts():
                if i.op == "call" and i.callee in self.mod.fns and not self.mod.fns[i.callee].decl:
                    cs[f.name].append(i.callee)
        for f in self.fns:
            if f.name in seen:
                continue
            st = [(f.name, iter(cs[f.name]))]
            seen.add(f.name)
            while st:
                n, it = st[-1]
                for c in it:
                    if c not in seen:
                        seen.add(c)
                        st.append((c, iter(cs[c])))
                        break
                else:
                    out.append(n)
                    st.pop()
        return out[::-1]


class Func:
    def __init__(self, W, f):
        self.W, self.f = W, f
        self.V = {}
        self.cfg = f.cfg()
        self.ent, self.out, self.vis = {}, {}, collections.Counter()
        ths = set(BASE)
        for i in f.insts():
            for o in i.ops:
                if isinstance(o, tuple) and o[0] == "c" and i.op in ("icmp", "phi", "switch", "select"):
                    v = o[1] - (1 << o[2]) if o[2] > 1 and o[1] >> (o[2] - 1) else o[1]
                    ths |= {v - 1, v, v + 1}
            if i.op == "getelementptr":
                for n, _ in i.x["arr"]:
                    ths |= {n - 1, n}
        for k in range(f.nargs):
            r = W.P.get((f.name, k))
            if r:
                self.V[k] = r
                if r[1] < 1 << 31:
                    ths |= {r[1] - 1, r[1], r[0]}
        self.ths = sorted(ths)
        self.stride = self.strides()
        self.arr = {}        # local array -> range of its elements
        self.heads = set(self.cfg["loops"])
        self.seen, self.edges = set(), {}

    def again_from_here(self):
        """what comes in from outside has grown: go on from the ranges found so far"""
        self.vis.clear()
        for k in range(self.f.nargs):
            r = self.W.P.get((self.f.name, k))
            if r:
                self.V[k] = join(self.V.get(k), r)

    def strides(self):
        """counters that start at a constant and always move by the same amount: id -> (step, start)"""
        out = {}
        for b in self.cfg["loops"]:
            for i in self.f.blocks[b]:
                if i.op != "phi" or not width(i.ty):
                    continue
                start, step = None, None
                for v in i.ops:
                    if isinstance(v, tuple):
                        if v[0] != "c" or start is not None:
                            break
                        start = v[1]
                        continue
                    d = self.f.defs.get(v)
                    if d is not None and d.op == "trunc":
                        d = self.f.defs.get(d.ops[0]) if isinstance(d.ops[0], int) else None
                    if d is None or d.op != "add" or isinstance(d.ops[1], int) or d.ops[1][0] != "c":
                        break
                    x = d.ops[0]
                    e = self.f.defs.get(x)
                    if e is not None and e.op in ("zext", "sext"):
                        x = e.ops[0]
                    if x != i.id or d.ops[1][1] != (step or d.ops[1][1]) or d.ops[1][1] >= 1 << 15:
                        break
                    step = d.ops[1][1]
                else:
                    if start is not None and start < 1 << 15 and step and step > 1:
                        out[i.id] = (step, start)
        return out

    # ---- values
    def wd(self, o):
        if isinstance(o, int):
            if o < self.f.nargs:
                return width(self.f.args[o])
            return width(self.f.defs[o].ty)
        return o[2] if o[0] == "c" else None

    def ev(self, st, o):
        if isinstance(o, int):
            v = self.V.get(o)
            if v is None:
                return None
            r = st.R.get(o)
            if r is not None:
                v = meet(v, r) or v
            e = st.eq.get(o)
            if e is not None:
                x = self.ev(st, e)
                if x is not None:
                    v = meet(v, x) or v
            return v
        if o[0] == "c":
            v, w = o[1], o[2]
            if w > 1 and v >> (w - 1):
                v -= 1 << w
            return (v, v)
        return None

    def evt(self, st, o, w):
        r = self.ev(st, o)
        if r is None:
            if isinstance(o, int) and o not in self.V and (o >= self.f.nargs or (self.f.name, o) not in self.W.P):
                d = self.f.defs.get(o)
                if d is not None and d.id in self.seen:
                    return full(w)
                return None
            return full(w)
        return r

    # ---- refinement by a test
    def refine(self, st, o, r, d=0):
        """o is known to lie in r; False: impossible"""
        if not isinstance(o, int):
            c = self.ev(st, o)
            return c is None or meet(c, r) is not None
        cur = self.ev(st, o)
        if cur is None:
            return True
        m = meet(cur, r)
        if m is not None and o in self.stride:
            s, c = self.stride[o]
            m = (m[0] + (c - m[0]) % s, m[1] - (m[1] - c) % s)
            if m[0] > m[1]:
                m = None
        if m is None:
            return False
        if m == cur and o in st.R:
            return True
        st.R[o] = m
        if d > 6:
            return True
        e = st.eq.get(o)
        if e is not None and not self.refine(st, e, m, d + 1):
            return False
        i = self.f.defs.get(o)
        if i is None:
            return True
        if i.op in ("zext", "sext"):
            w = width(i.x)
            if w and i.op == "sext":
                return self.refine(st, i.ops[0], m, d + 1)
            if w and m[0] >= 0:
                s = signed(m, w) if m[1] < 1 << w else None
                if s and (w == 1 or m[1] < 1 << (w - 1)):
                    return self.refine(st, i.ops[0], s, d + 1)
        elif i.op == "trunc":
            w = width(i.ty)
            x = self.ev(st, i.ops[0])
            if x and w and w > 1 and x[0] >= full(w)[0] and x[1] <= full(w)[1]:
                return self.refine(st, i.ops[0], m, d + 1)
        elif i.op in ("add", "sub"):
            w = width(i.ty)
            a, b = self.ev(st, i.ops[0]), self.ev(st, i.ops[1])
            if a and b and w:
                raw = (a[0] + b[0], a[1] + b[1]) if i.op == "add" else (a[0] - b[1], a[1] - b[0])
                if i.x == "nsw" or clamp(raw, w) == raw:
                    if i.op == "add":
                        ra, rb = (m[0] - b[1], m[1] - b[0]), (m[0] - a[1], m[1] - a[0])
                    else:
                        ra, rb = (m[0] + b[0], m[1] + b[1]), (a[0] - m[1], a[1] - m[0])
                    return self.refine(st, i.ops[0], ra, d + 1) and self.refine(st, i.ops[1], rb, d + 1)
        return True

    def test(self, st, o, truth, d=0):
        """the condition o is true or false; False: impossible"""
        if not isinstance(o, int):
            c = self.ev(st, o)
            return c is None or bool(c[0]) == truth or c[0] != c[1]
        if d > 8:
            return True
        if not self.refine(st, o, (1, 1) if truth else (0, 0)):
            return False
        e = st.eq.get(o)
        if e is not None and not self.test(st, e, truth, d + 1):
            return False
        i = self.f.defs.get(o)
        if i is None:
            return True
        if i.op == "icmp":
            p = i.x if truth else NEG[i.x]
            return self.cmp(st, p, i.ops[0], i.ops[1], d)
        if i.op == "xor" and self.wd(o) == 1 and i.ops[1] == ("c", 1, 1):
            return self.test(st, i.ops[0], not truth, d + 1)
        if i.op in ("zext", "trunc", "freeze") and width(i.x if i.op == "zext" else i.ty) == 1:
            return self.test(st, i.ops[0], truth, d + 1)
        if i.op == "and" and truth or i.op == "or" and not truth:
            return self.test(st, i.ops[0], truth, d + 1) and self.test(st, i.ops[1], truth, d + 1)
        if i.op == "select" and i.ops[2] == ("c", 0, 1) and truth:
            return self.test(st, i.ops[0], True, d + 1) and self.test(st, i.ops[1], True, d + 1)
        if i.op == "select" and i.ops[1] == ("c", 1, 1) and not truth:
            return self.test(st, i.ops[0], False, d + 1) and self.test(st, i.ops[2], False, d + 1)
        return True

    def cmp(self, st, p, a, b, d):
        w = self.wd(a) or self.wd(b)
        if not w:
            return True
        ra, rb = self.evt(st, a, w), self.evt(st, b, w)
        if ra is None or rb is None:
            return True
        if p[0] == "u" and (ra[0] < 0 or rb[0] < 0):
            # x < c unsigned with c not negative: x is in 0..c-1
            if p in ("ult", "ule") and rb[0] >= 0:
                return self.refine(st, a, (0, rb[1] - (p == "ult")))
            if p in ("ugt", "uge") and ra[0] >= 0:
                return self.refine(st, b, (0, ra[1] - (p == "ugt")))
            return True
        q = p[1:] if p[0] in "us" else p
        if q == "eq":
            m = meet(ra, rb)
            if m is None:
                return False
            if not (self.refine(st, a, m) and self.refine(st, b, m)):
                return False
            # zext(bool) == 0 and the like
            return self.bools(st, a, m, d) and self.bools(st, b, m, d)
        if q == "ne":
            for x, y, r in ((a, rb, ra), (b, ra, rb)):
                if y[0] == y[1]:
                    lo, hi = r
                    if lo == y[0]:
                        lo += 1
                    if hi == y[0]:
                        hi -= 1
                    if lo > hi:
                        return False
                    if not self.refine(st, x, (lo, hi)):
                        return False
                    if y[0] == 0 and not self.bools(st, x, None, d):
                        return False
            return True
        k = 1 if q in ("lt", "gt") else 0
        if q in ("lt", "le"):
            return self.refine(st, a, (-INF, rb[1] - k)) and self.refine(st, b, (ra[0] + k, INF))
        return self.refine(st, a, (rb[0] + k, INF)) and self.refine(st, b, (-INF, ra[1] - k))

    def bools(self, st, o, r, d):
        """o (a widened condition) equals r, or is not zero when r is None"""
        if not isinstance(o, int):
            return True
        i = self.f.defs.get(o)
        e = st.eq.get(o)
        if i is not None and i.op == "zext" and width(i.x) == 1:
            if r is None:
                return self.test(st, i.ops[0], True, d + 1)
            if r[0] == r[1]:
                return self.test(st, i.ops[0], bool(r[0]), d + 1)
        elif i is not None and i.op in ("zext", "sext", "trunc", "phi") or e is not None:
            if e is not None:
                return self.bools(st, e, r, d + 1) if d < 8 else True
            if i.op in ("zext", "sext"):
                return self.bools(st, i.ops[0], r, d + 1) if d < 8 else True
        return True

    # ---- running
    def run(self):
        f = self.f
        rpo = self.cfg["rpo"]
        for n in range(400):
            self.again = False
            for b in rpo:
                self.vis[b] += 1
                self.block(b)
            if not self.again:
                self.final = True
                for b in rpo:
                    self.block(b)
                self.final = False
                return n
        raise RuntimeError("ranges do not settle in %s" % f.disp)

    def entry(self, b):
        """joined state of the edges into b"""
        ins = [(p, self.edges[p, b]) for p in self.cfg["pred"][b] if self.edges.get((p, b)) is not None]
        if b == 0:
            return State(), []
        if not ins:
            return None, []
        if len(ins) == 1:
            return ins[0][1].copy(), ins
        st = State()
        first = ins[0][1]
        for k in first.R:
            r = None
            for _, s in ins:
                x = s.R.get(k)
                if x is None:
                    break
                r = join(r, x)
            else:
                st.R[k] = r
        for k, e in first.eq.items():
            if all(s.eq.get(k) == e for _, s in ins):
                st.eq[k] = e
        keys = set()
        for _, s in ins:
            keys |= set(s.cells)
        for k in keys:
            cs = [s.cells.get(k) for _, s in ins]
            if all(c is not None for c in cs):
                if all(c == cs[0] for c in cs):
                    st.cells[k] = cs[0]
                    continue
                r = None
                for (_, s), c in zip(ins, cs):
                    x = self.cell(s, c)
                    if x is None:
                        r = None
                        break
                    r = join(r, x)
                if r is not None:
                    st.cells[k] = ("iv", r)
                    continue
            for (_, s), c in zip(ins, cs):
                if c is not None and len(c) == 3 or c is not None and c[0] == "iv":
                    self.pub(s, k, c)
        if b in self.heads:
            old = self.ent.get(b)
            if old is not None:
                for k, r in list(st.R.items()):
                    o = old.R.get(k)
                    if o is None:
                        del st.R[k]
                    elif r != o:
                        if self.vis[b] > 3:
                            st.R[k] = Whole.step(o, join(o, r), self.ths)
                        else:
                            st.R[k] = join(o, r)
                for k, c in list(st.cells.items()):
                    o = old.cells.get(k)
                    if o is None:
                        self.pub(st, k, c)
                        del st.cells[k]
                    elif c != o:
                        x, y = self.cell(st, c), self.cell(old, o)
                        if x is None or y is None:
                            continue
                        r = join(x, y)
                        if self.vis[b] > 3 and r != y:
                            r = Whole.step(y, r, self.ths)
                        st.cells[k] = ("iv", r)
                for k in list(st.eq):
                    if old.eq.get(k) != st.eq[k]:
                        del st.eq[k]
        return st, ins

    def cell(self, st, c):
        return self.ev(st, c[1]) if c[0] == "id" else c[1]

    def pub(self, st, k, c):
        """the member's value becomes visible to others"""
        if len(c) == 2 and c[0] == "id":
            return           # only read, never written here
        if not self.final or k[2] is None:
            return
        r = self.cell(st, c)
        key, w = k[2], k[3]
        if not w:
            return
        if r is None:
            r = full(w)
        self.W.publish(key, r, w)

    def set(self, st, i, r, w):
        """value of an instruction"""
        old = self.V.get(i.id)
        if old is not None:
            j = join(old, r)
            if i.op == "phi" and i.blk in self.heads and self.vis[i.blk] > 2 and j != old:
                j = clamp(Whole.step(old, j, self.ths), w, True)
            elif j != old and self.vis[i.blk] > 200:
                j = clamp(Whole.step(old, j, BASE), w, True)
            r2 = j
        else:
            r2 = r
        if old != r2:
            self.V[i.id] = r2
            self.again = True
        st.R.pop(i.id, None)
        if r != r2 and not (i.op == "phi" and i.blk in self.heads) and self.vis[i.blk] <= 200:
            st.R[i.id] = r
        st.eq.pop(i.id, None)

    def kill(self, st, x):
        """x is computed anew: facts that mention its old value go"""
        for k in [k for k, e in st.eq.items() if e == x]:
            del st.eq[k]
        for k in [k for k, c in st.cells.items() if c[0] == "id" and c[1] == x]:
            r = self.ev(st, x)
            c = st.cells[k]
            if r is None or not k[3]:
                del st.cells[k]
            else:
                st.cells[k] = ("iv", r) if len(c) == 3 else ("ivr", r)
        for k in [k for k in st.cells if k[0] == x]:
            self.pub(st, k, st.cells[k])
            del st.cells[k]

    def block(self, b):
        st, ins = self.entry(b)
        if st is None:
            return
        f = self.f
        self.ent[b] = st.copy()
        insts = f.blocks[b]
        k = 0
        phis = []
        while k < len(insts) and insts[k].op == "phi":
            phis.append(insts[k])
            k += 1
        vals = []
        for i in phis:
            w = width(i.ty)
            if not w:
                vals.append(None)
                continue
            r = None
            ok = False
            for v, p in zip(i.ops, i.x):
                s = self.edges.get((p, b))
                if s is None:
                    continue
                x = self.evt(s, v, w)
                if x is None:
                    continue
                ok = True
                r = join(r, x)
            vals.append(r)
        for i, r in zip(phis, vals):
            self.seen.add(i.id)
            self.kill(st, i.id)
            if r is not None:
                self.set(st, i, r, width(i.ty))
        alive = True
        for i in insts[k:]:
            if i.op == "phi":
                continue
            if not self.inst(st, i):
                alive = False
                break
        t = insts[-1]
        outs = {}
        if alive and t.op in ("br", "switch", "indirectbr"):
            outs = self.term(st, t, b, phis, ins, insts[k:-1])
        for s in self.cfg["succ"][b]:
            n = outs.get(s)
            o = self.edges.get((b, s))
            if n is None and o is None:
                continue
            if n is None or o is None or not o.same(n):
                self.edges[b, s] = n
                self.again = True

    def term(self, st, t, b, phis, ins, mid):
        outs = {}
        if t.op == "br" and len(t.x) == 2 and t.x[0] != t.x[1]:
            c = t.ops[0]
            # paths through a block that only picks a condition are kept apart
            if phis and len(ins) > 1 and all(i.op in ("xor", "icmp", "zext", "trunc", "sext") for i in mid) and len(mid) < 4 and b not in self.heads \
                    and any(width(i.ty) for i in phis):
                for truth, s in ((True, t.x[0]), (False, t.x[1])):
                    r = None
                    for p, e in ins:
                        x = e.copy()
                        good = True
                        for i in phis:
                            if not width(i.ty):
                                continue
                            v = i.ops[i.x.index(p)]
                            y = self.evt(e, v, width(i.ty))
                            if y is None or i.id not in self.V:
                                continue
                            x.R[i.id] = y
                            x.eq.pop(i.id, None)
                            if isinstance(v, int) and v != i.id:
                                x.eq[i.id] = v
                        self.quiet = True
                        for i in mid:
                            self.inst(x, i)
                        self.quiet = False
                        if self.test(x, c, truth):
                            r = x if r is None else self.merge(r, x)
                    if r is not None:
                        outs[s] = r
                return outs
            for truth, s in ((True, t.x[0]), (False, t.x[1])):
                x = st.copy()
                if self.test(x, c, truth):
                    outs[s] = x
            return outs
        if t.op == "switch":
            w = self.wd(t.ops[0])
            dead = set()
            for cs in t.x[1:]:
                v = cs[0] - (1 << w) if w and w > 1 and cs[0] >> (w - 1) else cs[0]
                x = st.copy()
                if self.refine(x, t.ops[0], (v, v)):
                    outs[cs[1]] = x if cs[1] not in outs else self.merge(outs[cs[1]], x)
            s = t.x[0]
            outs[s] = st.copy() if s not in outs else self.merge(outs[s], st)
            return outs
        for s in self.cfg["succ"][b]:
            outs[s] = st.copy()
        return outs

    def merge(self, a, b):
        st = State()
        for k, r in a.R.items():
            if k in b.R:
                st.R[k] = join(r, b.R[k])
        for k, e in a.eq.items():
            if b.eq.get(k) == e:
                st.eq[k] = e
        for k, c in a.cells.items():
            d = b.cells.get(k)
            if d == c:
                st.cells[k] = c
            elif d is not None:
                x, y = self.cell(a, c), self.cell(b, d)
                if x is not None and y is not None:
                    st.cells[k] = ("iv", join(x, y))
            else:
                self.pub(a, k, c)
        for k, c in b.cells.items():
            if k not in a.cells:
                self.pub(b, k, c)
        return st

    def visit(self, hook):
        """one more pass over the settled ranges; hook(state, instruction) before each instruction"""
        self.hook = hook
        for b in self.cfg["rpo"]:
            self.block(b)
        self.hook = None

    hook = None
    final = False
    quiet = False

    def inst(self, st, i):
        """False: the path ends here"""
        if self.hook and not self.quiet:
            self.hook(st, i)
        op = i.op
        W = self.W
        self.seen.add(i.id)
        if op == "store":
            self.store(st, i)
            return True
        if op == "call":
            return self.call(st, i)
        if op == "ret":
            for k, c in st.cells.items():
                self.pub(st, k, c)
            if i.ops:
                w = self.wd(i.ops[0]) or width(self.f.ret)
                if w:
                    r = self.evt(st, i.ops[0], w)
                    if r is not None and self.final and W.up(W.Rt, self.f.name, r, w):
                        W.dirty |= W.callers[self.f.name]
            return True
        if i.id < 0:
            return True
        w = width(i.ty)
        self.kill(st, i.id)
        if not w:
            st.eq.pop(i.id, None)
            if op == "load" and i.ty == "ptr":
                self.loaded(st, i, 0)
            return True
        r = self.value(st, i, w)
        if r is not None:
            r = meet(r, full(w)) or full(w)
            self.set(st, i, r, w)
            if op == "load":
                self.loaded(st, i, w)
        return True

    def value(self, st, i, w):
        op = i.op
        if op in ("zext", "sext", "trunc", "freeze"):
            sw = width(i.x) if op != "freeze" else w
            if not sw:
                return full(w)
            a = self.evt(st, i.ops[0], sw)
            if a is None:
                return None
            if op == "zext":
                return unsigned(a, sw)
            if op == "trunc":
                if w == 1:
                    return a if 0 <= a[0] and a[1] <= 1 else (0, 1)
                f = full(w)
                if f[0] <= a[0] and a[1] <= f[1]:
                    return a
                if 0 <= a[0] and a[1] < 1 << w:
                    return signed(a, w)
                return f
            return a
        if op == "load":
            return self.load(st, i, w)
        if op == "icmp":
            sw = self.wd(i.ops[0]) or self.wd(i.ops[1])
            if not sw:
                return (0, 1)
            a, b = self.evt(st, i.ops[0], sw), self.evt(st, i.ops[1], sw)
            if a is None or b is None:
                return None
            p = i.x
            if p[0] == "u" and (a[0] < 0 or b[0] < 0):
                a, b = unsigned(a, sw), unsigned(b, sw)
            q = p[1:] if p[0] in "us" else p
            if q in ("gt", "ge"):
                a, b, q = b, a, {"gt": "lt", "ge": "le"}[q]
            if q == "lt":
                return (1, 1) if a[1] < b[0] else (0, 0) if a[0] >= b[1] else (0, 1)
            if q == "le":
                return (1, 1) if a[1] <= b[0] else (0, 0) if a[0] > b[1] else (0, 1)
            same = a == b and a[0] == a[1]
            apart = meet(a, b) is None
            if q == "eq":
                return (1, 1) if same else (0, 0) if apart else (0, 1)
            return (0, 0) if same else (1, 1) if apart else (0, 1)
        if op == "select":
            a, b = self.evt(st, i.ops[1], w), self.evt(st, i.ops[2], w)
            if a is None or b is None:
                return a or b
            x, y = st.copy(), st.copy()
            r = None
            if self.test(x, i.ops[0], True):
                r = join(r, self.evt(x, i.ops[1], w))
            if self.test(y, i.ops[0], False):
                r = join(r, self.evt(y, i.ops[2], w))
            return r or join(a, b)
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "sdiv", "udiv", "srem", "urem"):
            a, b = self.evt(st, i.ops[0], w), self.evt(st, i.ops[1], w)
            if a is None or b is None:
                return None
            return self.arith(op, a, b, w, i.x == "nsw")
        return full(w)

    def arith(self, op, a, b, w, nsw):
        f = full(w)
        if w == 1:
            return (0, 1)
        if op == "add":
            return clamp((a[0] + b[0], a[1] + b[1]), w, nsw)
        if op == "sub":
            return clamp((a[0] - b[1], a[1] - b[0]), w, nsw)
        if op == "mul":
            p = [x * y for x in a for y in b]
            return clamp((min(p), max(p)), w, nsw)
        if op == "and":
            if a[0] >= 0 and b[0] >= 0:
                return (0, min(a[1], b[1]))
            if b[0] >= 0:
                return (0, b[1])
            if a[0] >= 0:
                return (0, a[1])
            return f
        if op in ("or", "xor"):
            if a[0] >= 0 and b[0] >= 0:
                return (max(a[0], b[0]) if op == "or" else 0, (1 << max(a[1].bit_length(), b[1].bit_length())) - 1)
            return f
        if op == "shl":
            if b[0] == b[1] and 0 <= b[0] < w:
                return clamp((a[0] << b[0], a[1] << b[0]), w, nsw)
            if 0 <= b[0] and b[1] < w and a[0] >= 0:
                return clamp((a[0] << b[0], a[1] << b[1]), w, nsw)
            return f
        if op == "lshr":
            if 0 <= b[0] and b[1] < w:
                u = unsigned(a, w)
                return clamp((u[0] >> b[1], u[1] >> b[0]), w) if b[0] else signed((u[0] >> b[1], u[1]), w)
            return f
        if op == "ashr":
            if 0 <= b[0] and b[1] < w:
                p = [a[0] >> b[0], a[0] >> b[1], a[1] >> b[0], a[1] >> b[1]]
                return (min(p), max(p))
            return f
        if op in ("udiv", "sdiv"):
            if op == "udiv":
                a, b = unsigned(a, w), unsigned(b, w)
            if b[0] > 0:
                q = lambda x, y: abs(x) // y * (1 if x >= 0 else -1)
                p = [q(x, y) for x in a for y in b]
                return (min(p), max(p)) if max(p) <= f[1] else f
            return f
        if op in ("urem", "srem"):
            if op == "urem":
                a, b = unsigned(a, w), unsigned(b, w)
            if b[0] > 0:
                m = b[1] - 1
                if a[0] >= 0:
                    return (0, min(m, a[1])) if min(m, a[1]) <= f[1] else f
                return (-m, m if a[1] > 0 else 0)
            return f
        return f

    # ---- memory
    def place(self, o, fld):
        """member or local array an address denotes"""
        if fld:
            x, off, n = o, 0, 0
            while isinstance(x, int):
                i = self.f.defs.get(x)
                if i is None or i.op != "getelementptr":
                    break
                if i.x["v"]:
                    return ("f", fld, None)
                off += i.x["off"]
                x = i.ops[0]
            return ("f", fld, (x, off))
        if not isinstance(o, int):
            return ("g", o[1]) if o[0] == "g" else None
        x, d = o, 0
        while isinstance(x, int) and d < 6:
            i = self.f.defs.get(x)
            if i is None:
                return None
            if i.op == "alloca":
                return ("a", x) if self.W.locals.get((self.f.name, x)) else None
            if i.op != "getelementptr" or i.x["path"]:
                return None
            x = i.ops[0]
            d += 1
        if isinstance(x, tuple) and x[0] == "g":
            return ("g", x[1])
        return None

    def canon(self, st, o):
        n = 0
        while isinstance(o, int) and o in st.eq and n < 8:
            o = st.eq[o]
            n += 1
        return o

    def at(self, st, o, fld):
        """place, with the base pointer traded for the one it is a copy of"""
        p = self.place(o, fld)
        if p and p[0] == "f" and p[2] is not None:
            return p[0], p[1], (self.canon(st, p[2][0]), p[2][1])
        return p

    def raw(self, o):
        """address as base and constant distance"""
        off = 0
        while isinstance(o, int):
            i = self.f.defs.get(o)
            if i is None or i.op != "getelementptr" or i.x["v"]:
                break
            off += i.x["off"]
            o = i.ops[0]
        return o, off

    def load(self, st, i, w):
        p = self.at(st, i.ops[0], i.fld)
        if p is None:
            c = st.cells.get(self.raw(i.ops[0]) + (None, w))
            return c and self.cell(st, c) or full(w)
        if p[0] == "f":
            key, base = p[1], p[2]
            if base is not None:
                c = st.cells.get((base[0], base[1], key, w))
                if c is not None:
                    return self.cell(st, c) or full(w)
            self.W.readers[key].add(self.f.name)
            return self.W.field(key, w)
        if p[0] == "a":
            return self.arr.get((p[1]), (0, 0))
        g = self.W.mod.globals.get(p[1])
        if g and g["const"] and g["init"]:
            return self.const(g["init"], w) or full(w)
        return full(w)

    def const(self, c, w):
        if c[0] == "c":
            v = c[1]
            if c[2] != w:
                return None
            if w > 1 and v >> (w - 1):
                v -= 1 << w
            return (v, v)
        if c[0] == "z":
            return (0, 0)
        if c[0] == "s" and w == 8:
            b = c[1].encode("latin-1", "replace")
            v = [x - 256 if x > 127 else x for x in b] or [0]
            return (min(min(v), 0), max(v))
        if c[0] == "a":
            r = None
            for x in c[1:]:
                y = self.const(x, w)
                if y is None:
                    return None
                r = join(r, y)
            return r
        return None

    def loaded(self, st, i, w):
        p = self.at(st, i.ops[0], i.fld)
        if p is None and w and isinstance(i.ops[0], int):
            p = ("f", None, self.raw(i.ops[0]))
        if p and p[0] == "f" and p[2] is not None:
            k = (p[2][0], p[2][1], p[1], w)
            c = st.cells.get(k)
            if c is None:
                st.cells[k] = ("id", i.id)
            elif c[0] == "id" and c[1] != i.id:
                st.eq[i.id] = c[1]
            elif c[0] != "id":
                st.cells[k] = ("id", i.id, "w") if c[0] == "iv" else ("id", i.id)

    def store(self, st, i):
        w = self.wd(i.ops[0])
        p = self.at(st, i.ops[1], i.fld)
        for k in [k for k in st.cells if k[2] is None]:
            del st.cells[k]
        if p is None:
            return
        if not w:
            if p[0] == "f":
                key, base = p[1], p[2]
                for k in [k for k in st.cells if k[2] == key]:
                    del st.cells[k]
                if base is not None and isinstance(i.ops[0], int):
                    st.cells[base[0], base[1], key, 0] = ("id", i.ops[0])
            return
        r = self.evt(st, i.ops[0], w)
        if p[0] == "a":
            n = join(self.arr.get(p[1]), r)
            o = self.arr.get(p[1])
            if n != o:
                if o is not None and self.vis[i.blk] > 6:
                    n = clamp(Whole.step(o, n, self.ths), w, True)
                self.arr[p[1]] = join(n, (0, 0))
                self.again = True
            return
        if p[0] == "g":
            return
        key, base = p[1], p[2]
        for k in [k for k in st.cells if k[2] == key and (base is None or k[:2] != base)]:
            self.pub(st, k, st.cells[k])
            del st.cells[k]
        if base is None:
            if r is not None and self.final:
                self.W.publish(key, r, w)
            return
        k = (base[0], base[1], key, w)
        if isinstance(i.ops[0], int) and r is not None:
            st.cells[k] = ("id", i.ops[0], "w")
        elif r is not None:
            st.cells[k] = ("iv", r)

    def call(self, st, i):
        W = self.W
        name = i.callee
        g = W.mod.fns.get(name) if name else None
        base = (g.disp if g is not None else name) or ""
        w = width(i.ty) if i.id >= 0 else None
        if base.startswith("llvm."):
            if base.startswith(("llvm.memset", "llvm.memcpy", "llvm.memmove")):
                for k in [k for k in st.cells if k[0] == i.ops[0] or k[2] is None]:
                    self.pub(st, k, st.cells[k])
                    del st.cells[k]
            if w:
                self.kill(st, i.id)
                r = full(w)
                if base.startswith(("llvm.umin", "llvm.smin", "llvm.umax", "llvm.smax")):
                    pass
                self.set(st, i, r, w)
            return True
        if base in W.dead:
            return False
        if g is not None and not g.decl:
            for k in range(min(len(i.ops), g.nargs)):
                pw = width(g.args[k])
                if pw:
                    r = self.evt(st, i.ops[k], pw)
                    if r is not None and self.final and W.up(W.P, (name, k), r, pw):
                        W.dirty.add(name)
            touched = W.mods[name] | W.reads[name]
            mods = W.mods[name]
        elif name is None:
            sg = W.sig(self.f, i)
            touched, mods = W.mods[sg] | W.reads[sg], W.mods[sg]
        else:
            touched, mods = (), ()
        for k in [k for k in st.cells if k[2] is None]:
            del st.cells[k]
        for k in [k for k in st.cells if k[2] in touched]:
            self.pub(st, k, st.cells[k])
            if k[2] in mods:
                del st.cells[k]
        if i.id >= 0:
            self.kill(st, i.id)
        if w:
            r = None
            if g is not None and not g.decl:
                r = W.Rt.get(name)
                if r is None:
                    return False          # nothing returns (yet)
            else:
                r = self.outside(st, base, i, w)
            self.set(st, i, meet(r, full(w)) or full(w), w)
        elif g is not None and not g.decl and base in ("exit", "abort"):
            return False
        return True

    def outside(self, st, n, i, w):
        if n in self.W.results:
            return self.W.results[n]
        if n in ("strlen", "strnlen", "strspn", "strcspn", "fread", "fwrite", "strftime", "wcslen"):
            hi = (1 << 62)
            if n == "strlen":
                # text in a buffer of fixed size ends inside it
                o = i.ops[0]
                d = self.f.defs.get(o) if isinstance(o, int) else None
                if d is not None and d.op == "getelementptr" and not d.x["v"] and not d.x["off"]:
                    d = self.f.defs.get(d.ops[0]) if isinstance(d.ops[0], int) else None
                if d is not None and d.op == "alloca" and d.x["ty"].startswith("["):
                    hi = d.x["size"] - 1
            if n in ("fread", "fwrite"):
                x = self.evt(st, i.ops[2], 64)
                if x and x[0] >= 0:
                    hi = x[1]
            if n == "strnlen" or n == "strftime":
                x = self.evt(st, i.ops[1], 64)
                if x and x[0] >= 0:
                    hi = x[1]
            return (0, hi)
        if n in ("read", "recv", "readlink", "write", "send", "recvfrom"):
            k = 2
            x = self.evt(st, i.ops[k], 64)
            return (-1, x[1] if x and x[0] >= 0 else (1 << 62))
        if n in ("fgetc", "getc", "getchar"):
            return (-1, 255)
        return full(w)


def counted(W):
    """members that only ever are set to zero or grow by one in a loop that counts its rounds: member -> most it can be.
    (A member belongs to an object the loop is run for once.)"""
    out, bad, sites = {}, set(), {}

    def hook(a, f, st, i):
        if i.op != "store" or not i.fld:
            return
        k, v = tuple(i.fld), i.ops[0]
        if not isinstance(v, int):
            if v[0] != "c" or v[1] != 0:
                bad.add(k)
            return
        d = f.defs.get(v)
        while d is not None and d.op in ("trunc", "zext", "sext"):
            d = f.defs.get(d.ops[0]) if isinstance(d.ops[0], int) else None
        l = None
        if d is not None and d.op == "add" and not isinstance(d.ops[1], int) and d.ops[1][:2] == ("c", 1):
            l = f.defs.get(d.ops[0]) if isinstance(d.ops[0], int) else None
            while l is not None and l.op in ("trunc", "zext", "sext"):
                l = f.defs.get(l.ops[0]) if isinstance(l.ops[0], int) else None
        if l is None or l.op != "load" or tuple(l.fld or ()) != k:
            bad.add(k)
            return
        loops = sorted((len(body), h) for h, body in a.cfg["loops"].items() if i.blk in body)
        best = None
        if loops:
            h = loops[0][1]
            for p in f.blocks[h]:
                if p.op != "phi" or not width(p.ty):
                    continue
                start = None
                for v in p.ops:
                    if isinstance(v, tuple) and v[0] == "c" and start is None:
                        start = v[1]
                        continue
                    e = f.defs.get(v) if isinstance(v, int) else None
                    if e is None or e.op != "add" or e.ops[0] != p.id or isinstance(e.ops[1], int) or e.ops[1][:2] != ("c", 1):
                        break
                else:
                    r = a.ev(st, p.id)
                    if start is not None and r is not None and r[0] >= start:
                        best = min(best, r[1] - start + 1) if best is not None else r[1] - start + 1
        if best is None or sites.get(k, i.id) != i.id:
            bad.add(k)
            return
        sites[k] = i.id
        out[k] = best

    for f in W.fns:
        a = W.an.get(f.name)
        if a is not None and any(i.op == "store" and i.fld for i in f.insts()):
            a.visit(lambda st, i, a=a, f=f: hook(a, f, st, i))
    return {k: v for k, v in out.items() if k not in bad}


def member(f, o):
    """the member a value was just read from"""
    for _ in range(4):
        d = f.defs.get(o) if isinstance(o, int) else None
        if d is None:
            return None
        if d.op == "load":
            return tuple(d.fld) if d.fld else None
        if d.op not in ("zext", "sext", "trunc"):
            return None
        o = d.ops[0]
    return None
