"""In-memory model of the dumped IR: functions, blocks, CFG facts, interned terms."""
import re


class Term:
    __slots__ = ("op", "a", "uid", "depth", "leaves")

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.uid < other.uid


_tab = {}
_cnt = [0]
EMPTY_FS = frozenset()


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op, t.a = op, a
        _cnt[0] += 1
        t.uid = _cnt[0]
        d = 0
        lv = EMPTY_FS
        for x in a:
            if isinstance(x, Term):
                if x.depth > d:
                    d = x.depth
                if x.leaves:
                    lv = lv | x.leaves if lv else x.leaves
        if op in LEAF:
            lv = frozenset((t,))
        t.depth = d + 1
        t.leaves = lv
        _tab[k] = t
    return t


# terms that are re-defined when their defining instruction runs again
LEAF = {"s", "h", "old", "out"}


def show(t, d=0):
    if not isinstance(t, Term):
        return str(t)
    if d > 6:
        return "..."
    o, a = t.op, t.a
    if o == "c":
        v = a[0]
        if a[1] >= 32 and v >> (a[1] - 1):
            v -= 1 << a[1]
        return str(v)
    if o == "p":
        return "p%d" % a[0]
    if o == "s":
        return "%%%d" % a[0]
    if o == "+":
        return "(%s+%d)" % (show(a[0], d + 1), a[1])
    if o == "ld":
        return "*%s" % show(a[0], d + 1)
    return "%s(%s)" % (o, ",".join(show(x, d + 1) for x in a))


def C(v, w=64):
    return mk("c", v & ((1 << w) - 1), w)


NULL = C(0, 64)


class Inst:
    __slots__ = ("op", "id", "ty", "ops", "loc", "x", "blk", "idx", "fn", "callee", "fld")

    def __init__(self, raw, fn, blk, idx):
        self.op, self.id, self.ty = raw[0], raw[1], raw[2]
        self.ops = [o if isinstance(o, int) else tuple(o) if o and not any(isinstance(e, list) for e in o) else ("u",) for o in raw[3]]
        self.loc, self.x = raw[4], raw[5]
        self.fn, self.blk, self.idx = fn, blk, idx
        self.fld = tuple(raw[6]) if len(raw) > 6 else None
        self.callee = None
        if self.op == "call" and self.x[0] == "fn":
            self.callee = self.x[1]

    def where(self):
        # outermost source position inside the function being analysed, plus the inlined chain
        if not self.loc:
            return "%s:%s" % (self.fn.file, self.fn.line)
        l = self.loc[-1]
        return "%s:%d" % (l[0], l[1])

    def wherefn(self):
        """innermost (file, function) the construct is written in"""
        if not self.loc:
            return self.fn.disp
        return self.loc[0][2]


class Fn:
    def __init__(self, name, j, mod):
        self.name = name
        self.mod = mod
        self.disp = name
        m = re.match(r"^(.*?)\.\d+$", name)
        if m and j["static"]:
            self.disp = m.group(1)
        self.file = j["file"]
        self.line = j["line"]
        self.decl = bool(j["decl"])
        self.static = bool(j["static"])
        self.va = bool(j["va"])
        self.taken = bool(j["taken"])
        self.nargs = j["nargs"]
        self.ret = j["ret"]
        self.args = j["args"]
        self.ditys = j["ditys"]     # [ret, p0, p1...]
        self.names = j["names"]
        self.dv = {}                # value id -> source types of the local variables it is bound to
        for i, t in j.get("dv", ()):
            self.dv.setdefault(i, []).append(t)
        self.blocks = [[Inst(r, self, bi, k) for k, r in enumerate(b)] for bi, b in enumerate(j["blocks"])]
        self.defs = {}
        for b in self.blocks:
            for i in b:
                if i.id >= 0:
                    self.defs[i.id] = i
        self._cfg = None

    def insts(self):
        for b in self.blocks:
            for i in b:
                yield i

    def key(self):
        return "%s:%s" % (self.file, self.disp)

    def succs(self, bi):
        t = self.blocks[bi][-1]
        if t.op == "switch":
            return [t.x[0]] + [c[1] for c in t.x[1:]]
        if t.op in ("br", "indirectbr"):
            return list(t.x)
        return []

    def cfg(self):
        if self._cfg:
            return self._cfg
        n = len(self.blocks)
        succ = [[] for _ in range(n)]
        pred = [[] for _ in range(n)]
        for b in range(n):
            seen = set()
            for s in self.succs(b):
                if s not in seen:
                    seen.add(s)
                    succ[b].append(s)
                    pred[s].append(b)
        # RPO + back edges
        order, state = [], [0] * n
        back = set()
        if n:
            st = [(0, iter(succ[0]))]
            state[0] = 1
            while st:
                b, it = st[-1]
                adv = False
                for s in it:
                    if state[s] == 0:
                        state[s] = 1
                        st.append((s, iter(succ[s])))
                        adv = True
                        break
                    elif state[s] == 1:
                        back.add((b, s))
                if not adv:
                    state[b] = 2
                    order.append(b)
                    st.pop()
        rpo = order[::-1]
        loops = {}   # header -> set of blocks
        for (b, h) in back:
            body = loops.setdefault(h, {h})
            work = [b]
            while work:
                x = work.pop()
                if x in body:
                    continue
                body.add(x)
                work.extend(p for p in pred[x] if state[p])
        self._cfg = dict(succ=succ, pred=pred, rpo=rpo, back=back, loops=loops)
        return self._cfg

    def liveness(self):
        """block -> set of SSA ids live at block entry (phi operands count on the edge)"""
        c = self.cfg()
        n = len(self.blocks)
        use, de, phiuse = [set() for _ in range(n)], [set() for _ in range(n)], [set() for _ in range(n)]
        for bi, b in enumerate(self.blocks):
            for i in b:
                if i.op == "phi":
                    for v, p in zip(i.ops, i.x):
                        if isinstance(v, int):
                            phiuse[p].add(v)
                    de[bi].add(i.id)
                    continue
                for v in i.ops:
                    if isinstance(v, int) and v not in de[bi]:
                        use[bi].add(v)
                if i.op == "getelementptr":
                    for v, s in i.x["v"]:
                        if isinstance(v, int) and v not in de[bi]:
                            use[bi].add(v)
                if i.op == "call" and i.x[0] == "ind" and isinstance(i.x[1], int) and i.x[1] not in de[bi]:
                    use[bi].add(i.x[1])
                if i.id >= 0:
                    de[bi].add(i.id)
        live = [set(u) for u in use]
        ch = True
        while ch:
            ch = False
            for b in reversed(c["rpo"]):
                out = set(phiuse[b])
                for s in c["succ"][b]:
                    out |= live[s]
                new = use[b] | (out - de[b])
                if new != live[b]:
                    live[b] = new
                    ch = True
        return live


class Module:
    def __init__(self, j):
        self.ditypes = j["ditypes"]
        self.enums = j["enums"]
        self.structs = j["structs"]
        self.globals = j["globals"]
        self.sources = j.get("sources", [])
        self.fns = {k: Fn(k, f, self) for k, f in j["functions"].items()}
        self._callers = None

    def strlit(self, t):
        """string literal a constant term points to, or None"""
        if t.op != "g":
            return None
        g = self.globals.get(t.a[0])
        if not g or not g["init"] or not g["const"]:
            return None
        if g["init"][0] == "z":
            return ""
        if g["init"][0] != "s":
            return None
        s = g["init"][1][t.a[1]:]
        return s.split("\0")[0]

    def callers(self):
        if self._callers is None:
            self._callers = {}
            for f in self.fns.values():
                for i in f.insts():
                    if i.callee:
                        self._callers.setdefault(i.callee, []).append(i)
        return self._callers

    def byname(self, base):
        """defined functions whose source-level name is base"""
        return [f for f in self.fns.values() if f.disp == base and not f.decl]
