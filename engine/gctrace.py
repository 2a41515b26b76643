"""Trace completeness of the collector.

The layouts of all managed kinds are read from the debug types; from them follows the set of references each
kind owns (fields, embedded tables and arrays, element arrays).  Each tracing routine is then analysed on all
its paths: which references have certainly been handed to the marker, which loops ran over which range of
elements, and with which elements skipped."""
import flow
from flow import Flow, Client, show, mk, C, tbase
from ir import Term, NULL

# references that are kept alive by something else, or that are not owning
WEAK_FIELDS = {
    ("ObjFunction", "module"): "modules stay in the VM's module table for good",
    ("sUpvalue", "next"): "open upvalues are roots; closed ones are reached from their closures",
    ("sUpvalue", "value"): "points into the operand stack or to the upvalue's own field",
    ("_vm", "objects"): "list of all objects (what is swept)",
    ("_vm", "strings"): "intern table, weak by design",
    ("_vm", "lastModule"): "in the module table",
    ("_vm", "stackTop"): "end of the operand stack",
    ("_vm", "grayStack"): "marker work list",
    ("CallFrame", "slots"): "points into the operand stack",
    ("CallFrame", "ip"): "code",
    ("sObj", "next"): "list of all objects",
    ("Parser", "module"): "in the module table",
}
# element arrays: (struct, field) -> (count field, inclusive)
ARRAYS = {
    ("Table", "entries"): [("capacity", 0)],
    ("ValueArray", "values"): [("count", 0), ("capacity", 0)],
    ("sObjDict", "entries"): [("capacityMask", 1)],
    ("sObjSet", "entries"): [("capacityMask", 1)],
    ("ObjClosure", "upvalues"): [("upvalueCount", 0)],
    ("_vm", "frames"): [("frameCount", 0)],
}
RINGS = {("Queue", "dq"): ("front", "count", "capacity")}
PAYLOAD = {("Stack", "ds"): [("top", 0)], ("Queue", "dq"): [("count", 0)]}
LISTS = {("_vm", "openUpvalues"): ("sUpvalue", "next")}


def sname(t):
    return t.replace("struct.", "").replace("const ", "").rstrip("*").strip()


class Types:
    def __init__(self, mod, K):
        self.mod, self.K = mod, K

    def st(self, n):
        return self.mod.ditypes.get(sname(n))

    def is_obj(self, t):
        """pointer to a managed object"""
        if not t.endswith("*") or t.endswith("**"):
            return False
        n = sname(t)
        return n in ("sObj", "Obj") or bool(self.K.of_type(n))

    def byk(self):
        """structure name -> kind bit of the managed kinds"""
        if not hasattr(self, "_byk"):
            self._byk = {}
            for n in self.mod.ditypes:
                k = self.K.of_type(n)
                if k and not n.startswith("s") or n in ("sObjString", "sObjList", "sObjDict", "sObjSet", "sUpvalue", "sObjFile"):
                    self._byk.setdefault(n, k)
        return self._byk

    def off(self, s, f):
        for m in self.st(s)["m"]:
            if m[0] == f:
                return m[1]
        raise RuntimeError("structure %s has no field %s any more" % (s, f))

    def size(self, s, f):
        return [m[2] for m in self.st(s)["m"] if m[0] == f][0]

    def needs(self, s, base=0, skip=True):
        """requirements of a structure: list of (what, offset, detail, name)"""
        r = []
        d = self.st(s)
        if d is None:
            return r
        n = sname(s)
        for f, off, size, t in d["m"]:
            if (n, f) in WEAK_FIELDS or t == "sObj":
                continue
            if (n, f) in LISTS:
                r.append(("list", base + off, LISTS[(n, f)], f))
            elif (n, f) in ARRAYS:
                r.append(("arr", base + off, (t[:-1], [(base + self.off(s, c), i) for c, i in ARRAYS[(n, f)]]), f))
            elif self.is_obj(t):
                r.append(("obj", base + off, None, f))
            elif t == "Value":
                r.append(("val", base + off, None, f))
            elif not t.endswith("*") and "[" not in t and self.st(t) is not None and self.holds(t):
                r.append(("sub", base + off, sname(t), f))
            elif t.rstrip("*") in ("Value", "DictItem", "SetItem", "Entry") or (t.endswith("**") and self.is_obj(t[:-1])):
                r.append(("unknown", base + off, t, f))
            elif "[" in t and (t.startswith("Value[") or self.is_obj(t.split("[")[0])):
                r.append(("stack" if n == "_vm" else "unknown", base + off, t, f))
        return r

    def holds(self, t, seen=()):
        n = sname(t)
        if n in seen:
            return False
        d = self.st(n)
        if d is None or n == "sObj":
            return False
        for f, off, size, ft in d["m"]:
            if (n, f) in WEAK_FIELDS:
                continue
            if (n, f) in ARRAYS or self.is_obj(ft) or ft == "Value":
                return True
            if not ft.endswith("*") and "[" not in ft and self.holds(ft, seen + (n,)):
                return True
        return False

    def elem(self, t):
        """(element size, requirements of one element, liveness field offset or None)"""
        if t == "Value":
            return 8, [("val", 0, None, "element")], None
        if self.is_obj(t):
            return 8, [("obj", 0, None, "element")], None
        d = self.st(t)
        return d["size"], self.needs(t), 0


class Trace(Client):
    """records what has been handed to the marker"""
    def __init__(self, T, whole):
        self.T, self.whole = T, whole   # whole: callee name -> (argument index, structure)
        self.loops = {}                 # header -> list of states at its back edges (with terms already traced)
        self.calls = 0
        self.indirect = []

    def add(self, st, t):
        st.x[("tr",)] = st.x.get(("tr",), frozenset()) | {t}

    def on_call(self, f, st, i, name, args):
        if name in ("grayObject", "grayValue"):
            self.calls += 1
            self.add(st, args[1])
        elif name in self.whole:
            k, s = self.whole[name]
            self.calls += 1
            self.add(st, mk("whole", s, args[k]))
        elif name is None:
            c = i.x[1]
            t = f.T(st, c) if not isinstance(c, tuple) else None
            if t is not None:
                self.add(st, mk("icall", t))
        elif name == "grayCompilerRoots":
            self.add(st, mk("icall", mk("fn", name)))

    def on_edge(self, f, st, b, t):
        for h, body in f.headers.items():
            if b in body and t not in body:
                cur = {}
                for i in f.fn.blocks[h]:
                    if i.op != "phi":
                        break
                    cur[st.env.get(i.id)] = mk("s", i.id)
                at = []
                for c, v in st.truth.items():
                    if c.op == "cmp":
                        x, y = cur.get(c.a[1]), cur.get(c.a[2])
                        if x is not None or y is not None:
                            at.append((mk("cmp", c.a[0], x or c.a[1], y or c.a[2], c.a[3]), v))
                            continue
                    if any(l in cur for l in c.leaves):
                        at.append((c, v))
                fr = frozenset(at)
                st.x[("exit", h)] = fr
            elif t == h and b in body:
                phis = []
                for i in f.fn.blocks[h]:
                    if i.op != "phi":
                        break
                    for v, p in zip(i.ops, i.x):
                        if p == b:
                            phis.append((mk("s", i.id), f.T(st, v)))
                self.loops.setdefault(h, []).append((st.copy(), phis))
                self.forget(f, st, h)
            elif t == h:
                st.x[("enter", h)] = tuple((mk("s", i.id), f.T(st, v)) for i in f.fn.blocks[h] if i.op == "phi" for v, p in zip(i.ops, i.x) if p == b)

    def forget(self, f, st, h):
        leaves = {mk("s", i.id) for i in f.fn.blocks[h] if i.op == "phi"}
        tr = st.x.get(("tr",))
        if tr:
            st.x[("tr",)] = frozenset(t for t in tr if not (t.leaves & leaves))


class TraceFlow(Flow):
    def edge(self, b, t, st):
        for c in self.clients:
            c.on_edge(self, st, b, t)
        return super().edge(b, t, st)

    def prune(self, st, live):
        keep = {k: v for k, v in st.x.items() if k[0] in ("tr", "exit", "enter")}
        super().prune(st, live)
        st.x.update(keep)


class Checker:
    """decides whether everything a structure owns has been traced in a final state"""
    def __init__(self, T, f, client):
        self.T, self.f, self.c = T, f, client
        self.undecided = []
        self.n = 0

    def ld(self, a, ty):
        return mk("ld", a, ty)

    def val(self, st, a, ty):
        v = st.mem.get(a)
        return v if v is not None else self.ld(a, ty)

    def traced(self, tr, v, a, ty):
        """the reference at address a (content v) was handed to the marker"""
        alts = {v, self.ld(a, ty), mk("box", v)}
        return any(t in alts or (t.op in ("unbox", "box") and t.a[0] in alts) or (t.op == "ld" and t.a[0] is a) or (t.op == "h" and t.a[1] is a) for t in tr)

    def null(self, st, v):
        if v is NULL or self.f.interval(st, v) == (0, 0):
            return True
        return self.f.evalc(st, self.f.cmp("eq", v, NULL, 64)) is True

    def missing(self, st, s, p, path=""):
        """requirements of the structure s at address p that the final state does not meet: [(name, why)]"""
        tr = st.x.get(("tr",), frozenset())
        if mk("whole", s, p) in tr:
            return []
        out = []
        for what, off, det, name in self.T.needs(s):
            self.n += 1
            a = self.f.plus(p, off)
            nm = (path + "." + name) if path else name
            if what == "obj":
                v = self.val(st, a, 8)
                k = self.T.K
                if not self.traced(tr, v, a, 8) and not self.null(st, v) and not any(t.op == "whole" and t.a[1] is v for t in tr):
                    out.append((nm, "is not marked"))
            elif what == "val":
                v = self.val(st, a, 8)
                if not self.traced(tr, v, a, 8) and self.f.kindmask(st, v) & self.T.K.OBJ:
                    out.append((nm, "is not marked"))
            elif what == "sub":
                if mk("whole", det, a) not in tr:
                    out.extend(self.missing(st, det, a, nm))
            elif what == "arr":
                w = self.array(st, a, det[0], [(self.f.plus(p, o), inc) for o, inc in det[1]])
                if w:
                    out.append((nm, w))
            elif what == "list":
                w = self.chain(st, a, det)
                if w:
                    out.append((nm, w))
            elif what == "stack":
                w = self.region(st, a, p)
                if w:
                    out.append((nm, w))
            elif what == "unknown":
                self.undecided.append("%s.%s (%s)" % (s, name, det))
        return out

    # ----- loops -----
    def loops(self, st):
        for k, fr in st.x.items():
            if k[0] == "exit":
                yield k[1], fr, st.x.get(("enter", k[1]), ())

    def array(self, st, pa, et, bounds, ring=None):
        """every element of the array whose start is stored at pa is traced"""
        base = self.val(st, pa, 8)
        if self.null(st, base):
            return None
        size, needs, keyoff = self.T.elem(et)
        why = "no loop over its elements marks them"
        for ba, inc in bounds:
            n = self.val(st, ba, 4)
            iv = self.f.interval(st, n)
            if iv and iv[1] < (0 if inc else 1):
                return None
        for h, facts, ent in self.loops(st):
            for phi, start in ent:
                r = self.arrayloop(st, h, facts, phi, start, base, pa, size, needs, keyoff, bounds, ring)
                if r is None:
                    continue
                if r == "":
                    return None
                why = r
        tr = st.x.get(("tr",), frozenset())
        if any(t.op == "whole" for t in tr) and False:
            return None
        return why

    def arrayloop(self, st, h, facts, phi, start, base, pa, size, needs, keyoff, bounds, ring=None):
        """None: this is not a loop over the array; '': it marks everything; text: what it misses"""
        f = self.f
        backs = self.c.loops.get(h)
        if not backs:
            return None
        # element address as a function of the loop variable
        isptr = f.fn.defs[phi.a[0]].ty == "ptr"
        ea = phi if isptr else mk("idx", base, phi, size)
        if isptr and start is not base:
            return None
        touched = any(self.touches(t, ea) for s, ph in backs for t in s.x.get(("tr",), ()))
        if not touched:
            if isptr:
                return None
            exprs = {e for s, ph in backs for t in s.x.get(("tr",), ()) for e in [self.index(t, base, size, phi)] if e is not None}
            if len(exprs) != 1:
                if exprs:
                    self.undecided.append("loop over computed indexes")
                    return ""
                return None
            e = exprs.pop()
            if ring is None:
                if e.op == "add" and e.a[1].op == "c" and e.a[0] is phi:
                    return "the marking loop is shifted by %s elements" % show(e.a[1])
                self.undecided.append("loop over computed index %s" % show(e))
                return ""
            fr, cap = self.val(st, ring[0], 4), self.val(st, ring[1], 4)
            if e.op == "srem" and e.a[1] is cap and e.a[0].op == "add" and phi in e.a[0].a and fr in e.a[0].a:
                pass
            elif e.op in ("srem", "and") and e.a[0] is phi:
                return "the marking loop ignores where the values start"
            elif e.op == "add" and phi in e.a and fr in e.a:
                return "the marking loop does not wrap around"
            else:
                self.undecided.append("ring index %s" % show(e))
            ea = mk("idx", base, e, size)
        elif ring is not None:
            return "the marking loop ignores where the values start"
        # start
        lo = 0
        if not isptr:
            iv = f.interval(st, start)
            if start.op != "c":
                self.undecided.append("loop start %s" % show(start))
                return ""
            lo = start.a[0] if start.a[0] < 1 << 31 else start.a[0] - (1 << 32)
        if lo > 0:
            return "the marking loop starts at element %d" % lo
        # step
        for s, ph in backs:
            nx = [v for p, v in ph if p is phi]
            if not nx:
                continue
            v = nx[0]
            ok = (v.op == "+" and v.a[0] in (phi, base) and v.a[1] == size) if isptr else (v.op == "add" and v.a[0] is phi and v.a[1].op == "c" and v.a[1].a[0] == 1)
            if not ok:
                if (v.op == "add" and v.a[1].op == "c") or v.op == "+":
                    return "the marking loop does not visit every element (step %s)" % show(v)
                self.undecided.append("loop step %s" % show(v))
        # range
        r = self.bound(st, facts, phi, base, size, bounds, isptr)
        if r and isptr:
            # a counter that runs along with the pointer
            for p2, s2 in st.x.get(("enter", h), ()):
                d = f.fn.defs[p2.a[0]]
                if d.ty != "ptr" and s2.op == "c" and s2.a[0] == 0 and all(v.op == "add" and v.a[0] in (p2, s2) and v.a[1].a[0] == 1 or v is C(1, 32)
                                                                           for s, ph in backs for q, v in ph if q is p2):
                    r2 = self.bound(st, facts, p2, base, size, bounds, False)
                    if not r2:
                        r = r2
        if r:
            return r
        # body
        for s, ph in backs:
            tr = s.x.get(("tr",), frozenset())
            eb = ea
            if isptr and any(p is phi and v.op == "+" and v.a[0] is base for p, v in ph):
                eb = base
            for what, off, det, name in needs:
                a = f.plus(eb, off)
                ty = 8
                v = self.val(s, a, ty)
                if self.traced(tr, v, a, ty):
                    continue
                if what == "obj" and self.null(s, v):
                    continue
                if what == "val" and not (f.kindmask(s, v) & self.T.K.OBJ):
                    continue
                if keyoff is not None and off != keyoff and self.deadkey(s, f.plus(eb, keyoff), needs):
                    continue
                return "the %s of some elements is not marked" % name if len(needs) > 1 else "some elements are skipped"
        return ""

    def deadkey(self, s, a, needs):
        w = [n for n in needs if n[1] == 0]
        if not w:
            return False
        if w[0][0] == "obj":
            return self.null(s, self.val(s, a, 8))
        return not (self.f.kindmask(s, self.val(s, a, 8)) & ~self.T.K.bit["empty"])

    def index(self, t, base, size, phi):
        """index expression (using the loop variable) of the element a traced term was read from"""
        while t.op in ("box", "unbox"):
            t = t.a[0]
        if t.op != "ld":
            return None
        a = t.a[0]
        k = 0
        if a.op == "+":
            a, k = a.a[0], a.a[1]
        if a.op == "idx" and len(a.a) == 3 and a.a[0] is base and a.a[2] == size and phi in a.a[1].leaves:
            k //= size
            return mk("add", a.a[1], C(k, 32), 32) if k else a.a[1]
        return None

    def touches(self, t, ea):
        while t.op in ("box", "unbox"):
            t = t.a[0]
        if t.op == "whole":
            t = t.a[1]
        if t.op != "ld":
            return False
        a = t.a[0]
        if a.op == "+":
            a = a.a[0]
        return a is ea

    def bound(self, st, facts, phi, base, size, bounds, isptr):
        f = self.f
        for c, v in facts:
            if c.op != "cmp":
                continue
            pred, x, y = c.a[0], c.a[1], c.a[2]
            end, inc = None, None
            if pred in ("slt", "ult") and x is phi and v is False:
                end, inc = y, 0
            elif pred in ("slt", "ult") and y is phi and v is True:
                end, inc = x, 1
            elif pred == "eq" and v is True and phi in (x, y):
                end, inc = (y if x is phi else x), 0
            if end is None:
                continue
            k = 0
            if isptr:
                # base + n elements
                e = end
                if e.op == "+":
                    if e.a[1] % size:
                        continue
                    k, e = e.a[1] // size, e.a[0]
                if e.op == "idx" and e.a[0] is base and e.a[2] == size:
                    end = e.a[1]
                elif e is base:
                    end = C(0, 32)
                else:
                    self.undecided.append("end of a pointer loop: %s" % show(end))
                    return ""
            if end.op == "add" and end.a[1].op == "c":
                c0 = end.a[1].a[0]
                k += c0 - (1 << 32) if c0 >> 31 else c0
                end = end.a[0]
            while end.op in ("sext", "zext"):
                end = end.a[0]
            last = k + inc        # elements [0, end + last)
            for ba, binc in bounds:
                if end is self.val(st, ba, 4) or (end.op == "ld" and end.a[0] is ba):
                    if last < binc:
                        return "the marking loop stops %d element(s) early" % (binc - last)
                    return ""
            if end.op == "c":
                return "the marking loop covers a constant number of elements"
            if end.op == "ld" and any(end.a[0].op == "+" and ba.op == "+" and end.a[0].a[0] is ba.a[0] for ba, _ in bounds):
                return "the marking loop is bounded by another field than the size of the array"
            self.undecided.append("loop bound %s" % show(end))
            return ""
        return "the marking loop can end before the last element"

    def chain(self, st, a, det):
        s, nxt = det
        off = self.T.off(s, nxt)
        head = self.val(st, a, 8)
        if self.null(st, head):
            return None
        why = "no loop along the list marks its elements"
        for h, facts, ent in self.loops(st):
            backs = self.c.loops.get(h)
            for phi, start in ent:
                if start is not head or not backs:
                    continue
                for sx, ph in backs:
                    tr = sx.x.get(("tr",), frozenset())
                    cur = {phi, start}
                    if not any(t in cur for t in tr):
                        return "some elements of the list are skipped"
                    for p, v in ph:
                        if p is phi and not (v.op == "ld" and v.a[0].op == "+" and v.a[0].a[0] in cur and v.a[0].a[1] == off):
                            self.undecided.append("list step %s" % show(v))
                if not any(c.op == "cmp" and c.a[0] == "eq" and v is True and c.a[2] is NULL and c.a[1] is phi for c, v in facts):
                    if facts or True:
                        ok = any(c.op == "cmp" and c.a[0] == "eq" and v is True for c, v in facts)
                        if not ok:
                            why = "the marking loop can end before the end of the list"
                            continue
                return None
        return why

    def region(self, st, a, vmp):
        """operand stack: every slot below the stack top"""
        f = self.f
        top = mk("+", vmp, f.stacktop)
        why = "no loop over the operand stack marks its slots"
        for h, facts, ent in self.loops(st):
            backs = self.c.loops.get(h)
            for phi, start in ent:
                if start is a and backs:
                    ea = phi
                elif f.fn.defs[phi.a[0]].ty != "ptr" and start.op == "c" and backs:
                    ea = mk("idx", vmp, phi, 8)
                    ea = f.plus(ea, a.a[1])
                    if start.a[0] != 0 and any(self.touch2(t, ea) for s, ph in backs for t in s.x.get(("tr",), ())):
                        return "the marking loop starts at slot %d" % start.a[0]
                else:
                    if backs and start.op == "+" and start.a[0] is vmp and a.a[1] < start.a[1] < a.a[1] + self.T.size('_vm', 'stack'):
                        return "the marking loop does not start at the bottom of the operand stack"
                    continue
                if ea is not phi and not any(self.touch2(t, ea) for s, ph in backs for t in s.x.get(("tr",), ())):
                    continue
                for s, ph in backs:
                    tr = s.x.get(("tr",), frozenset())
                    v = self.val(s, ea, 8)
                    v0 = self.val(s, a, 8)
                    if not self.traced(tr, v, ea, 8) and not self.traced(tr, v0, a, 8) and f.kindmask(s, v) & self.T.K.OBJ:
                        why = "some slots are skipped"
                        break
                    bad = [show(v) for p, v in ph if p is phi and not (v.op == "+" and v.a[1] in (8, a.a[1] + 8) or v.op == "add" and v.a[1] is C(1, 32))]
                    if bad:
                        why = "the marking loop does not visit every slot"
                        break
                else:
                    ok = False
                    for c, v in facts:
                        if c.op == "cmp" and v is False and c.a[0] in ("ult", "slt") and c.a[1] is phi:
                            e = c.a[2]
                            if e.op == "+" and e.a[1] < 0:
                                return "the marking loop stops below the stack top"
                            ok = True
                        elif c.op == "cmp" and c.a[0] == "eq" and v is True:
                            ok = True
                        elif c.op == "cmp" and v is True and c.a[0] in ("ult", "slt") and c.a[2] is phi:
                            ok = True
                    if ok:
                        return None
                    why = "the marking loop can end below the stack top"
        return why

    def touch2(self, t, ea):
        while t.op in ("box", "unbox"):
            t = t.a[0]
        return t.op == "ld" and t.a[0] is ea
