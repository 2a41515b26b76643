"""Open-addressing rules of the three hash containers (attribute/global tables, dictionaries, sets).

Iteration: every loop over slots anywhere in the code starts at the first slot, advances by one, runs to the last
slot of the container whose slots it reads, skips only dead slots, and hands no key or value of a dead slot on.
Probing: starts at hash & mask, advances by one modulo the table, stops exactly on the key or on a slot that was
never used, and continues over deleted slots (what deletion writes and what creation writes is taken from the code).
Resizing: all new slots are initialised, every live slot is re-probed in the new array with the new size and its
key and value are moved, counters and capacity describe the new array.  Inserting: room is made before probing
whenever the load (including deleted slots) could fill the table; key and value are stored in the probed slot and
the counters move by one exactly for a new key.  Deleting: probes, writes a deletion mark, live counter minus one.
Lookups never probe an unallocated table."""
import flow, struct
from flow import mk, show, new_state, Client, C
from gctrace import Trace, TraceFlow, Checker, Types
from ir import NULL
import dityp

# element struct -> (container struct, array field, capacity field, inclusive, counters)
CONT = {"DictItem": ("sObjDict", "entries", "capacityMask", 1, "activeCount", "count"),
        "SetItem": ("sObjSet", "entries", "capacityMask", 1, "count", "tombstones"),
        "Entry": ("Table", "entries", "capacity", 0, "count", None)}
VALOFF = 8
CONT_SIZE = {'DictItem': 16, 'SetItem': 16, 'Entry': 24}


def sn(s):
    return s.replace("struct.", "")


class Use(Trace):
    def __init__(self, ctx, T, probes, markers, resizers=()):
        self.resizers = resizers
        self.ctx, self.T, self.probes, self.markers = ctx, T, probes, markers
        self.loops, self.exits, self.calls, self.indirect = {}, {}, 0, []
        self.usedcount = []
        self.usedoff = T.off("sObjDict", "count")
        self.elems = {}         # element term -> element struct
        self.dead_uses = []
        self.stores = []        # (elem term, offset, value, state snapshot facts)
        self.counts = []
        self.allocs = {}

    def on_gep(self, f, st, i, b):
        e = st.env[i.id]
        if e.op == "+" and e.a[1] in (0, VALOFF) and e.a[0].op in ("idx", "s"):
            e = e.a[0]
        if e in self.elems or e.op not in ("idx", "s"):
            return
        if e.op == "idx" and (len(e.a) != 3 or e.a[2] not in (16, 24)):
            return
        t = dityp.typeof(self.T, f, st, e)
        s = sn(t[:-1]) if t and t.endswith("*") and not t.endswith("**") else None
        if s is None and e.op == "idx" and e.a[0].op == "s":
            d = f.fn.defs.get(e.a[0].a[0])
            if d is not None and d.callee == "reallocate":
                s = {self.probes[c.callee] for c in f.fn.insts() if c.callee in self.probes}
                s = s.pop() if s else None
        if s in CONT and (e.op == "s" or e.a[2] == CONT_SIZE[s]):
            self.elems[e] = s

    def on_load(self, f, st, i, a):
        if a.op == "+" and a.a[1] == self.usedoff and i.x == 4 and i not in self.usedcount and dityp.typeof(self.T, f, st, a.a[0]) == "sObjDict*":
            self.usedcount.append(i)
        # what the key refers to (other than its type) is looked at: the key is used
        if a.op == "+" and a.a[1] and a.a[0].op in ("ld", "unbox"):
            o = self.owner(st, a.a[0])
            if o is not None and o[1] == 0:
                st.x[("tr",)] = st.x.get(("tr",), frozenset()) | {mk("ld", o[0], 8)}

    def keyterm(self, st, e):
        v = st.mem.get(e)
        return v if v is not None else mk("ld", e, 8)

    def live(self, f, st, e):
        """the slot is known to hold a key (and what is known): True / False / None"""
        s = self.elems[e]
        k = self.keyterm(st, e)
        K = self.T.K
        if s == "Entry":
            if k is NULL:
                return False
            r = f.evalc(st, f.cmp("eq", k, NULL, 64))
            return None if r is None else not r
        m = f.kindmask(st, k)
        if not m & ~K.bit["empty"]:
            return False
        if s == "SetItem":
            d = mk("ld", f.plus(e, VALOFF), 1)
            dv = st.mem.get(f.plus(e, VALOFF), d)
            r = f.evalc(st, mk("trunc", dv, 8, 1))
            iv = f.interval(st, dv)
            if r is True or (iv and iv[0] > 0):
                return False
        if not m & K.bit["empty"]:
            return True
        return None

    def parts(self, t):
        while t.op in ("box", "unbox", "num", "tonum"):
            t = t.a[0]
        return t

    def owner(self, st, t):
        """(element, offset) whose current content the term is"""
        t = self.parts(t)
        if t.op != "ld":
            return None
        a = t.a[0]
        if a in self.elems:
            return a, 0
        if a.op == "+" and a.a[0] in self.elems and a.a[1] == VALOFF:
            return a.a[0], VALOFF
        return None

    def mentions(self, f, t):
        """the term is about a slot"""
        if t in self.elems:
            return True
        s = f.subs(t)
        return any(e in s for e in self.elems)

    def use(self, f, st, i, t, what):
        tr = st.x.get(("tr",), frozenset())
        if self.mentions(f, t):
            st.x[("tr",)] = tr | {t}
        o = self.owner(st, t)
        if o is not None:
            e, off = o
            if off and self.elems[e] == "SetItem":
                return
            if off and st.mem.get(e) is not None:
                return
            lv = self.live(f, st, e)
            if lv is None:
                lv = st.x.get(("lv", e))
            if lv is not True:
                self.dead_uses.append((i, self.elems[e], "key" if off == 0 else "value", what, lv))

    def on_call(self, f, st, i, name, args):
        self.calls += 1
        if name in self.resizers:
            st.x[("resized",)] = 1
        if name in self.markers:
            for a in args:
                if self.mentions(f, a):
                    st.x[("tr",)] = st.x.get(("tr",), frozenset()) | {a}
            return
        for a in args:
            self.use(f, st, i, a, "handed to %s" % (name + "()" if name else "a function pointer"))
        if name == "reallocate" and len(args) == 4:
            self.allocs[i.id] = args[3]
        if name in self.probes:
            st.x[("probe", i.id)] = (name, args[0], args[1], args[2])
            self.elems[mk("s", i.id)] = self.probes[name]
            st.x[("room",)] = st.x.get(("room",), 0)
            c = self.probes[name]
            self.counts.append((i, name, args, st.copy()))
        if name == "valuesEqual":
            st.x[("veq", i.id)] = (args[0], args[1])

    def on_word(self, f, st, i, a, v):
        if v is not None:
            self.on_store(f, st, i, a, v)

    def on_store(self, f, st, i, a, v):
        e, off = (a, 0) if a in self.elems else (a.a[0], a.a[1]) if a.op == "+" and a.a[0] in self.elems else (None, None)
        o = self.owner(st, v)
        if e is not None:
            lv = self.live(f, st, e) if (off == 0 or ("st", e) not in st.x) else st.x[("st", e)]
            if ("st", e) not in st.x:
                st.x[("st", e)] = lv
            self.stores.append((i, e, off, v, st.x[("st", e)]))
            if o is not None and o[0] is e:
                return
        if o is not None or v.op in ("box", "unbox"):
            self.use(f, st, i, v, "stored")

    def on_edge(self, f, st, b, t):
        for k in [k for k in st.x if k[0] == "veq"]:
            r = st.truth.get(mk("s", k[1]))
            if r is not None:
                st.x[("eq", k[1])] = (st.x[k], r)
        for e in self.elems:
            if ("st", e) not in st.x:
                lv = self.live(f, st, e)
                if lv is not None:
                    st.x[("lv", e)] = lv
        super().on_edge(f, st, b, t)
        for h, body in f.headers.items():
            if b in body and t not in body:
                self.exits.setdefault(h, []).append((b, st.x[("exit", h)], st.copy(), f.fn.blocks[b][-1]))

    def forget(self, f, st, h):
        leaves = {mk("s", i.id) for i in f.fn.blocks[h] if i.op == "phi"}
        tr = st.x.get(("tr",))
        if tr:
            st.x[("tr",)] = frozenset(t for t in tr if not (t.leaves & leaves))
        for k in [k for k in st.x if k[0] in ("eq", "veq", "probe", "st", "lv")]:
            del st.x[k]


class UFlow(TraceFlow):
    widened = False
    scan_only = False

    def widen(self, st, bi):
        self.widened = True
        return super().widen(st, bi)

    def key(self, st, live, bi):
        # how a loop was entered and left has been recorded once it is left
        for k in [k for k in st.x if k[0] in ("exit", "enter", "fav", "fa") and bi not in self.headers.get(k[1], ())]:
            del st.x[k]
        return super().key(st, live, bi)

    def prune(self, st, live):
        keep = {k: v for k, v in st.x.items() if k[0] in ("eq", "veq", "probe", "st", "room", "lv", "resized")}
        if self.scan_only:
            # what other memory holds does not matter where slots are only read
            for a in [a for a in st.mem if flow.abase(a).op != "al" and not (self.clients[0].elems and a in self.clients[0].elems)]:
                del st.mem[a]
        super().prune(st, live)
        st.x.update(keep)


class Loops(Checker):
    def traced(self, tr, v, a, ty):
        lv = mk("ld", a, ty)
        return any(lv is t or v is t or lv in self.f.subs(t) or (a in self.f.subs(t)) for t in tr)


def run(ctx):
    mod, K = ctx.mod, ctx.K
    T = Types(mod, K)
    off = lambda s, f: T.off(s, f)
    info = {}
    for es, (cs, af, cf, inc, live, extra) in CONT.items():
        info[es] = dict(cs=cs, arr=off(cs, af), cap=off(cs, cf), inc=inc, size=T.st(es)["size"], live=off(cs, live),
                        extra=off(cs, extra) if extra else None, livename=live, extraname=extra)
        ks = [m for m in T.st(es)["m"] if m[1] == 0]
        if not ks:
            raise RuntimeError("layout of %s" % es)
    # probe functions: (elements, size, key) -> element, searching in a loop
    probes = {}
    for f in mod.fns.values():
        if not f.decl and f.nargs == 3 and len(f.ditys) == 4 and f.ditys[0].endswith("*") and sn(f.ditys[0])[:-1] in CONT \
                and f.ditys[1] == f.ditys[0] and f.cfg()["loops"]:
            probes[f.name] = sn(f.ditys[0])[:-1]
    ctx.require(len(probes), 3, "probe functions")
    gobj, gval = mod.byname("grayObject")[0].name, mod.byname("grayValue")[0].name
    markers = {gobj, gval}
    resizers = {f.name for f in mod.fns.values() if not f.decl and any(i.callee in probes for i in f.insts())
                and any(i.callee == "reallocate" for i in f.insts()) and any(sn(t.rstrip("*")) in ("Table", "sObjDict", "sObjSet", "ObjDict", "ObjSet") for t in f.ditys[1:])}
    ctx.require(len(resizers), 3, "resizing functions")
    obl = 0
    loops = 0
    und = []
    checked = []
    dead = {}
    results = {}
    recv = {}
    for x in ctx.regs:
        if x.conv == "method" and isinstance(x.recv, int) and x.recv:
            recv[x.fn] = recv.get(x.fn, 0) | x.recv
    for fn in sorted(mod.fns.values(), key=lambda f: f.name):
        if fn.decl:
            continue
        touches = any(i.op == "getelementptr" and any(x[1] in (16, 24) for x in i.x["v"]) for i in fn.insts())
        calls = any(i.callee in probes for i in fn.insts())
        isdict = recv.get(fn.name) == K.bit["dict"] or any("sObjDict*" in t for t in fn.dv.values()) or "sObjDict*" in fn.ditys[1:]
        if not calls and not isdict and not (touches and any(names_slots(l[0], l[1]) for i in fn.insts() if i.loc for l in i.loc)):
            continue
        cl = Use(ctx, T, probes, markers, resizers)
        f = UFlow(mod, fn, K, [cl])
        f.scan_only = not calls and fn.name not in probes
        try:
            f.run(init(f, fn, recv))
        except flow.Abort as e:
            if fn.disp != "run":
                und.append("%s: %s" % (fn.disp, e))
            continue
        checked.append(fn.disp)
        results[fn.name] = (f, cl)
        for i, s, part, what, lv in cl.dead_uses:
            k = "%s/%s: dead %s" % (fn.file, fn.disp, part)
            if fn.name in probes:
                continue
            ctx.violation(k, i.wherefn(), "the %s of a slot that may be unused or deleted is %s" % (part, what))
        if fn.name not in probes:
            loops += scan_loops(ctx, T, info, fn, f, cl, und)
        obl += len(cl.dead_uses) + cl.calls
    # opcode handlers with a loop over slots
    import handlers
    fn, disp, hs = handlers.dispatch(mod)[:3]
    heads = {h: body for h, body in fn.cfg()["loops"].items() if disp not in body}
    runs = 0
    for op, hb in hs:
        reg, todo = set(), [hb]
        while todo:
            b = todo.pop()
            if b in reg or b == disp:
                continue
            reg.add(b)
            t = fn.blocks[b][-1]
            todo += [x[1] if isinstance(x, (list, tuple)) else x for x in (t.x or [])] if t.op in ("br", "switch", "indirectbr") else []
        if not any(h in reg and any(names_slots(l[0], l[1]) for b in body for i in fn.blocks[b] if i.loc for l in i.loc) for h, body in heads.items()):
            continue
        cl = Use(ctx, T, probes, markers, resizers)
        f = UFlow(mod, fn, K, [cl])
        f.scan_only = True
        try:
            f.run(handlers.entry_state(f, fn), entry=hb, stop={disp})
        except flow.Abort as e:
            und.append("%s: %s" % (op, e))
            continue
        runs += 1
        for i, s, part, what, lv in cl.dead_uses:
            ctx.violation("run/%s: dead %s" % (op, part), i.where(), "the %s of a slot that may be unused or deleted is %s" % (part, what))
        loops += scan_loops(ctx, T, info, fn, f, cl, und, op)
    ctx.cov["opcode_handlers_with_slot_loops"] = runs
    n = 0
    for name in sorted(probes):
        n += probe_rules(ctx, T, info, probes[name], *results[name], results)
    for name, (f, cl) in sorted(results.items()):
        n += update_rules(ctx, T, info, probes, f, cl, und)
    ctx.cov.update(functions=len(checked), slot_loops=loops, obligations=obl + n + loops * 4, undecided=sorted(set(und)), functions_checked=checked,
                   rule="iteration, probing, resizing, insertion, deletion rules (see explanation)")
    ctx.require(loops, 15, "loops over slots")
    ctx.require(n, 40, "container obligations")
    nc = 0
    for name, (f, cl) in sorted(results.items()):
        if any(i.callee in probes or i.callee in resizers for i in f.fn.insts()) or name in probes or name in resizers:
            continue
        for i in cl.usedcount:
            nc += 1
            r = counter_rule(ctx, T, f, cl, i, None)
            if r:
                ctx.violation("%s/%s: used count %s" % (f.fn.file, f.fn.disp, r[0]), i.where(),
                              "%s: the number of slots in use, which includes removed keys, is %s" % (f.fn.disp, r[0]))
    ctx.cov["reads_of_used_slot_counter"] = nc


_names = {}


def names_slots(path, line):
    """the source line (or one next to it) mentions slots (a function that never does works on other arrays)"""
    if path not in _names:
        import re, frontend, os
        p = path if path.startswith("/") else os.path.join(frontend.REPO, "src", path)
        try:
            ls = open(p, errors="replace").read().split("\n")
            hit = {n for n, l in enumerate(ls, 1) if re.search(r"\b(entries|DictItem|SetItem|Entry)\b", l)}
            _names[path] = {m for n in hit for m in range(n - 1, n + 3)}
        except OSError:
            _names[path] = None
    return _names[path] is None or line in _names[path]


def init(f, fn, recv):
    st = new_state()
    if fn.name in recv:
        st.kinds[mk("ld", mk("p", 2), 8)] = recv[fn.name]
    return st


def cur(s, phi):
    """value of a loop variable in this iteration (the start value in the first one)"""
    return s.env.get(phi.a[0], phi)


def cont_of(info, es, arr):
    """address of the container whose element array the term is"""
    if arr.op != "ld":
        return None
    a = arr.a[0]
    return a


def scan_loops(ctx, T, info, fn, f, cl, und, op=None):
    n = 0
    done = set()
    for e, es in list(cl.elems.items()):
        d = info[es]
        ptr = False
        if e.op == "idx" and len(e.a) == 3 and e.a[1].op == "s":
            base, phi = e.a[0], e.a[1]
        elif e.op == "s":
            phi, base = e, None
            ptr = True
        else:
            continue
        h = [b for b, body in f.headers.items() if any(i.op == "phi" and mk("s", i.id) is phi for i in f.fn.blocks[b])]
        if not h or (h[0], phi) in done or h[0] not in cl.loops:
            continue
        h = h[0]
        done.add((h, phi))
        if ptr:
            ent = None
            for hh, ex in cl.exits.items():
                pass
            und.append("%s: pointer loop over %s" % (fn.disp, es))
            continue
        if base.op != "ld":
            if base.op == "s" or base.op in ("call", "p"):
                continue        # freshly allocated array (resize rules) or a probe
            und.append("%s: loop over %s" % (fn.disp, show(base)))
            continue
        n += 1
        if __import__('os').environ.get('DBG'): print(fn.disp, show(base), h)
        pa = base.a[0]
        nx = [(s, v) for s, ph in cl.loops[h] for p, v in ph if p is phi]
        if nx and all(v.op in ("and", "urem", "srem") for s, v in nx):
            search_loop(ctx, T, d, es, fn, f, cl, pa, base, phi, h, nx)
            continue
        # the array field of its container
        # (a loop inside another one reads the array through several names of the same container)
        bases = [base] + [x.a[0] for x, xs in cl.elems.items() if xs == es and x.op == "idx" and len(x.a) == 3 and x.a[1] is phi
                          and x.a[0] is not base and x.a[0].op == "ld"]
        bounds = [(f.plus(b.a[0], d["cap"] - d["arr"]), d["inc"]) for b in bases]
        ck = Loops(T, f, cl)
        where = "%s:%s in %s()" % (fn.file, loopline(f, h), fn.disp)
        key = "%s/%s: loop over %s" % (fn.file, fn.disp, show(base)[:40])
        bad = None
        # start
        down = bool(nx) and all(v is f.binop("add", cur(s, phi), C(-1, 32), 32) for s, v in nx)
        starts = {s for st, v, i in f.rets for p, s in st.x.get(("enter", h), ()) if p is phi} | \
                 {s for b, fr, st, t in cl.exits.get(h, []) for p, s in st.x.get(("enter", h), ()) if p is phi}
        for s in starts:
            if down:
                k, s0 = 0, s
                if s.op == "add" and s.a[1].op == "c":
                    k, s0 = (s.a[1].a[0] ^ 0x80000000) - 0x80000000, s.a[0]
                for ba, inc in bounds:
                    if s0 is mk("ld", ba, 4):
                        if k != inc - 1:
                            bad = "starts %d slot(s) %s" % (abs(inc - 1 - k), "early" if k < inc - 1 else "too far")
                        break
                else:
                    und.append("%s: start %s" % (fn.disp, show(s)))
                continue
            if s is not C(0, 32):
                bad = "starts at slot %s" % show(s) if s.op == "c" else None
                if s.op != "c":
                    und.append("%s: start %s" % (fn.disp, show(s)))
        for s, ph in cl.loops[h]:
            for p, v in ph:
                if p is phi and not down and v is not f.binop("add", cur(s, phi), C(1, 32), 32):
                    bad = bad or "does not visit every slot (step %s)" % show(v)
        hit = False
        for b, fr, st, term in cl.exits.get(h, []):
            r = ck.bound(st, fr, phi, base, d["size"], bounds, False) if not down else down_end(f, st, fr, phi)
            if r == "the marking loop can end before the last element":
                lv = [st.x.get(("lv", ea), cl.live(f, st, ea)) for ea in [mk("idx", b2, x, d["size"]) for b2 in bases for x in {phi, cur(st, phi)}] if cl.elems.setdefault(ea, es)]
                if any(l is False for l in lv):
                    bad = bad or "ends at the first slot without a key"
            if r == "":
                hit = True
            elif r == "the marking loop can end before the last element":
                continue
            elif r:
                bad = bad or r.replace("marking loop", "loop over the slots").replace("the loop over the slots ", "")
        if not hit and not bad and not ck.undecided:
            bad = "has no exit at the last slot"
        for s, ph in cl.loops[h]:
            if cur(s, phi).op == "add":
                continue        # first round of a loop that counts down: the later ones are the same
            eas = [mk("idx", b, x, d["size"]) for b in bases for x in {phi, cur(s, phi)}]
            for ea in eas:
                cl.elems.setdefault(ea, es)
            lv = [s.x.get(("lv", ea), cl.live(f, s, ea)) for ea in eas]
            if any(l is False for l in lv) or (f.widened and not any(lv)):
                continue
            tr = s.x.get(("tr",), frozenset())
            if not any(ea in f.subs(t) for t in tr for ea in eas):
                # comparison of the key with something else counts as a use when it decides what happens
                if any(ea in f.subs(c) and not dead_test(T, cl, f, ea, c) and key_test(T, ea, c) for c in s.truth for ea in eas):
                    continue
                bad = bad or "skips slots that hold a key"
        und += ["%s: %s" % (fn.disp, u) for u in ck.undecided]
        if bad:
            ctx.violation(key, where, "this loop over a container's slots %s" % bad)
    return n


def down_end(f, st, fr, phi):
    """how a loop that counts down ends: '' at slot 0"""
    for c, v in fr:
        if c.op != "cmp":
            continue
        pred, x, y = c.a[:3]
        k = None
        if pred == "slt" and x is phi and y.op == "c" and v is True:
            k = (y.a[0] ^ 0x80000000) - 0x80000000
        elif pred == "slt" and y is phi and x.op == "c" and v is False:
            k = (x.a[0] ^ 0x80000000) - 0x80000000 + 1
        elif pred == "eq" and v is True and x is phi and y.op == "c":
            k = (y.a[0] ^ 0x80000000) - 0x80000000 + 1
        if k is None:
            continue
        return "" if k == 0 else "stops %d slot(s) before the first one" % k
    return "the marking loop can end before the last element"


def search_loop(ctx, T, d, es, fn, f, cl, pa, base, phi, h, nx):
    """a search that probes the container itself"""
    key = "%s/%s" % (fn.file, fn.disp)
    where = "%s:%s in %s()" % (fn.file, loopline(f, h), fn.disp)
    cap = mk("ld", f.plus(pa, d["cap"] - d["arr"]), 4)
    mask = cap if d["inc"] else mk("add", cap, C((1 << 32) - 1, 32), 32)
    for s, v in nx:
        if v.op != "and":
            continue
        if mask not in v.a[:2]:
            ctx.violation(key + ": step", where, "the probe sequence wraps at the wrong place (next index %s)" % show(v))
            continue
        x = v.a[0] if v.a[1] is mask else v.a[1]
        c = cur(s, phi)
        if not (x.op == "add" and x.a[0] is c and x.a[1].op == "c" and x.a[1].a[0] % 2 == 1):
            ctx.violation(key + ": step", where, "the probe sequence does not visit every slot (next index %s)" % show(v))
        e = mk("idx", base, c, d["size"])
        if es == "Entry" and f.evalc(s, f.cmp("eq", mk("ld", e, 8), NULL, 64)) is True and f.kindmask(s, mk("ld", f.plus(e, VALOFF), 8)) & T.K.bit["nil"]:
            ctx.violation(key + ": stop", where, "the search continues past a slot that was never used")
    for b, fr, st, t in cl.exits.get(h, []):
        e = mk("idx", base, cur(st, phi), d["size"])
        if es == "Entry" and f.evalc(st, f.cmp("eq", mk("ld", e, 8), NULL, 64)) is True:
            if f.kindmask(st, mk("ld", f.plus(e, VALOFF), 8)) & T.K.bit["true"]:
                ctx.violation(key + ": tombstone", where, "the search ends at a deleted slot: keys stored behind it are not found")


def key_test(T, ea, c):
    """a fact comparing the key itself with another key (search loops)"""
    return c.op == "cmp" and c.a[0] == "eq" and (c.a[1] is mk("ld", ea, 8) or c.a[2] is mk("ld", ea, 8)) and c.a[2].op != "c" and c.a[1].op != "c"


def dead_test(T, cl, f, ea, c):
    return False


def loopline(f, h):
    for b in f.headers[h]:
        for i in f.fn.blocks[b]:
            if i.loc:
                return i.line if hasattr(i, "line") else i.where().split(":")[-1].split(" ")[0]
    return f.fn.line


# ---------------------------------------------------------------- probing
def probe_rules(ctx, T, info, es, f, cl, results):
    fn = f.fn
    d = info[es]
    K = T.K
    key = "%s/%s" % (fn.file, fn.disp)
    n = 0
    p0, p1 = mk("p", 0), mk("p", 1)
    mask = p1 if d["inc"] else mk("add", p1, C((1 << 32) - 1, 32), 32)

    def bad(k, msg):
        ctx.violation(key + ": " + k, "%s:%d in %s()" % (fn.file, fn.line, fn.disp), msg)

    def deadkey(st, e):
        k = mk("ld", e, 8)
        if es == "Entry":
            r = f.evalc(st, f.cmp("eq", k, NULL, 64))
            return r
        m = f.kindmask(st, k)
        return True if not m & ~K.bit["empty"] else False if not m & K.bit["empty"] else None

    def content(st, e):
        """possible marks of a dead slot: subset of {'init', 'deleted'}"""
        a = f.plus(e, VALOFF)
        if es == "SetItem":
            dv = mk("ld", a, 1)
            r = f.evalc(st, mk("trunc", dv, 8, 1))
            iv = f.interval(st, dv)
            if r is None and iv:
                r = False if iv == (0, 0) else True if iv[0] > 0 else None
            return {"init", "deleted"} if r is None else {"deleted"} if r else {"init"}
        m = f.kindmask(st, mk("ld", a, 8))
        out = set()
        if m & marks[es]["init"]:
            out.add("init")
        if m & marks[es]["deleted"]:
            out.add("deleted")
        return out

    global marks
    marks = {"DictItem": dict(init=K.bit["nil"], deleted=K.bit["true"]), "Entry": dict(init=K.bit["nil"], deleted=K.bit["true"])}
    phis = set()
    for h, backs in cl.loops.items():
        for s, ph in backs:
            idx = [(p, v) for p, v in ph if v.op in ("and", "urem", "srem") or (v.op == "add" and p in v.leaves)]
            for p0_, v in ph:
                p = cur(s, p0_)
                es_here = [e for e in cl.elems if e.op == "idx" and e.a[0] is p0 and e.a[1] is p]
                if not es_here:
                    continue
                phis.add(p)
                n += 1
                if v.op == "and" and mask in v.a[:2]:
                    x = v.a[0] if v.a[1] is mask else v.a[1]
                    if not (x.op == "add" and x.a[0] is p and x.a[1].op == "c" and x.a[1].a[0] % 2 == 1):
                        bad("step", "the probe sequence does not visit every slot (next index %s)" % show(v))
                elif v.op == "and" and x_is_mask_like(v, p1):
                    bad("step", "the probe sequence wraps at the wrong place (next index %s)" % show(v))
                elif v.op == "add" and v.a[0] is p:
                    bad("step", "the probe sequence does not wrap around (next index %s)" % show(v))
                # what is passed over
                e = es_here[0]
                dk = deadkey(s, e)
                n += 1
                if dk is not False and "init" in content(s, e) and dk is True:
                    bad("stop", "the search continues past a slot that was never used")
                if dk is not True:
                    eq = key_equal(f, cl, s, e, es)
                    n += 1
                    if eq is not False:
                        bad("pass", "the search passes over a slot that may hold the key")
    if not phis:
        ctx.cov.setdefault("undecided_probes", []).append(fn.disp)
    for h in cl.loops:
        hp = [mk("s", i.id) for i in fn.blocks[h] if i.op == "phi"]
        for b, fr, st, t in cl.exits.get(h, []):
            for e in [e for e in cl.elems if e.op == "idx" and e.a[0] is p0 and any(e.a[1] is cur(st, p) for p in hp)]:
                n += 1
                if deadkey(st, e) is True and "deleted" in content(st, e):
                    bad("tombstone", "the search ends at a deleted slot: keys stored behind it are not found")
    for st, v, i in f.rets:
        e = v
        if e.op == "idx" and e.a[0] is p0:
            if e.a[1].op == "and" and not (mask in e.a[1].a[:2]):
                bad("start", "the search starts outside the table or at the wrong slot (index %s)" % show(e.a[1]))
            dk = deadkey(st, e)
            n += 1
            if dk is True:
                c = content(st, e)
                if "deleted" in c:
                    bad("tombstone", "the search ends at a deleted slot: keys stored behind it are not found")
            elif dk is False:
                if key_equal(f, cl, st, e, es) is not True:
                    bad("equal", "the search returns a slot whose key has not been compared equal")
            else:
                bad("undet", "the search returns a slot of which it does not know whether it holds the key")
    return n


def x_is_mask_like(v, p1):
    return any(x is p1 or (x.op == "add" and x.a[0] is p1) for x in v.a[:2])


def key_equal(f, cl, st, e, es):
    k = mk("ld", e, 8)
    p2 = mk("p", 2)
    for t in (p2,):
        c = f.cmp("eq", k, t, 64)
        r = f.evalc(st, c)
        if r is not None and es == "Entry":
            return r
    for x, v in st.x.items():
        if x[0] == "eq":
            (a, b), r = v
            if {a, b} == {k, p2}:
                return r
    for x, a in st.x.items():
        if x[0] == "veq" and set(a) == {k, p2}:
            r = st.truth.get(mk("s", x[1]))
            if r is not None:
                return r
    return None


# ---------------------------------------------------------------- inserting, deleting, resizing, looking up
def update_rules(ctx, T, info, probes, f, cl, und):
    fn = f.fn
    if fn.name in probes:
        return 0
    n = 0
    K = T.K
    where = "%s:%d in %s()" % (fn.file, fn.line, fn.disp)

    def bad(k, msg, w=None):
        ctx.violation("%s/%s: %s" % (fn.file, fn.disp, k), w or where, msg)

    if not any(i.callee in probes for i in fn.insts()):
        return 0
    kinds = {probes[i.callee] for i in fn.insts() if i.callee in probes}
    es = kinds.pop()
    d = info[es]
    news = [t for t in {a[0] for i, nm, a, s in cl.counts} if t.op == "s"]
    if news:
        return resize(ctx, T, info, es, f, cl, und, bad)
    # ----- probe calls on an existing container
    for i, nm, a, s in cl.counts:
        n += 2
        ent = a[0]
        if ent.op != "ld" or ent.a[0].op not in ("+", "p"):
            und.append("%s: probe of %s" % (fn.disp, show(ent)))
            continue
        cont = f.plus(ent.a[0], -d["arr"])
        cap = mk("ld", f.plus(cont, d["cap"]), 4)
        capv = s.mem.get(f.plus(cont, d["cap"]), cap)
        if a[1] is not capv and a[1] is not cap:
            x = a[1]
            if x.op == "add" and x.a[0] in (cap, capv) or (x.op == "ld" and x.a[0].op == "+" and x.a[0].a[0] is cont):
                bad("size", "the search uses %s as the size of the table instead of its capacity" % show(x), i.wherefn())
            else:
                und.append("%s: probe size %s" % (fn.disp, show(x)))
    stores = {}
    for i, e, o, v, lv in cl.stores:
        stores.setdefault(e, []).append((i, o, v, lv))
    rets = [(st, v) for st, v, i in f.rets]
    inserts = [e for e, l in stores.items() if any(o == 0 and not is_dead_value(T, es, v) for i, o, v, lv in l)]
    deletes = [e for e, l in stores.items() if any(o == 0 and is_dead_value(T, es, v) for i, o, v, lv in l)]
    for i, nm, a, s in cl.counts:
        e = mk("s", i.id)
        cont = f.plus(a[0].a[0], -d["arr"]) if a[0].op == "ld" else None
        if cont is None:
            continue
        if e in inserts:
            n += 3
            room(ctx, T, d, es, f, fn, s, cont, i, bad, und)
        else:
            n += 1
            cnt = counters(d, es)
            ok = any(nonzero(f, s, mk("ld", f.plus(cont, o), 4)) for o in cnt) or capacity_known(f, s, mk("ld", f.plus(cont, d["cap"]), 4), d["inc"])
            if not ok:
                bad("empty", "a container that may have no slots yet is searched", i.wherefn())
    for e in inserts:
        for st, v in rets:
            pr = [x for x in st.x if x[0] == "probe" and x[1] == e.a[0]]
            if not pr:
                continue
            nm, ent, cap, keyt = st.x[pr[0]]
            cont = f.plus(ent.a[0], -d["arr"])
            n += 3
            k = st.mem.get(e)
            if k is not keyt and k is not None:
                bad("key", "the slot found for one key gets another key")
            if k is None:
                bad("nokey", "a path through the insertion does not store the key")
            if es == "SetItem":
                dv = st.mem.get(f.plus(e, VALOFF))
                lv = known_live(T, f, st, e, es)
                if not (dv is not None and dv.op == "c" and dv.a[0] & 1 == 0):
                    r = f.evalc(st, mk("trunc", mk("ld", f.plus(e, VALOFF), 1), 8, 1))
                    if dv is not None or r is not False:
                        bad("mark", "the deletion mark of a reused slot is not cleared")
            else:
                vv = st.mem.get(f.plus(e, VALOFF))
                if vv is None:
                    bad("novalue", "a path through the insertion does not store the value")
            isnew = new_key(T, f, st, e, es)
            for o, name in ((d["live"], d["livename"]),) + (((d["extra"], d["extraname"]),) if es == "DictItem" else ()):
                ca = f.plus(cont, o)
                dl = delta(st, ca)
                if isnew is None:
                    und.append("%s: whether the key is new" % fn.disp)
                elif dl is not None and dl != (1 if isnew else 0):
                    bad("count " + name, "inserting %s changes the number of keys by %d" % ("a new key" if isnew else "an existing key", dl))
            if es == "SetItem":
                dl = delta(st, f.plus(cont, d["extra"]))
                r = f.evalc(st, mk("trunc", mk("ld", f.plus(e, VALOFF), 1), 8, 1))
                if dl not in (None, 0, -1):
                    bad("tombstones", "the number of deleted slots changes by %d on insertion" % dl)
    for e in deletes:
        for st, v in rets:
            pr = [x for x in st.x if x[0] == "probe" and x[1] == e.a[0]]
            if not pr:
                continue
            k = st.mem.get(e)
            nm, ent, cap, keyt = st.x[pr[0]]
            cont = f.plus(ent.a[0], -d["arr"])
            n += 2
            if k is None:
                # nothing deleted: the key must not be there
                if known_live(T, f, st, e, es) is not False:
                    bad("kept", "a path through the deletion leaves the key in place")
                if any(delta(st, f.plus(cont, o)) not in (0, None) for o in counters(d, es)):
                    bad("count kept", "the number of keys changes although no key was removed")
                continue
            vv = st.mem.get(f.plus(e, VALOFF))
            was = st.x.get(("st", e))
            if was is not True:
                bad("absent", "a slot that may not hold the key is marked as deleted")
            if vv is None:
                # what the slot held remains: it must differ from a slot that was never used
                bad("mark", "deletion leaves a slot that a search takes for one that was never used")
            elif es == "SetItem":
                if vv.op == "c" and vv.a[0] & 1 == 0:
                    bad("mark", "deletion leaves a slot that a search takes for one that was never used")
            elif not (f.kindmask(st, vv) & ~K.bit["nil"]) or vv.op != "c" and f.kindmask(st, vv) & K.bit["nil"]:
                bad("mark", "deletion leaves a slot that a search takes for one that was never used")
            dl = delta(st, f.plus(cont, d["live"]))
            if es == "Entry":
                if dl not in (0, None):
                    bad("count", "deletion lowers the number of used slots although the slot stays occupied by a mark")
            else:
                if dl not in (-1, None):
                    bad("count", "removing a key changes the number of keys by %d" % dl)
                dx = delta(st, f.plus(cont, d["extra"]))
                want = 1 if es == "SetItem" else 0
                if dx not in (want, None):
                    bad("used", "removing a key changes the number of %s by %d" % ("deleted slots" if es == "SetItem" else "used slots", dx))
    # lookups that report presence
    if not inserts and not deletes:
        for st, v in rets:
            for x in [x for x in st.x if x[0] == "probe"]:
                e = mk("s", x[1])
                n += 1
                nm, ent, cap, keyt = st.x[x]
                if keyt.op != "p":
                    continue
                lv = known_live(T, f, st, e, es)
                if v.op == "c" and fn.ditys[0] in ("bool", "_Bool"):
                    if v.a[0] & 1 and lv is not True:
                        bad("found", "a key is reported as present although the slot found may be empty or deleted")
                    if not v.a[0] & 1 and lv is not False:
                        bad("lost", "a key is reported as missing although the slot found may hold it")
                    if v.a[0] & 1 and es != "SetItem":
                        out = [t for a, t in st.mem.items() if t is mk("ld", f.plus(e, VALOFF), 8)]
                        if not out:
                            bad("result", "a lookup that succeeds does not deliver the value of the slot")
    return n


def counters(d, es):
    return [o for o in (d["live"], d["extra"]) if o is not None]


def is_dead_value(T, es, v):
    if es == "Entry":
        return v is NULL or (v.op == "c" and v.a[0] == 0)
    return v.op == "c" and v.a[0] == T.K.empty if hasattr(T.K, "empty") else (v.op == "c" and v.a[0] == EMPTY(T))


def EMPTY(T):
    return 9222246136947933188


def nonzero(f, st, t):
    iv = f.interval(st, st.mem.get(t.a[0], t))
    if iv and (iv[0] > 0 or iv[1] < 0):
        return True
    return f.evalc(st, f.cmp("eq", t, C(0, 32), 32)) is False


def capacity_known(f, st, t, inc):
    if inc:
        iv = f.interval(st, t)
        return bool(iv and iv[0] >= 0)
    return nonzero(f, st, t)


def known_live(T, f, st, e, es):
    r = st.x.get(("lv", e))
    return r if r is not None else known_live0(T, f, st, e, es)


def known_live0(T, f, st, e, es):
    k = mk("ld", e, 8)
    if es == "Entry":
        r = f.evalc(st, f.cmp("eq", k, NULL, 64))
        return None if r is None else not r
    m = f.kindmask(st, k)
    if not m & ~T.K.bit["empty"]:
        return False
    if es == "SetItem":
        r = f.evalc(st, mk("trunc", mk("ld", f.plus(e, VALOFF), 1), 8, 1))
        if r is True:
            return False
    return True if not m & T.K.bit["empty"] else None


def new_key(T, f, st, e, es):
    if es == "SetItem":
        m = f.kindmask(st, mk("ld", e, 8))
        if not m & ~T.K.bit["empty"]:
            return True
        if not m & T.K.bit["empty"]:
            return False
    lv = known_live(T, f, st, e, es)
    if lv is None:
        lv = st.x.get(("st", e))
    return None if lv is None else not lv


def delta(st, a):
    v = st.mem.get(a)
    if v is None:
        return 0
    if v.op == "add" and v.a[1].op == "c" and v.a[0].op in ("ld", "out") and v.a[0].a[0 if v.a[0].op == "ld" else 1] is a:
        c = v.a[1].a[0]
        return c - (1 << 32) if c >> 31 else c
    if v.op == "ld" and v.a[0] is a:
        return 0
    return None


def fval(t):
    return struct.unpack("<d", struct.pack("<Q", t.a[0]))[0] if t.op == "f" else None


def room(ctx, T, d, es, f, fn, s, cont, i, bad, und):
    """before a key is put into the table it has been made large enough: resized, or the load is known to be low"""
    ents = f.plus(cont, d["arr"])
    resized = s.x.get(("resized",))
    if resized:
        return
    used = [mk("ld", f.plus(cont, d["live"]), 4)] if es != "DictItem" else [mk("ld", f.plus(cont, d["extra"]), 4)]
    if es == "SetItem":
        used.append(mk("ld", f.plus(cont, d["extra"]), 4))
    cap = mk("ld", f.plus(cont, d["cap"]), 4)
    why = "nothing makes sure that the table has a free slot before the key is inserted"
    for c, v in s.truth.items():
        if c.op != "fcmp":
            continue
        pred, x, y = c.a
        if v:
            if pred in ("ole", "ule"):
                pass
            elif pred in ("oge", "uge"):
                x, y = y, x
            elif pred in ("olt", "ult"):
                pass
            elif pred in ("ogt", "ugt"):
                x, y = y, x
            else:
                continue
        else:
            if pred in ("ogt", "oge", "ugt", "uge"):
                pass
            elif pred in ("olt", "ole", "ult", "ule"):
                x, y = y, x
            else:
                continue
        # x <= y
        xs, ys = f.subs(x), f.subs(y)
        if cap not in ys:
            continue
        miss = [u for u in used if u not in xs]
        if len(miss) == len(used):
            continue
        if miss:
            why = "the load that decides about growing does not count %s" % ("deleted slots" if es == "SetItem" and miss[0] is used[-1] else "all used slots")
            continue
        k = None
        if y.op == "fmul":
            ks = [fval(t) for t in y.a[:2] if fval(t) is not None]
            k = ks[0] if ks else None
        elif y.op == "sitofp":
            k = 1.0
        plus = any(t.op == "add" and t.a[1].op == "c" and t.a[1].a[0] == 1 and any(u in f.subs(t) for u in used) for t in xs)
        if k is None:
            und.append("%s: load limit %s" % (fn.disp, show(y)))
            return
        if k >= 1.0 or (k > 0.95 and not plus):
            why = "the load limit lets the table fill up completely, so that a search for a missing key never ends"
            continue
        return
    bad("room", why, i.wherefn())


def resize(ctx, T, info, es, f, cl, und, bad):
    """moves every live slot into a new array"""
    fn, d, K = f.fn, info[es], T.K
    n = 0
    new = [a[0] for i, nm, a, s in cl.counts if a[0].op == "s"][0]
    newdef = f.fn.defs[new.a[0]]
    size = cap = None
    contp = None
    for st, v, i in f.rets:
        for a, t in st.mem.items():
            if t is new and a.op == "+" and a.a[1] == d["arr"]:
                contp = f.plus(a, -d["arr"])
        if contp is None:
            for a, t in st.mem.items():
                if t is new:
                    contp = f.plus(a, -d["arr"])
    if contp is None:
        bad("install", "the new slots are never installed in the container")
        return 1
    for st, v, i in f.rets:
        n += 3
        if st.mem.get(f.plus(contp, d["arr"])) is not new:
            bad("install", "the new slots are not installed on every path")
            continue
        cap = st.mem.get(f.plus(contp, d["cap"]))
        if cap is None:
            bad("capacity", "the capacity of the container is not updated on every path")
            continue
        # allocated size
        al = alloc_count(f, newdef, d["size"], cl)
        want = f.binop("add", cap, C(1, 32), 32) if d["inc"] else cap
        if al is not None and al is not want:
            bad("size", "the capacity that is recorded (%s slots) is not the number of slots allocated (%s)" % (show(want), show(al)))
        if al is None:
            und.append("%s: allocation size" % fn.disp)
        if es == "SetItem":
            t = st.mem.get(f.plus(contp, d["extra"]))
            if not (t is not None and t.op == "c" and t.a[0] == 0):
                bad("tombstones", "the number of deleted slots is not reset although the new array has none")
    old = mk("ld", f.plus(contp, d["arr"]), 8)
    initok = moveok = False
    for h, backs in cl.loops.items():
        for s, ph in backs:
            for p, v in ph:
                c = cur(s, p)
                en, eo = mk("idx", new, c, d["size"]), mk("idx", old, c, d["size"])
                if en in cl.elems:
                    n += 3
                    initok = True
                    k, m = s.mem.get(en), s.mem.get(f.plus(en, VALOFF))
                    if k is None or not is_dead_value(T, es, k):
                        bad("init key", "new slots do not start out without a key")
                    if m is None or m.op != "c" or (m.a[0] & 1 if es == "SetItem" else m.a[0] != nilv(T)):
                        bad("init mark", "a search takes new slots for deleted ones")
                    lim = cap
                    ok = rangeok(f, cl, h, p, v, [(lim, d["inc"])], und, fn)
                    if ok:
                        bad("init range", "the initialisation of the new slots %s" % ok)
                elif eo in cl.elems:
                    n += 5
                    moveok = True
                    ok = rangeok(f, cl, h, p, v, [(mk("ld", f.plus(contp, d["cap"]), 4), d["inc"])], und, fn)
                    if ok:
                        bad("move range", "the loop that moves the old slots %s" % ok)
                    lv = known_live(T, f, s, eo, es)
                    pr = [(mk("s", x[1]), w) for x, w in s.x.items() if x[0] == "probe"]
                    cnt = {o: delta_h(s, f.plus(contp, o)) for o in counters(d, es)}
                    if lv is False:
                        if pr:
                            bad("move dead", "deleted slots are moved to the new array as keys")
                        continue
                    moved = False
                    for e, (nm, ent, cp, keyt) in pr:
                        if ent is not new:
                            bad("move where", "the slot for a key is searched in the old array")
                            continue
                        if cap is not None and cp is not cap:
                            bad("move size", "the slot for a key is searched with another size than that of the new array")
                        if keyt is not mk("ld", eo, 8):
                            continue
                        k, m = s.mem.get(e), s.mem.get(f.plus(e, VALOFF))
                        if k is not mk("ld", eo, 8):
                            continue
                        if es != "SetItem" and m is not mk("ld", f.plus(eo, VALOFF), 8):
                            bad("move value", "the value of a key is not moved to the new array")
                        moved = True
                    if not moved:
                        bad("move", "a key is lost when the container is resized (some live slots are not moved)")
                    used = d["live"] if es != "DictItem" else d["extra"]
                    if cnt[used] == 0 and moved and not counted_in_local(f, cl, h, s, ph, f.plus(contp, used)):
                        bad("move count", "keys that are moved are not counted")
    if not initok:
        if not any(i.op == "call" and (i.callee or "").startswith(("memset", "llvm.memset")) for i in fn.insts()):
            und.append("%s: initialisation of new slots" % fn.disp)
    if not moveok:
        bad("move", "the old slots are not moved")
    # the counter starts from zero
    used = d["live"] if es != "DictItem" else d["extra"]
    ca = f.plus(contp, used)
    zero = [i for i in fn.insts() if i.op == "store"]
    return n


def counted_in_local(f, cl, h, s, ph, ca):
    """a local variable that becomes the counter counts this slot"""
    for p, v in ph:
        if v is f.binop("add", cur(s, p), C(1, 32), 32) and any(p is x or p in f.subs(x) for st, _, _ in f.rets for x in [st.mem.get(ca)] if x is not None):
            return True
    return False


def nilv(T):
    return 9222246136947933185


def delta_h(st, a):
    """difference of a counter to its value at loop entry"""
    v = st.mem.get(a)
    if v is None:
        return 0
    if v.op == "h":
        return 0
    if v.op == "add" and v.a[1].op == "c":
        c = v.a[1].a[0]
        return c - (1 << 32) if c >> 31 else c
    if v.op == "c":
        return None
    return None


def rangeok(f, cl, h, phi, v, bounds, und, fn):
    if all(v2 is f.binop("add", cur(s2, phi), C(-1, 32), 32) for s2, ph2 in cl.loops[h] for p2, v2 in ph2 if p2 is phi):
        # counts down
        for b, fr, st, term in cl.exits.get(h, []):
            for p, s in st.x.get(("enter", h), ()):
                if p is not phi:
                    continue
                for lim, binc in bounds:
                    if lim is not None and s is not f.binop("add", lim, C(binc - 1, 32), 32):
                        l0 = lim.a[0] if lim.op == "add" else lim
                        if l0 in f.subs(s):
                            return "starts at slot %s" % show(s)
                        und.append("%s: start %s" % (fn.disp, show(s)))
            r = down_end(f, st, fr, phi)
            if r and "can end" not in r:
                return r
        return None
    if not (v.op == "add" and v.a[0] is phi and v.a[1] is C(1, 32)):
        return "does not visit every slot (step %s)" % show(v)
    for b, fr, st, term in cl.exits.get(h, []):
        for p, s in st.x.get(("enter", h), ()):
            if p is phi and s.op == "c" and s.a[0] != 0:
                return "starts at slot %s" % show(s)
        for c, val in fr:
            if c.op != "cmp":
                continue
            pred, x, y = c.a[:3]
            end = inc = None
            if pred in ("slt", "ult") and x is phi and val is False:
                end, inc = y, 0
            elif pred in ("slt", "ult") and y is phi and val is True:
                end, inc = x, 1
            elif pred == "eq" and val is True and phi in (x, y):
                end, inc = (y if x is phi else x), 0
            if end is None:
                continue
            k = 0
            if end.op == "add" and end.a[1].op == "c":
                c0 = end.a[1].a[0]
                k, end = (c0 - (1 << 32) if c0 >> 31 else c0), end.a[0]
            for lim, binc in bounds:
                lk, l0 = 0, lim
                if lim is not None and lim.op == "add" and lim.a[1].op == "c":
                    lk, l0 = lim.a[1].a[0], lim.a[0]
                if lim is not None and (end is lim or (lk and end is l0)):
                    if end is not lim:
                        k -= (lk - (1 << 32) if lk >> 31 else lk)
                    if k + inc < binc:
                        return "stops %d slot(s) early" % (binc - k - inc)
                    if k + inc > binc:
                        return "runs %d slot(s) too far" % (k + inc - binc)
                    return None
            if end.op == "ld" and all(l is not None and l.op == "ld" for l, _ in bounds):
                return "is bounded by %s instead of the number of slots" % show(end)
            if any(l is not None and l.op == "p" for l, _ in bounds) and end.op == "ld":
                return "is bounded by %s instead of the number of new slots" % show(end)
            und.append("%s: loop bound %s" % (fn.disp, show(end)))
            return None
    return None


def alloc_count(f, i, size, cl):
    """number of elements a reallocate() call asked for"""
    for st, v, r in f.rets:
        pass
    t = cl.allocs.get(i.id) if hasattr(cl, "allocs") else None
    if t is None:
        return None
    while t.op in ("sext", "zext"):
        t = t.a[0]
    if t.op == "mul":
        for a, b in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
            if b.op == "c" and b.a[0] == size:
                while a.op in ("sext", "zext"):
                    a = a.a[0]
                return a
    return None


# ---------------------------------------------------------------- counters
def counter_rule(ctx, T, f, cl, i, seen):
    """the number of dictionary slots in use counts deleted keys too: it says nothing about the size of the dictionary except that 0 is empty"""
    todo, fn = [i.id], f.fn
    done = set()
    while todo:
        v = todo.pop()
        if v in done:
            continue
        done.add(v)
        for u in fn.insts():
            if v not in [o for o in u.ops if isinstance(o, int)]:
                continue
            if u.op in ("phi", "sext", "zext", "trunc", "select"):
                todo.append(u.id)
            elif u.op == "icmp":
                o = [x for x in u.ops if x != v]
                if not (o and isinstance(o[0], tuple) and o[0][0] == "c" and o[0][1] in (0, 1)):
                    return "compared", u
            elif u.op == "call" and (u.callee or "") and u.ops:
                continue            # a capacity hint
            elif u.op in ("sitofp", "store", "ret"):
                return "reported as the size", u
    return None


