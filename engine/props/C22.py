"""Initialisation before exposure: every function that links a new object into the collector's list, publishes a
compiler state, or sets up the interpreter is followed on all paths; at each call that may collect, and at each
return, every field the collector can look at (references, embedded tables and arrays, element counts) must have
been written since the memory was obtained.  Initialisers (initTable and the like) are summarised by the fields they
write on all their paths."""
import flow, gctrace, summ
from flow import mk, show, new_state, Client, abase, tbase
from gctrace import Types, TraceFlow, sname

ASSUME = ["fields that are only read under a condition on another field (property tables of a function) are required only together with that field"]
GUARDED = {("ObjFunction", f) for f in ("propertyNames", "propertyIndexes", "privatePropertyNames", "privatePropertyIndexes")}


class Init(Client):
    def on_edge(self, f, st, b, t): pass

    """bytes of tracked memory written so far: st.x[('w', base)] = frozenset of offsets"""
    def __init__(self, A, track):
        self.A, self.track = A, track
        self.events = []

    def base_off(self, a):
        if a.op == "+":
            return a.a[0], a.a[1]
        return a, 0

    def mark(self, st, b, off, n):
        k = ("w", b)
        st.x[k] = st.x.get(k, frozenset()) | frozenset(range(off, off + n))

    def on_store(self, f, st, i, a, v):
        b, off = self.base_off(a)
        self.mark(st, b, off, i.x)
        self.track.store(self, f, st, i, a, v)

    def on_mem(self, f, st, i, name, args):
        b, off = self.base_off(args[0])
        n = args[2]
        if n.op == "c" and ("memset" in name or "memcpy" in name or "memmove" in name):
            self.mark(st, b, off, min(n.a[0], 1 << 18))

    def call_effect(self, f, st, i, name, args, leaf):
        if name == "calloc" and leaf is not None and all(a.op == "c" for a in args):
            st.env[i.id] = leaf
            self.mark(st, leaf, 0, min(args[0].a[0] * args[1].a[0], 1 << 18))
            return [st]
        return None

    def on_call(self, f, st, i, name, args):
        if name:
            for k, a in enumerate(args):
                if a.op in ("+", "al", "s", "p"):
                    b, off = self.base_off(a)
                    if self.track.interesting(st, b):
                        for lo in self.A.inits(name, k):
                            self.mark(st, b, off + lo, 1)
            self.track.before(self, f, st, i, name, args)


class Analysis:
    def __init__(self, ctx, T, P):
        self.ctx, self.T, self.P = ctx, T, P
        self.memo = {}

    def inits(self, name, k):
        """offsets of parameter k's pointee that the function writes on every path"""
        key = (name, k)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = frozenset()
        fn = self.ctx.mod.fns.get(name)
        if fn is None or fn.decl or k >= fn.nargs or k + 1 >= len(fn.ditys):
            if name in ("memset", "calloc"):
                pass
            return frozenset()
        ty = fn.ditys[k + 1]
        if not ty.endswith("*") or ty.endswith("**") or self.T.st(ty) is None or sname(ty) in ("_vm",) or sum(len(b) for b in fn.blocks) > 400:
            return frozenset()
        if not any(i.op == "store" for i in fn.insts()) and not any(i.op == "call" for i in fn.insts()):
            return frozenset()
        p = mk("p", k)

        class Tr:
            def interesting(s, st, b): return b is p
            def store(s, *a): pass
            def before(s, *a): pass
        f = WFlow(self.ctx.mod, fn, self.ctx.K, [Init(self, Tr())])
        f.maxsteps = 60000
        try:
            f.run(new_state())
        except flow.Abort:
            return frozenset()
        r = None
        for st, v, i in f.rets:
            w = st.x.get(("w", p), frozenset())
            r = w if r is None else r & w
        self.memo[key] = r or frozenset()
        return self.memo[key]

    def required(self, s):
        """{offset: (size, name)} the collector may look at"""
        out = {}
        d = self.T.st(s)

        def rec(n, base, path):
            for f, off, size, t in self.T.st(n)["m"]:
                nm = path + f
                if t == "sObj" or (sname(n), f) in GUARDED:
                    continue
                sub = self.T.st(t) if not t.endswith("*") and "[" not in t else None
                if sub is not None and sub["m"] and t != "Value":
                    rec(t, base + off, nm + ".")
                elif "[" in t:
                    continue
                else:
                    out[base + off] = (size, nm)
        rec(s, 0, "")
        return out

    def traced_only(self, s):
        """references and counts the marker reads in a structure that is a root"""
        out = {}

        def rec(n, base, path):
            for what, off, det, name in self.T.needs(n):
                if what in ("obj", "val", "list"):
                    out[base + off] = (8, path + name)
                elif what == "sub":
                    rec(det, base + off, path + name + ".")
                elif what == "arr":
                    out[base + off] = (8, path + name)
                    for o, inc in det[1]:
                        out[base + o] = (4, path + name + " count")
        rec(s, 0, "")
        return out


class Nop(Client):
    def on_edge(self, f, st, b, t): pass


class WFlow(TraceFlow):
    def prune(self, st, live):
        keep = {k: v for k, v in st.x.items() if k[0] in ("w", "obj", "pub")}
        super().prune(st, live)
        st.x.update(keep)

    def edge(self, b, t, st):
        return flow.Flow.edge(self, b, t, st)


def missing(w, req):
    return [nm for off, (size, nm) in sorted(req.items()) if not all((off + k) in w for k in range(size))]


def run(ctx):
    mod, K = ctx.mod, ctx.K
    T = Types(mod, K)
    P = summ.Program(mod, K)
    A = Analysis(ctx, T, P)
    vmoff = P.vmoff
    obl = 0
    structs = {}
    for s in mod.ditypes:
        b = K.of_type(s)
        if b and any(m[0] == "obj" for m in mod.ditypes[s]["m"]):
            structs.setdefault(b, s)
    by_type = {K.objtype[b.bit_length() - 1]: s for b, s in structs.items()}
    stats = dict(objects=0, exposures=0)

    def rep(f, i, what, nm, when):
        ctx.violation("%s/%s: %s.%s" % (f.fn.file, f.fn.disp, what, nm), "%s in %s()" % (i.where(), i.wherefn()),
                      "%s.%s has not been initialised %s" % (what, nm, when))

    # ---- objects
    class Objects:
        def interesting(self, st, b):
            return b.op in ("s", "al", "p")

        def store(self, c, f, st, i, a, v):
            if f.vmp is not None and a is f.plus(f.vmp, vmoff["objects"]) and v.op in ("s",):
                ty = st.mem.get(v)
                s = by_type.get(ty.a[0]) if ty is not None and ty.op == "c" else None
                if s:
                    stats["objects"] += 1
                    st.x[("obj", v)] = s
                elif ("obj", v) not in st.x and v.op == "s" and f.fn.defs.get(v.a[0]) is not None and f.fn.defs[v.a[0]].callee == "reallocate":
                    und.append("%s: kind of the object" % f.fn.disp)

        def before(self, c, f, st, i, name, args):
            if name in P.gcfns and may_collect(f, st, name, args):
                self.expose(c, f, st, i, "when %s() may collect" % name)

        def expose(self, c, f, st, i, when):
            nonlocal obl
            for k, s in list(st.x.items()):
                if k[0] != "obj":
                    continue
                stats["exposures"] += 1
                req = A.required(s)
                obl += len(req)
                for nm in missing(st.x.get(("w", k[1]), frozenset()), req):
                    rep(f, i, s, nm, when)
                del st.x[k]
    und = []

    def may_collect(f, st, name, args):
        if name == "reallocate":
            return not (args[3].op == "c" and args[3].a[0] == 0)
        return True
    ctors = [fn for fn in mod.fns.values() if not fn.decl and any(
        i.op == "store" and isinstance(i.ops[1], int) and fn.defs.get(i.ops[1]) is not None and fn.defs[i.ops[1]].op == "getelementptr"
        and fn.defs[i.ops[1]].x["src"] == "struct._vm" and fn.defs[i.ops[1]].x["off"] == vmoff["objects"] for i in fn.insts()) and fn.disp != "collectGarbage"]
    for fn in sorted(ctors, key=lambda x: x.name):
        tr = Objects()
        c = Init(A, tr)
        f = WFlow(mod, fn, K, [c])
        f.run(new_state())
        for st, v, i in f.rets:
            if i is not None:
                tr.expose(c, f, st, i, "when the object is returned")

    # ---- compiler states published through vm->compiler (and class states through them)
    pub = 0
    for fn in mod.fns.values():
        if fn.decl:
            continue
        for s, fld, owner in (("Compiler", "compiler", "_vm"), ("ClassCompiler", "class", "Compiler")):
            off = T.off(owner, fld)
            hit = False
            for i in fn.insts():
                if i.op == "store" and i.x == 8 and isinstance(i.ops[1], int):
                    a = fn.defs.get(i.ops[1])
                    src = a.x["src"] if a is not None and a.op == "getelementptr" else None
                    if (src == "struct." + owner and a.x["off"] == off and not a.x["v"]):
                        hit = True
            if off == 0:
                # field at offset zero: the address is the structure itself
                for i in fn.insts():
                    if i.op == "store" and isinstance(i.ops[1], int) and i.ops[1] < fn.nargs and fn.ditys[1 + i.ops[1]].rstrip("*") in (owner, "DictuVM"):
                        hit = True
                    if i.op == "store" and isinstance(i.ops[1], int):
                        a = fn.defs.get(i.ops[1])
                        if a is not None and a.op == "load":
                            hit = hit or None
            if hit:
                pub += published(ctx, T, A, P, fn, s, owner, off, rep)
    # ---- the interpreter itself
    init = mod.byname("dictuInitVM")
    if len(init) != 1:
        raise RuntimeError("dictuInitVM not found")
    fn = init[0]
    req = {o: x for o, x in A.traced_only("_vm").items()}
    for extra in ("objects", "grayCount", "grayCapacity", "grayStack", "frameCount", "stackTop", "bytesAllocated", "nextGC", "openUpvalues", "compiler"):
        m = [m for m in T.st("_vm")["m"] if m[0] == extra]
        if m:
            req[m[0][1]] = (m[0][2], extra)
    done = []

    class VM:
        def interesting(self, st, b):
            return b.op in ("s", "al")

        def store(self, *a): pass

        def before(self, c, f, st, i, name, args):
            nonlocal obl
            if name in P.gcfns and may_collect(f, st, name, args):
                for k in list(st.x):
                    if k[0] == "w" and k[1].op == "s" and k[1] is vm_of(f, args):
                        if ("pub", k[1]) in st.x:
                            continue
                        st.x[("pub", k[1])] = True
                        done.append(1)
                        obl += len(req)
                        for nm in missing(st.x[k], req):
                            rep(f, i, "interpreter", nm, "when the first object is allocated")

    def vm_of(f, args):
        return args[0] if args else None
    f = WFlow(mod, fn, K, [Init(A, VM())])
    f.maxsteps = 2000000
    f.run(new_state())
    ctx.require(len(done), 1, "first allocation of the interpreter")
    ctx.cov.update(constructors=len(ctors), objects_followed=stats["objects"], exposures=stats["exposures"], compiler_states=pub, obligations=obl,
                   rule="every field the collector reads is written before the collector can run")
    if und:
        ctx.cov["not_decided"] = sorted(set(und))
    ctx.require(len(ctors), 12, "object constructors")
    ctx.require(stats["exposures"], 16, "exposed objects")
    ctx.require(pub, 1, "compiler states")


def published(ctx, T, A, P, fn, s, owner, off, rep):
    """a state object becomes visible to the collector when it is stored into its owner's field"""
    mod, K = ctx.mod, ctx.K
    req = A.traced_only(s)
    n = [0]

    class Pub:
        def interesting(self, st, b):
            return b.op in ("p", "al", "s")

        def store(self, c, f, st, i, a, v):
            if v.op in ("p", "al") and a is not v:
                ok = False
                if owner == "_vm":
                    ok = a.op != "al" and (a is f.vmp and off == 0 or a.op == "+" and a.a[1] == off and a.a[0] is f.vmp)
                    if off == 0 and not ok:
                        ok = a.op == "ld" and v.op == "p"
                else:
                    b = a.a[0] if a.op == "+" else a
                    ok = a.op == "+" and a.a[1] == off and (b.op in ("p", "ld", "s", "al"))
                if ok and ty(f, v) in (s, None):
                    st.x[("pub", v)] = True

        def before(self, c, f, st, i, name, args):
            if name in P.gcfns:
                self.check(c, f, st, i, "when %s() may collect" % name)

        def check(self, c, f, st, i, when):
            for k in list(st.x):
                if k[0] == "pub":
                    n[0] += 1
                    for nm in missing(st.x.get(("w", k[1]), frozenset()), req):
                        rep(f, i, s, nm, when)
                    del st.x[k]

    def ty(f, v):
        if v.op == "p":
            t = f.fn.ditys[1 + v.a[0]] if 1 + v.a[0] < len(f.fn.ditys) else ""
            return sname(t)
        d = f.fn.defs.get(v.a[0])
        t = d.x if d is not None and isinstance(d.x, str) else None
        return sname(t) if t and "struct." in t else None
    tr = Pub()
    c = Init(A, tr)
    f = WFlow(mod, fn, K, [c])
    try:
        f.run(new_state())
    except flow.Abort as e:
        ctx.cov.setdefault("aborted", []).append(str(e))
        return 0
    for st, v, i in f.rets:
        if i is not None:
            tr.check(c, f, st, i, "when %s() returns" % fn.disp)
    return 1 if n[0] else 0
