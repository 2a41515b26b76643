"""Trace completeness: from the layouts of all managed kinds (debug types) follows every reference an object,
table, array, interpreter, compiler or native payload owns.  Each tracing routine is analysed on all its paths,
with the kind of the object fixed in turn: on every return path each owned reference must have been handed to
the marker (or be known not to be a reference), loops over elements must start at the first, advance by one,
run to the full count and skip nothing that is alive.  The marker, the work list, the order of the phases and
the sweep are checked on the collector itself."""
import flow, gctrace
from flow import mk, show, new_state, Client
from gctrace import Types, Trace, TraceFlow, Checker, sname

ASSUME = ["modules stay reachable through the VM's module table (ObjFunction.module, vm.lastModule are not traced)",
          "an FFI library's own gray function traces what the library keeps"]


def analyse(ctx, T, fn, whole, init):
    c = Trace(T, whole)
    f = TraceFlow(ctx.mod, fn, ctx.K, [c])
    f.run(init(f))
    return f, c


def finals(f):
    return [st for st, v, i in f.rets if i is None or i.op == "ret"]


def kind_state(f, p, bit, K):
    st = new_state()
    st.kinds[mk("box", p)] = bit
    st.x[("pk", p)] = bit
    t = K.objtype[bit.bit_length() - 1]
    st.ints[mk("ld", p, 4)] = (t, t)
    return st


def run(ctx):
    mod, K = ctx.mod, ctx.K
    T = Types(mod, K)
    obl = und = 0
    undecided = []

    def one(name):
        r = mod.byname(name)
        if len(r) != 1:
            raise RuntimeError("%s not found" % name)
        return r[0]
    gobj, gval = one("grayObject"), one("grayValue")
    gc, black = one("collectGarbage"), one("blackenObject")

    # routines that trace one structure completely: (vm, T *)
    markers = {gobj.name, gval.name}
    ch = True
    while ch:
        ch = False
        for f in mod.fns.values():
            if not f.decl and f.name not in markers and f.name not in (gc.name, "reallocate") and f.nargs == 2 and len(f.ditys) == 3 \
                    and any(i.callee in markers for i in f.insts()) and not any(i.callee in ("reallocate", "push") for i in f.insts()):
                markers.add(f.name)
                ch = True
    whole = {}
    for n in sorted(markers - {gobj.name, gval.name, black.name}):
        f = mod.fns[n]
        s = sname(f.ditys[2])
        if f.ditys[2].endswith("*") and T.holds(s) and not s.endswith("ObjAbstract"):
            whole[n] = (1, s)
    ctx.require(len(whole), 4, "container tracers")

    def report(fn, miss, what, ck):
        for nm, why in miss:
            ctx.violation("%s/%s: %s.%s" % (fn.file, fn.disp, what, nm), "%s:%s in %s()" % (fn.file, fn.line, fn.disp),
                          "%s.%s %s on some path: what it refers to can be freed while it is in use" % (what, nm, why))

    def check_all(fn, s, p, init, base=None):
        nonlocal obl
        f, c = analyse(ctx, T, fn, {k: v for k, v in whole.items() if k != fn.name}, init)
        seen = {}
        rets = finals(f)
        if not rets:
            raise RuntimeError("no return path in %s" % fn.disp)
        for st in rets:
            ck = Checker(T, f, c)
            for nm, why in ck.missing(st, s, p):
                seen.setdefault(nm, why)
            obl += ck.n
            undecided.extend("%s: %s" % (fn.disp, u) for u in ck.undecided)
        report(fn, sorted(seen.items()), base or s, None)
        return f, c

    for n, (k, s) in sorted(whole.items()):
        p = mk("p", 1)
        kb = K.of_type(s)
        check_all(mod.fns[n], s, p, lambda f: kind_state(f, p, kb, K) if kb else new_state())

    # the object kinds
    kinds = 0
    p = mk("p", 1)
    structs = {}
    for s in mod.ditypes:
        b = K.of_type(s)
        if b and any(m[0] == "obj" for m in mod.ditypes[s]["m"]):
            structs.setdefault(b, s)
    ctx.require(len(structs), 16, "managed kinds")
    for b, s in sorted(structs.items()):
        kinds += 1
        f, c = check_all(black, s, p, lambda f: kind_state(f, p, b, K))
        if s == "sObjAbstract":
            off = T.off(s, "grayFunc")
            for st in finals(f):
                g = mk("ld", mk("+", p, off), 8)
                ok = any(t.op == "icall" and (t.a[0] is g) for t in st.x.get(("tr",), ())) or Checker(T, f, c).null(st, g)
                if not ok:
                    report(black, [("grayFunc", "is not called")], s, None)

    # native payloads
    payload(ctx, T, whole, undecided, report)

    # roots
    vm = mk("p", 0)
    def opaque_stack(f):
        st = new_state()
        st.stack = None
        return st
    f, c = check_all(gc, "_vm", vm, opaque_stack)
    for st in finals(f):
        if not any(t.op == "icall" and t.a[0].op == "fn" for t in st.x.get(("tr",), ())):
            report(gc, [("compiler", "is not marked")], "_vm", None)
    compiler_roots(ctx, T, whole, undecided, report)
    marker(ctx, T, gobj, gval)
    sweep(ctx, T, gc, black)
    ctx.cov["kinds_analysed"] = kinds
    ctx.cov["container_tracers"] = sorted(whole)
    ctx.cov["obligations"] = obl
    ctx.cov["exempt"] = {"%s.%s" % k: v for k, v in gctrace.WEAK_FIELDS.items()}
    if undecided:
        ctx.cov["not_decided"] = sorted(set(undecided))
    ctx.cov["rule"] = "every owned reference is handed to the marker on every path of its tracing routine"
    ctx.require(obl, 80, "reference obligations")


def uses(f):
    return {sname(i.x["src"]) for i in f.insts() if i.op == "getelementptr" and isinstance(i.x.get("src"), str) and i.x["src"].startswith("struct.")}


def payload(ctx, T, whole, undecided, report):
    """abstract objects whose payload holds references install a tracing routine for it"""
    mod = ctx.mod
    po, go = T.off("sObjAbstract", "data"), T.off("sObjAbstract", "grayFunc")
    pays = {}
    for n, d in mod.ditypes.items():
        if ctx.K.of_type(n) or n in ("_vm", "Compiler", "Parser", "ClassCompiler", "CallFrame", "Table", "ValueArray", "Chunk", "Entry", "DictItem", "SetItem", "DoubleUnion", "sObj"):
            continue
        ms = [m for m in d["m"] if m[3] == "Value*" or m[3] == "Value" or T.is_obj(m[3]) or (m[3].endswith("**") and T.is_obj(m[3][:-1]))]
        if ms and "optionals" in d["file"]:
            pays[n] = ms
    found = 0
    # who builds abstracts with which payload
    for fn in mod.fns.values():
        if fn.decl:
            continue
        for i in fn.insts():
            if i.op == "call" and i.callee in ("newAbstract", "newAbstractExcludeSelf"):
                fr = i.ops[1]
                if not (isinstance(fr, tuple) and fr[0] == "fn"):
                    continue
                fre = mod.fns.get(fr[1])
                hit = (uses(fre) | uses(fn)) & set(pays) if fre is not None else set()
                hit &= uses(fre)
                if not hit:
                    continue
                found += 1
                s = sorted(hit)[0]
                # the tracing routine that is installed
                g = [o for o in installed(fn, go)]
                if not g:
                    report(fn, [(pays[s][0][0], "is never marked (no tracing routine is installed)")], s, None)
                    continue
                for gn in g:
                    gf = mod.fns.get(gn)
                    if gf is None or gf.decl:
                        continue
                    c = Trace(T, whole)
                    f = TraceFlow(mod, gf, ctx.K, [c])
                    f.run(new_state())
                    pl = mk("ld", mk("+", mk("p", 1), po), 8)
                    for st in finals(f):
                        ck = Checker(T, f, c)
                        if ck.null(st, pl):
                            continue
                        for name, off, size, ty in pays[s]:
                            a = f.plus(pl, off)
                            if ty == "Value*" and (s, name) in gctrace.PAYLOAD:
                                names = {m[0]: m[1] for m in mod.ditypes[s]["m"]}
                                bs = [(f.plus(pl, names[x]), inc) for x, inc in gctrace.PAYLOAD[(s, name)] if x in names]
                                r = gctrace.RINGS.get((s, name))
                                ring = None
                                if r and all(x in names for x in r):
                                    ring = (f.plus(pl, names[r[0]]), f.plus(pl, names[r[2]]))
                                if not bs:
                                    undecided.append("%s.%s" % (s, name))
                                    continue
                                w = ck.array(st, a, "Value", bs, ring)
                                if w:
                                    report(gf, [(name, w)], s, None)
                            elif ty == "Value" or T.is_obj(ty):
                                v = ck.val(st, a, 8)
                                if not ck.traced(st.x.get(("tr",), ()), v, a, 8) and not ck.null(st, v):
                                    report(gf, [(name, "is not marked")], s, None)
                            else:
                                undecided.append("%s.%s (%s)" % (s, name, ty))
                        undecided.extend("%s: %s" % (gf.disp, u) for u in ck.undecided)
    ctx.cov["payloads_with_references"] = found
    ctx.require(found, 2, "native payloads holding references")


def installed(fn, off):
    """functions stored into the tracing-routine field inside fn"""
    for i in fn.insts():
        if i.op == "store" and isinstance(i.ops[0], tuple) and i.ops[0][0] == "fn" and isinstance(i.ops[1], int):
            d = fn.defs.get(i.ops[1])
            if d is not None and d.op == "getelementptr" and d.x["off"] == off and not d.x["v"]:
                yield i.ops[0][1]


def compiler_roots(ctx, T, whole, undecided, report):
    mod = ctx.mod
    fs = mod.byname("grayCompilerRoots")
    if not fs:
        raise RuntimeError("compiler root tracer not found")
    fn = fs[0]
    c = Trace(T, whole)
    f = TraceFlow(mod, fn, ctx.K, [c])
    f.run(new_state())
    head = mk("ld", mk("+", mk("p", 0), T.off("_vm", "compiler")), 8) if T.off("_vm", "compiler") else mk("ld", mk("p", 0), 8)
    enc = T.off("Compiler", "enclosing")
    cls = T.off("Compiler", "class")
    needs = [n for n in T.needs("Compiler")]
    ok_chain, ok_cls = False, False
    bad = {}
    for h, backs in c.loops.items():
        for st, ph in backs:
            for phi, nx in ph:
                if nx.op == "ld" and (nx.a[0].op == "+" and nx.a[0].a[1] == enc or enc == 0):
                    cur = nx.a[0].a[0] if enc else nx.a[0]
                    if cur is not phi and cur is not head:
                        continue
                    ok_chain = True
                    ck = Checker(T, f, c)
                    for nm, why in ck.missing(st, "Compiler", cur):
                        bad[nm] = why
    # class compilers: loop along enclosing with its variable table
    ce = T.off("ClassCompiler", "enclosing")
    pv = T.needs("ClassCompiler")
    for h, backs in c.loops.items():
        for st, ph in backs:
            for phi, nx in ph:
                if nx.op != "ld":
                    continue
                b = nx.a[0]
                cur, o = (b.a[0], b.a[1]) if b.op == "+" else (b, 0)
                d = f.fn.defs.get(phi.a[0])
                if o == ce and (cur is phi or (cur.op == "ld" and cur.a[0].op == "+" and cur.a[0].a[1] == cls)):
                    if any(t.op == "whole" and t.a[0] == "Table" for t in st.x.get(("tr",), ())) or True:
                        ck = Checker(T, f, c)
                        m = ck.missing(st, "ClassCompiler", cur)
                        if not m:
                            ok_cls = True
    ck = None
    empty = [st for st in finals(f)]
    if not empty:
        raise RuntimeError("no return path in %s" % fn.disp)
    if not ok_chain:
        bad["enclosing"] = "is not followed"
    report(fn, sorted(bad.items()), "Compiler", None)
    if not ok_cls:
        report(fn, [("privateVariables", "is not marked")], "ClassCompiler", None)


class MarkClient(Client):
    pass


def marker(ctx, T, gobj, gval):
    """grayObject marks and queues every unmarked object; grayValue passes on every reference"""
    mod, K = ctx.mod, ctx.K
    dark = T.off("sObj", "isDark")
    gs, gcnt = T.off("_vm", "grayStack"), T.off("_vm", "grayCount")
    o, vm = mk("p", 1), mk("p", 0)

    class Cl(Client):
        def on_store(self, f, st, i, a, v):
            if a is f.plus(o, dark):
                st.x[("marked",)] = v.op == "c" and v.a[0] & 1 == 1
            b = a.a[0] if a.op == "idx" else a
            if v is o and (b.op == "ld" or b.op in ("s", "out")):
                st.x[("queued",)] = True
            if a is f.plus(vm, gcnt):
                st.x[("counted",)] = v.op == "add" and v.a[1].op == "c" and v.a[1].a[0] == 1
    f = flow.Flow(mod, gobj, K, [Cl()])
    f.run(new_state())
    bad = []
    for st, v, i in f.rets:
        null = f.evalc(st, f.cmp("eq", o, flow.NULL, 64)) is True or f.interval(st, o) == (0, 0)
        d = mk("ld", f.plus(o, dark), 1)
        already = f.evalc(st, f.cmp("eq", f.castt("trunc", d, 8, 1), flow.C(0, 1), 1)) is False and not st.x.get(("marked",))
        iv = f.interval(st, d)
        if not already and iv and iv[0] > 0 and ("marked",) not in st.x:
            already = True
        if null or already:
            continue
        if not st.x.get(("marked",)):
            bad.append(("isDark", "is not set by the marker"))
        if not st.x.get(("queued",)) or not st.x.get(("counted",)):
            bad.append(("grayStack", "does not receive the object"))
    for nm, why in sorted(set(bad)):
        ctx.violation("%s/%s: %s" % (gobj.file, gobj.disp, nm), "%s:%s in %s()" % (gobj.file, gobj.line, gobj.disp),
                      "%s %s on some path for an unmarked object" % (nm, why))

    class Cv(Client):
        def on_call(self, f, st, i, name, args):
            if name == gobj.name:
                t = args[1]
                if t is o or (t.op == "unbox" and t.a[0] is o):
                    st.x[("passed",)] = True
    for b in range(5, K.n):
        f = flow.Flow(mod, gval, K, [Cv()])
        st = new_state()
        st.kinds[o] = 1 << b
        f.run(st)
        for s, v, i in f.rets:
            if not s.x.get(("passed",)):
                ctx.violation("%s/%s: %s" % (gval.file, gval.disp, K.names[b]), "%s:%s in %s()" % (gval.file, gval.line, gval.disp),
                              "a value that refers to an object (%s) is not passed on to the marker" % K.names[b])
                return


def sweep(ctx, T, gc, black):
    """roots before draining, draining before the intern table and the sweep; only unmarked objects are freed;
    survivors lose their mark"""
    mod, K = ctx.mod, ctx.K
    dark, nxt = T.off("sObj", "isDark"), T.off("sObj", "next")
    vm = mk("p", 0)
    strings = mk("+", vm, T.off("_vm", "strings"))
    gcnt = mk("ld", mk("+", vm, T.off("_vm", "grayCount")), 4)
    stat = dict(free=0, black=0)
    bad = {}

    def rep(i, key, msg):
        bad.setdefault(key, (i, msg))

    class Cl(Client):
        def phase(self, f, st):
            return st.x.get(("phase",), "roots")

        def on_call(self, f, st, i, name, args):
            ph = self.phase(f, st)
            if name == black.name:
                stat["black"] += 1
                if ph in ("weak", "sweep"):
                    rep(i, "blacken", "objects are traced after the sweep has begun")
                st.x[("phase",)] = "drain"
            elif name in ("grayObject", "grayValue") or (name and name.startswith("gray")):
                if ph in ("weak", "sweep"):
                    rep(i, "late root", "a root is marked after the sweep has begun")
            elif name == "tableRemoveWhite":
                self.drained(f, st, i)
                if args[1] is strings:
                    if ph == "sweep":
                        rep(i, "weak", "dead strings leave the intern table only after they have been freed")
                    st.x[("phase",)] = "weak"
            elif name == "freeObject":
                stat["free"] += 1
                self.drained(f, st, i)
                if ph not in ("weak", "sweep"):
                    rep(i, "weak", "objects are freed while the intern table still refers to dead strings")
                st.x[("phase",)] = "sweep"
                d = mk("ld", f.plus(args[1], dark), 1)
                iv = f.interval(st, d)
                ok = (iv == (0, 0)) or self.known(f, st, d) is False or ("undark", args[1]) in st.x
                if not ok:
                    rep(i, "free", "an object is freed without having been found unmarked")
                st.x[("handled",)] = True

        def known(self, f, st, d):
            for w in (1, 8):
                v = f.evalc(st, f.cmp("eq", f.castt("trunc", d, 8, 1) if w == 1 else d, flow.C(0, w), w))
                if v is not None:
                    return not v
            return None

        def drained(self, f, st, i):
            ok = False
            for c, v in st.truth.items():
                if c.op == "cmp" and gcnt in (c.a[1], c.a[2]):
                    ok = True
            iv = f.interval(st, gcnt)
            if iv and iv[1] <= 0:
                ok = True
            h = st.mem.get(mk("+", vm, T.off("_vm", "grayCount")))
            if h is not None:
                iv = f.interval(st, h)
                if iv and iv[1] <= 0:
                    ok = True
            if not ok and ("sweepdone",) not in st.x and ("dr",) not in st.x:
                rep(i, "drain", "marking has not finished (the work list need not be empty)")
            st.x[("dr",)] = True

        def on_store(self, f, st, i, a, v):
            if a.op == "+" and a.a[1] == dark and i.x == 1:
                if v.op == "c" and v.a[0] == 0:
                    st.x[("handled",)] = True

        def on_edge(self, f, st, b, t):
            for c in list(st.truth) + list(st.ints):
                for x in f.subs(c):
                    a = x.a[0] if x.op == "ld" and x.a[1] == 1 else x.a[1] if x.op == "h" else None
                    if isinstance(a, flow.Term) and a.op == "+" and a.a[1] == dark:
                        iv = f.interval(st, x)
                        if iv == (0, 0) or self.known(f, st, x) is False:
                            st.x[("undark", a.a[0])] = True
            for h, body in f.headers.items():
                if t == h and b in body:
                    for k in [k for k in st.x if k[0] == "undark"]:
                        del st.x[k]
                if t == h and h in sweeps:
                    if b in body and not st.x.get(("handled",)):
                        rep(f.fn.blocks[b][-1], "survivor", "an object that stays keeps its mark (it would never be traced or freed again)")
                    st.x.pop(("handled",), None)
    f = TraceFlow(mod, gc, K, [Cl()])
    cfg = gc.cfg()
    sweeps = {h for h, body in cfg["loops"].items() if any(i.callee == "freeObject" for b in body for i in gc.blocks[b])}
    f.run(new_state())
    if not sweeps:
        raise RuntimeError("sweep loop not found")
    for k, (i, msg) in sorted(bad.items()):
        ctx.violation("%s/%s: %s" % (gc.file, gc.disp, k), "%s in %s()" % (i.where(), i.wherefn()), msg)
    for st, v, i in f.rets:
        if st.x.get(("phase",)) not in ("weak", "sweep"):
            ctx.violation("%s/%s: weak" % (gc.file, gc.disp), "%s:%s in %s()" % (gc.file, gc.line, gc.disp), "dead strings stay in the intern table on some path")
    # the intern table forgets every unmarked key
    tr = mod.byname("tableRemoveWhite")
    if tr:
        weak_table(ctx, T, tr[0], dark)
    ctx.require(stat["free"], 1, "sweep")
    ctx.require(stat["black"], 1, "drain loop")


def weak_table(ctx, T, fn, dark):
    mod, K = ctx.mod, ctx.K
    tab = mk("p", 1)
    eo, co = T.off("Table", "entries"), T.off("Table", "capacity")
    size = mod.ditypes["Entry"]["size"]
    ko = T.off("Entry", "key")

    class Cl(Trace):
        def on_call(self, f, st, i, name, args):
            if name == "tableDelete":
                self.add(st, args[2])
    c = Cl(T, {})
    f = TraceFlow(mod, fn, K, [c])
    f.run(new_state())
    bad = None
    for st in finals(f):
        ck = Checker(T, f, c)
        # an element need not be deleted when its key is absent or marked
        orig = ck.null

        def null(s, v):
            if orig(s, v):
                return True
            d = mk("ld", f.plus(v, dark), 1)
            iv = f.interval(s, d)
            if iv and iv[0] > 0:
                return True
            return f.evalc(s, f.cmp("eq", f.castt("trunc", d, 8, 1), flow.C(0, 1), 1)) is False
        ck.null = null
        T2 = T.elem
        T.elem = lambda t: (size, [("obj", ko, None, "key")], None)
        try:
            w = ck.array(st, f.plus(tab, eo), "Entry", [(f.plus(tab, co), 0)])
        finally:
            T.elem = T2
        bad = bad or w
    if bad:
        ctx.violation("%s/%s: unmarked keys" % (fn.file, fn.disp), "%s:%s in %s()" % (fn.file, fn.line, fn.disp),
                      "the intern table can keep a dead string: " + bad)
