"""Interprocedural effect summaries and the GC / operand-stack / error-discipline client.

A freshly allocated managed object (anything linked into the collector's sweep list, or found
through a weak table) is *unrooted* until it is on the operand stack or stored into something
reachable from a root.  At every call that may collect, unrooted fresh objects become dead; any
later use of a dead object is a violation.  Functions are summarised bottom-up so the rule is
interprocedural: which parameters must be rooted by the caller, which objects are stored where,
what is returned, the net operand-stack effect, and whether a runtime error was raised."""
from flow import *

NOROOTS = {"objects", "strings", "grayStack"}


class Outcome:
    __slots__ = ("ret", "kind", "fresh", "desc", "err", "pops", "push", "own", "retown", "boolc", "nstack")

    def sig(self):
        return (self.ret, self.kind, self.fresh, self.err, self.pops, self.push, self.own, self.retown, self.nstack)


class Summary:
    def __init__(self, name):
        self.name = name
        self.may_gc = False
        self.needs = {}      # param index -> (where, what)
        self.dies = set()
        self.outcomes = None   # None: no information (plain call)
        self.prov = False

    def sig(self):
        return (self.may_gc, frozenset(self.needs), frozenset(self.dies),
                frozenset(o.sig() for o in self.outcomes) if self.outcomes is not None else None)


class Program:
    """call-graph facts shared by all analyses"""

    def __init__(self, mod, K):
        self.mod, self.K = mod, K
        vm = mod.ditypes.get("_vm") or mod.ditypes.get("DictuVM")
        self.vmoff = {m[0]: m[1] for m in vm["m"]}
        self.vmsize = vm.get("size", 0) if isinstance(vm, dict) else 0
        self.weak = weak_offsets(mod, self)
        self._gc()
        self.summ = {}
        self.axiom = {f.name for f in mod.fns.values() if f.disp in AXIOM_NO_SUMMARY and (f.decl or "src/vm/" in "src/" + f.file or f.file.startswith("vm/"))}
        self.axiom_body = {n for n in self.axiom if mod.fns[n].disp in AXIOM_BODY}
        self.stack = []
        self.reports = {}    # function -> list of (pid,key,inst,msg,flow,state)
        self.aborted = {}
        self.stats = dict(functions=0, allocs=0, gcpoints=0, uses=0, calls=0)

    def _gc(self):
        """functions that may run a collection"""
        direct, calls = set(), {}
        for f in self.mod.fns.values():
            if f.decl:
                continue
            cs = set()
            for i in f.insts():
                if i.op != "call":
                    continue
                if i.callee == "reallocate":
                    n = i.ops[3] if len(i.ops) > 3 else None
                    if not (isinstance(n, tuple) and n[0] == "c" and n[1] == 0):
                        direct.add(f.name)
                elif i.callee == "collectGarbage":
                    direct.add(f.name)
                elif i.callee:
                    cs.add(i.callee)
                elif i.x[0] == "ind" and i.ops and f.name not in ("collectGarbage", "freeObject", "blackenObject", "freeObjects"):
                    # natives are called through pointers and receive the interpreter first
                    o = i.ops[0]
                    if i.ty == "i64" and len(i.ops) == 3:
                        direct.add(f.name)
            calls[f.name] = cs
        direct.discard("reallocate")
        gc = set(direct)
        gc.discard("collectGarbage")
        ch = True
        rev = {}
        for a, cs in calls.items():
            for b in cs:
                rev.setdefault(b, set()).add(a)
        work = list(gc)
        while work:
            b = work.pop()
            for a in rev.get(b, ()):
                if a not in gc and a not in ("reallocate", "collectGarbage", "freeObject", "freeObjects"):
                    gc.add(a)
                    work.append(a)
        gc.add("collectGarbage")
        self.gcfns = gc
        self.calls = calls
        # helpers of the interpreter loop move the program's own operands
        self.run_helpers = set()
        for f in self.mod.fns.values():
            if f.disp == "run" and not f.decl and f.file.endswith("vm.c"):
                self.run_helpers |= calls.get(f.name, set()) | {f.name}
        # functions whose effects matter here: they touch managed objects or the operand stack,
        # or are small enough to be worth describing
        work = [n for n in ("push", "pop", "runtimeError", "reallocate", "collectGarbage", "tableFindString")]
        rel = set(work) | gc
        work = list(rel)
        while work:
            for a in rev.get(work.pop(), ()):
                if a not in rel:
                    rel.add(a)
                    work.append(a)
        self.relevant = rel | {f.name for f in self.mod.fns.values() if not f.decl and sum(len(b) for b in f.blocks) <= 150}

    def paramroot(self, ty):
        """parameters of this type are kept alive by someone else for the whole call"""
        t = ty.rstrip("*").strip()
        if ty == "Value":
            return False
        if not ty.endswith("*") or ty.endswith("**"):
            return True
        if self.K.of_type(t) or self.K.is_obj_type(t):
            return False
        return t not in ("Table", "ValueArray", "Chunk", "Entry", "DictItem", "SetItem")

    def paramroot2(self, ty):
        return not ty.endswith("*") or ty.rstrip("*") in ("_vm", "char")

    def spec(self, name, args):
        """summary of a callee; specialised on constant integer arguments when it can fail"""
        s = self.get(name)
        if s.prov or not s.outcomes or len(s.outcomes) < 2 or not any(o.err for o in s.outcomes):
            return s
        fn = self.mod.fns[name]
        cs = tuple((n, a.a[0], a.a[1]) for n, a in enumerate(args) if a.op == "c" and n < fn.nargs and fn.args[n] in ("i32", "i1", "i8"))
        if not cs or name in self.recur:
            return s
        k = (name, cs)
        if k not in self.summ:
            self.summ[k] = self.analyse(name, cs)
        return self.summ[k]

    def get(self, name):
        s = self.summ.get(name)
        if s is not None:
            return s
        fn = self.mod.fns.get(name)
        s = Summary(name)
        s.may_gc = name in self.gcfns
        if name not in self.relevant:
            self.summ[name] = s
            return s
        if fn is None or fn.decl:
            self.summ[name] = s
            return s
        if name in self.axiom:
            self.summ[name] = s
            return s
        s.prov = True
        self.summ[name] = s
        for rnd in range(4):
            n = self.analyse(name)
            n.prov = True
            same = n.sig() == self.summ[name].sig()
            self.summ[name] = n
            if same or name not in self.recur:
                break
        n.prov = False
        return n

    recur = set()

    def analyse(self, name, consts=()):
        fn = self.mod.fns[name]
        self.stack.append(name)
        s = Summary(name)
        s.may_gc = name in self.gcfns
        c = VMClient(self, fn, "helper", s)
        f = Flow(self.mod, fn, self.K, [c])
        f.weak, f.track_pops, f.maxstack = self.weak, True, 12
        st = new_state()
        for i, ty in enumerate(f.param_types[:fn.nargs]):
            p = mk("p", i)
            k = self.K.of_type(ty) if ty.endswith("*") and not ty.endswith("**") else 0
            if k:
                st.x[("pk", p)] = k
            if not self.paramroot(ty):
                st.fresh[p] = "param"
        for n, v, w in consts:
            v = v - (1 << w) if w > 1 and v >> (w - 1) else v
            st.ints[mk("p", n)] = (v, v)
        if not consts:
            self.reports[name] = c.reports
        try:
            f.run(st)
            s.outcomes = c.outcomes(f)
        except Abort as e:
            self.aborted[name] = str(e)
            s.outcomes = None
        self.stack.pop()
        self.stats["functions"] += 1
        return s


def weak_offsets(mod, prog):
    """fields of the interpreter that the collector does not treat as roots"""
    g = mod.fns.get("collectGarbage")
    if g is None or g.decl:
        raise Abort("collector not found")
    traced = set()
    for i in g.insts():
        if i.op == "getelementptr" and i.x["src"] == "struct._vm":
            traced.add(i.x["off"])
    names = {}
    for n, o in prog.vmoff.items():
        names[o] = n
    r = set()
    for o, n in names.items():
        if o not in traced or n in NOROOTS:
            r.add(o)
    # the running compiler chain is traced through its own function
    r.discard(prog.vmoff.get("compiler", -1))
    return r


AXIOM_NO_SUMMARY = {"run", "callValue", "call", "invoke", "invokeInternal", "invokeFromClass", "callNativeMethod",
                    "callNativeMethodExcludeSelf", "dictuInterpret", "dictuInitVM", "dictuFreeVM", "runtimeError",
                    "push", "pop", "peek", "resetStack", "reallocate", "collectGarbage", "importBuiltinModule"}
# of those, the ones whose bodies are still analysed themselves
AXIOM_BODY = {"callValue", "call", "invoke", "invokeInternal", "invokeFromClass", "callNativeMethod",
              "callNativeMethodExcludeSelf", "dictuInterpret", "dictuInitVM", "importBuiltinModule"}
ERRBOOL = {"callValue", "call", "invoke", "invokeInternal", "invokeFromClass", "callNativeMethod", "callNativeMethodExcludeSelf"}


class VMClient(Client):
    def __init__(self, prog, fn, mode, summary=None):
        self.p, self.fn, self.mode, self.s = prog, fn, mode, summary
        self.reports = []
        self.seen = set()
        self.n_use = self.n_gc = self.n_alloc = self.n_call = self.n_ret = 0

    # -- rooting -------------------------------------------------------
    def end(self, st, o, seen=()):
        """None when o is reachable from a root, else the object its reachability hangs on"""
        if o not in st.fresh:
            return None
        if st.stack is None:
            return None
        for x in st.stack:
            if tbase(x) is o:
                return None
        c = st.own.get(o)
        if c is None or c in seen or c is o:
            return o
        if c.op == "WEAK":
            return o
        return self.end(st, c, seen + (o,))

    def rep(self, f, st, i, pid, msg, key=None):
        k = (pid, key or msg)
        if k in self.seen:
            return
        self.seen.add(k)
        self.reports.append((pid, key or msg, i, msg, f, st))

    def use(self, f, st, i, t, how):
        if not st.dead:
            return
        o = tbase(t)
        d = st.dead.get(o)
        if d is None:
            return
        who, gcsite = d
        src = st.fresh.get(o, "object")
        if who.op == "p" and self.mode == "helper":
            self.s.needs.setdefault(who.a[0], (i.where(), "%s after %s" % (how, gcsite)))
            return
        self.rep(f, st, i, "C01", "%s %s after %s may have collected it" % (src if isinstance(src, str) else "object", how, gcsite))

    def gc_event(self, f, st, i, what, skip=()):
        self.n_gc += 1
        for o in list(st.fresh):
            k = st.fresh[o]
            if k == "raw" or o in st.dead or o in skip:
                continue
            if o.op == "box" or k == "al":
                continue
            e = self.end(st, o)
            if e is None:
                continue
            if st.fresh.get(e) == "raw" and e is not o:
                e = o
            st.dead[o] = (e, what)

    # -- events ----------------------------------------------------------
    def on_load(self, f, st, i, a):
        self.use(f, st, i, a, "read")

    def on_store(self, f, st, i, a, v):
        self.use(f, st, i, a, "written")
        if v.op != "c" and i.x == 8:
            if abase(a).op != "al":
                self.use(f, st, i, v, "stored")
            # linking into the collector's sweep list makes a fresh managed object
        if a.op == "+" and f.vmp is not None and a.a[0] is f.vmp and a.a[1] == self.p.vmoff["objects"]:
            o = tbase(v)
            if o.op == "s" and st.fresh.get(o) in (None, "raw"):
                self.n_alloc += 1
                st.fresh[o] = "new object"
                ty = st.mem.get(o)
                if ty is not None and ty.op == "c":
                    for b, n in f.K.objtype.items():
                        if n == ty.a[0]:
                            st.x[("pk", o)] = 1 << b

    def call_effect(self, f, st, i, name, args, leaf):
        p = self.p
        self.n_call += 1
        for a in args:
            self.use(f, st, i, a, "passed to %s()" % (disp(f.mod, name) or "a function pointer"))
        if name is None:
            tgt = i.x[1] if i.x[0] == "ind" else None
            if i.ty == "i64" and len(args) == 3:
                self.gc_event(f, st, i, "a call through a function pointer")
                # a native called through a pointer: result or error
                st.env[i.id] = leaf
                if st.stack is not None:
                    s2 = st.copy()
                    s2.err, s2.stack, s2.base = "raised", [], 0
                    s2.kinds[leaf] = f.K.bit["empty"]
                    st.kinds[leaf] = f.K.ALL & ~f.K.bit["empty"]
                    return [st, s2]
            return None
        if name == "reallocate":
            z = args[3]
            if not (z.op == "c" and z.a[0] == 0):
                if f.evalc(st, f.cmp("ult", args[2], args[3], 64)) is not False:
                    self.gc_event(f, st, i, "reallocate()")
            if leaf is not None:
                st.env[i.id] = leaf
                o = tbase(args[1])
                st.fresh[leaf] = "raw"
            return [st]
        if name in ("malloc", "calloc", "realloc", "strdup"):
            if leaf is not None:
                st.env[i.id] = leaf
                st.fresh[leaf] = "raw"
            return [st]
        if name == "tableFindString":
            if leaf is not None:
                st.env[i.id] = leaf
                st.fresh[leaf] = "interned string"
                return [st]
        d = disp(f.mod, name)
        if d in ERRBOOL and name in p.axiom:
            self.gc_event(f, st, i, d + "()")
            st.env[i.id] = leaf
            s2 = st.copy()
            f.assume(st, leaf, True)
            st.stack = None
            s2.err, s2.stack, s2.base = "raised", [], 0
            f.assume(s2, leaf, False)
            return [st, s2]
        g = f.mod.fns.get(name)
        if g is None or g.decl:
            return None
        s = p.spec(name, args)
        if s.prov:
            Program.recur.add(name)
        return self.apply(f, st, i, name, d, s, args, leaf)

    def apply(self, f, st, i, name, d, s, args, leaf):
        # parameters that must be rooted
        for n, (where, what) in s.needs.items():
            if n >= len(args):
                continue
            b = tbase(args[n])
            if b in st.fresh and b not in st.dead:
                e = self.end(st, b)
                if e is not None and st.fresh.get(b) not in ("raw", "al"):
                    if e.op == "p" and self.mode == "helper":
                        self.s.needs.setdefault(e.a[0], (i.where(), "passed to %s() which may collect while using it (%s)" % (d, what)))
                    else:
                        self.rep(f, st, i, "C01", "%s passed unrooted to %s(), which may collect while still using it (%s at %s)" % (st.fresh[b], d, what, where),
                                 "%s passed unrooted to %s()" % (st.fresh[b], d))
        if s.outcomes is None:
            if s.may_gc:
                self.gc_event(f, st, i, d + "()")
            if leaf is not None:
                st.env[i.id] = leaf
            return [st]
        res = []
        outs = s.outcomes
        for k, o in enumerate(outs):
            ns = st.copy() if k < len(outs) - 1 else st
            # ownership effects first: whatever was stored is kept alive by its new owner
            for (src, dst) in o.own:
                b = tbase(args[src]) if src < len(args) else None
                if b is not None and b in ns.fresh and ns.fresh[b] not in ("al",):
                    if dst == "W":
                        continue
                    if dst == "ret":
                        if leaf is not None and leaf is not b:
                            ns.own[b] = leaf
                        continue
                    if dst == "R":
                        ns.own[b] = mk("ROOT")
                        continue
                    t = tbase(args[dst])
                    if self.weakaddr(f, args[dst]):
                        continue
                    if t is not b:
                        ns.own[b] = t
            if s.may_gc:
                self.gc_event(f, ns, i, d + "()")
            if not self.bind(f, ns, i, o, args, leaf, d):
                continue
            res.append(ns)
        return res

    def weakaddr(self, f, a):
        return f.vmp is not None and a.op == "+" and a.a[0] is f.vmp and a.a[1] in self.p.weak

    def bind(self, f, st, i, o, args, leaf, d):
        K = f.K
        fnm = f.mod.fns[i.callee]
        slots = {}
        if st.stack is not None and (o.pops or o.ret[0] == "st"):
            for k in range(1, max(o.pops, -o.ret[1] if o.ret[0] == "st" else 0) + 1):
                slots[-k] = f.slot(st, f.height(st) - k)

        def tr(x):
            if x[0] == "p":
                return args[x[1]]
            if x[0] == "bp":
                return mk("box", args[x[1]])
            if x[0] == "c":
                return mk("c", x[1], x[2])
            if x[0] == "ret":
                return leaf
            if x[0] == "st":
                return slots.get(x[1]) or mk("u")
            return mk("u")
        # result
        if leaf is not None:
            r = o.ret
            if r[0] in ("p", "bp", "c") or (r[0] == "st" and slots.get(r[1]) is not None):
                v = tr(r)
                st.env[i.id] = v
            else:
                st.env[i.id] = leaf
                if r[0] == "rp":      # value obtained from the caller's own operands
                    pass
                if o.kind is not None:
                    if fnm.ret == "i64":
                        st.kinds[leaf] = o.kind
                    else:
                        st.kinds[mk("box", leaf)] = o.kind
                if r[0] == "dp":
                    b = tbase(args[r[1]])
                    if b in st.fresh or self.weakaddr(f, args[r[1]]) or (b.op == "p" and self.mode == "helper"):
                        st.fresh[leaf] = "raw"
                        st.own[leaf] = mk("WEAK") if self.weakaddr(f, args[r[1]]) else b
                if r[0] == "nn" or (r[0] == "dp" and r[2]):
                    f.assume(st, f.cmp("eq", leaf, NULL, 64), False)
                if o.fresh:
                    st.fresh[leaf] = "result of %s()" % d
                    for w in o.retown:
                        if w == "R":
                            st.own[leaf] = mk("ROOT")
                        elif w != "W":
                            if self.weakaddr(f, args[w]):
                                continue
                            t = tbase(args[w])
                            if t is not leaf:
                                st.own[leaf] = t
        # operand stack
        if o.err:
            st.err = "raised"
            st.stack = []
            st.base = 0
        if o.nstack:
            st.stack = None
        elif st.stack is not None:
            for _ in range(o.pops):
                if st.stack:
                    f.popped(st, st.stack.pop())
                else:
                    for c in f.clients:
                        c.on_underflow(f, st, i, -1)
                    st.base += 1
                    f.popped(st, mk("st", -st.base))
            for x in o.push:
                if x[0] == "fresh":
                    t = mk("pushed", i.id, i.blk * 10007 + i.idx, len(st.stack))
                    st.stack.append(t)
                else:
                    st.stack.append(tr(x))
        return True

    # -- function exit ------------------------------------------------------
    def on_ret(self, f, st, i, v):
        self.n_ret += 1
        if v is not None:
            self.use(f, st, i, v, "returned")
        if self.mode == "native":
            self.native_ret(f, st, i, v)

    def native_ret(self, f, st, i, v):
        K = f.K
        if v is None:
            return
        m = f.kindmask(st, v)
        E = K.bit["empty"]
        if st.err:
            if m & ~E:
                self.rep(f, st, i, "C09", "returns a value (%s) after a runtime error was raised" % ("unknown" if m == K.ALL else K.str(m & ~E)))
            if st.base or st.stack:
                self.rep(f, st, i, "C10", "operand stack not empty (%+d) after a runtime error reset it" % ((len(st.stack or [])) - st.base))
        else:
            if m == E or (m & E and m != K.ALL and v.op != "ld"):
                self.rep(f, st, i, "C09", "returns the error marker without raising a runtime error")
            if st.stack is not None:
                n = len(st.stack) - st.base
                if st.stack or st.base:
                    self.rep(f, st, i, "C10", "operand stack differs by %+d on return (%d own, %d of the caller's popped)" % (n, len(st.stack), st.base))

    def on_underflow(self, f, st, i, h):
        if self.mode == "native":
            if st.err:
                self.rep(f, st, i, "C10", "pops the operand stack after a runtime error reset it")
            else:
                self.rep(f, st, i, "C10", "pops more operands than it pushed")

    def on_loop(self, f, st, i, h):
        """an iteration that changes the depth of the operand stack"""
        if self.mode != "native" and (f.fn.name in self.p.run_helpers or f.fn.name in self.p.axiom):
            return False
        self.rep(f, st, i, "C10", "operand stack depth changes from one iteration of a loop to the next")
        return True

    # -- summary construction --------------------------------------------------
    def outcomes(self, f):
        res = {}
        K = f.K
        fn = f.fn
        derived = None
        if fn.ret == "ptr":
            src = set()
            for b in fn.blocks:
                if b[-1].op == "ret":
                    self.sources(fn, b[-1].ops[0], src, set())
            if len(src) == 1:
                derived = src.pop()
                if derived is None or self.p.paramroot2(f.param_types[derived]):
                    derived = None
        for st, v, i in f.rets:
            o = Outcome()
            o.err = bool(st.err)
            o.nstack = st.stack is None
            o.pops = st.base
            o.fresh = False
            o.kind = None
            o.desc = None
            ret = ("v",)
            retown = set()
            if v is not None:
                b = tbase(v)
                if v.op == "p":
                    ret = ("p", v.a[0])
                elif v.op == "st":
                    ret = ("st", v.a[0])
                elif v.op == "box" and v.a[0].op == "p":
                    ret = ("bp", v.a[0].a[0])
                elif v.op == "c":
                    ret = ("c", v.a[0], v.a[1])
                else:
                    t = f.evalc(st, v) if fn.ret == "i1" else None
                    if t is not None:
                        ret = ("c", int(t), 1)
                    elif fn.ret == "ptr":
                        if b in st.fresh or f.evalc(st, f.cmp("eq", v, NULL, 64)) is False:
                            ret = ("nn",)
                        k = f.ptrkind(st, v)
                        o.kind = None if k == K.OBJ else k
                    elif fn.ret == "i64":
                        o.kind = f.kindmask(st, v)
                        if o.kind == K.bit["empty"]:
                            ret = ("c", QNAN | 4, 64)
                if ret[0] in ("v", "nn") and fn.ret == "ptr" and derived is not None:
                    ret = ("dp", derived, ret[0] == "nn")
                if ret[0] in ("v", "nn") and fn.ret == "ptr" and b.op == "p" and not self.p.paramroot2(f.param_types[b.a[0]]):
                    ret = ("dp", b.a[0], ret[0] == "nn")
                if ret[0] in ("v", "nn") and b in st.fresh and st.fresh[b] not in ("raw", "al", "param") and b.op != "p":
                    o.fresh = True
                    e = st.own.get(b)
                    if any(tbase(x) is b for x in (st.stack or [])):
                        pass
                    elif e is not None:
                        retown |= self.ownend(f, st, e)
            o.ret = ret
            o.retown = tuple(sorted(retown, key=str))
            push = []
            for x in st.stack or []:
                if x.op == "p":
                    push.append(("p", x.a[0]))
                elif x.op == "st":
                    push.append(("st", x.a[0]))
                elif x.op == "box" and x.a[0].op == "p":
                    push.append(("bp", x.a[0].a[0]))
                elif v is not None and tbase(x) is tbase(v) and ret[0] in ("v", "nn"):
                    push.append(("ret",))
                else:
                    push.append(("fresh",))
            o.push = tuple(push)
            own = set()
            for n in range(fn.nargs):
                p = mk("p", n)
                c = st.own.get(p)
                if p in st.fresh and c is not None:
                    for e in self.ownend(f, st, c, 0, tbase(v) if v is not None and o.fresh else None):
                        own.add((n, e))
            o.own = tuple(sorted(own, key=str))
            k = (o.ret, o.fresh, o.err, o.pops, o.push, o.own, o.retown, o.nstack)
            q = res.get(k)
            if q is None:
                res[k] = o
            elif q.kind is not None:
                q.kind = None if o.kind is None else q.kind | o.kind
        if len(res) > 12:
            # keep the distinctions that matter: error flag and constant results
            r2 = {}
            for o in res.values():
                k = (o.err, o.ret if o.ret[0] == "c" else ("v",), o.pops, len(o.push), o.nstack, o.fresh)
                q = r2.get(k)
                if q is None:
                    r2[k] = o
                else:
                    if o.kind is None or q.kind is None:
                        q.kind = None
                    else:
                        q.kind |= o.kind
                    q.own = tuple(sorted(set(q.own) & set(o.own), key=str))
                    q.retown = tuple(sorted(set(q.retown) & set(o.retown), key=str))
                    if q.ret != o.ret:
                        q.ret = ("v",)
            res = r2
        return list(res.values())

    def sources(self, fn, o, out, seen):
        """parameters an interior pointer can be derived from (None: anything else)"""
        if isinstance(o, tuple):
            if o[0] != "n":
                out.add(None)
            return
        if o in seen:
            return
        seen.add(o)
        if o < fn.nargs:
            out.add(o)
            return
        d = fn.defs[o]
        if d.op == "getelementptr" or d.op == "bitcast":
            self.sources(fn, d.ops[0], out, seen)
        elif d.op == "phi":
            for x in d.ops:
                self.sources(fn, x, out, seen)
        elif d.op == "select":
            self.sources(fn, d.ops[1], out, seen)
            self.sources(fn, d.ops[2], out, seen)
        else:
            out.add(None)

    def ownend(self, f, st, c, n=0, ret=None):
        """owners of an object expressed over the parameters: parameter index, 'R' (a root) or nothing"""
        if c is ret:
            return {"ret"}
        if c.op == "WEAK":
            return set()
        if c.op == "p":
            if f.vmp is c:
                return {"R"}
            return {c.a[0]}
        if c.op == "ROOT":
            return {"R"}
        if c not in st.fresh:
            return {"R"}
        d = st.own.get(c)
        if d is None or n > 8:
            return set()
        return self.ownend(f, st, d, n + 1, ret)


def disp(mod, name):
    if name is None:
        return None
    f = mod.fns.get(name)
    return f.disp if f else name
