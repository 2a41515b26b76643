"""A failed system or library call is never reported as success: on every path of every built-in function, when a call that can fail
has failed (or was never looked at), the result is an error Result or a raised error (or the function's own mark of failure)."""
import frontend, ir

QNAN = 0x7ffc000000000000
NIL, FALSE, TRUE, EMPTY = QNAN | 1, QNAN | 2, QNAN | 3, QNAN | 4

# how a call shows failure: sample results -> failed?
NEG = {-1: True, 0: False, 1: False, 1000: False}              # a negative number
ERR = {-1: True, 0: False}                                     # zero is the only success
CODE = {0: False, 1: True, 7: True, 100: True}                 # an error code, zero for success
PTR = {0: True, 1 << 32: False}                                # a null pointer
TRI = {1: False, 0: True}                                     # the address family is a constant
ADDR = {0xffffffff: True, 0: False, 0x0100007f: False}
FALLIBLE = {}
for names, kind in (
        ("access bind chdir chmod chown connect listen mkdir rename rmdir unlink remove stat lstat fstat pipe kill setsockopt setenv unsetenv "
         "uname ioctl dup2 getentropy fseek ftruncate link symlink utimes getsockname getpeername putenv system", ERR),
        ("accept socket open creat fork recv write send read sendfile waitpid lseek ftell", NEG),
        ("fopen opendir getcwd mkdtemp realpath inet_ntop gmtime_r localtime_r localtime gmtime strptime dlopen dlsym popen tmpfile fdopen", PTR),
        ("curl_easy_perform sqlite3_open sqlite3_open_v2 sqlite3_prepare_v2 sqlite3_exec", CODE),
        ("inet_pton", TRI), ("inet_addr", ADDR)):
    for n in names.split():
        FALLIBLE[n] = kind
FALLIBLE["sqlite3_step"] = {101: False, 100: False, 1: True, 5: True, 19: True}
CODES = {n for n, k in FALLIBLE.items() if k is CODE} | {"sqlite3_step"}
KEEP = {"newResultError", "newResultSuccess", "newResult", "runtimeError"}
LIMIT = 20000

# failures that have no meaning for the script: place -> why
ELSEWHERE = {
    "optionals/term.c/getSizeNative: ioctl": "without a terminal the sizes are zeros (as the tests have it)",
    "optionals/socket.c/bindSocket: inet_addr": "tested, but its failure is also the value of the broadcast address",
    "optionals/socket.c/connectSocket: inet_addr": "tested, but its failure is also the value of the broadcast address",
}


class St:
    __slots__ = ("sites", "env", "mem")

    def __init__(self, sites=(), env=(), mem=()):
        self.sites, self.env, self.mem = dict(sites), dict(env), dict(mem)

    def key(self):
        return tuple(sorted(self.sites.items())), tuple(sorted(self.env.items())), tuple(sorted(self.mem.items(), key=str))

    def copy(self):
        return St(self.sites, self.env, self.mem)


def wbits(ty):
    return int(ty[1:]) if ty[:1] == "i" and ty[1:].isdigit() else 64


class Fun:
    def __init__(self, mod, f, rep):
        self.mod, self.f, self.rep = mod, f, rep
        self.kinds = {i.id: FALLIBLE[i.callee] for i in f.insts() if i.op == "call" and i.callee in FALLIBLE and i.ty != "void" and not self.now(i)}
        self.calls = {i.id: i for i in f.insts() if i.id in self.kinds}
        codes = {c for i in f.insts() for c in self.compared(i)}
        for k, d in self.kinds.items():         # error codes the function tells apart
            if self.calls[k].callee in CODES:
                self.kinds[k] = {**{c: True for v in codes for c in (v - 1, v, v + 1) if 0 < c < 128}, **d}
        self.dep = {}
        self.returns = 0
        self.results = any(i.op == "call" and i.callee in ("newResultSuccess", "newResultError") for i in f.insts())
        self.forms = set()

    def compared(self, i):
        if i.op == "icmp":
            return [o[1] for o in i.ops if isinstance(o, tuple) and o[0] == "c" and o[2] == 32 and 0 <= o[1] < 128]
        if i.op == "switch":
            return [c[0] for c in i.x[1:] if 0 <= c[0] < 128]
        return []

    def now(self, i):
        """the conversion of the current time, which is in range"""
        if i.callee not in ("gmtime_r", "localtime_r", "localtime", "gmtime"):
            return False
        a = i.ops[0]
        w = [u for u in self.f.insts() if u.op == "store" and u.ops[1] == a]
        t = lambda o: isinstance(o, int) and o in self.f.defs and self.f.defs[o].op == "call" and self.f.defs[o].callee == "time"
        filled = any(u.op == "call" and u.callee == "time" and u.ops[0] == a for u in self.f.insts())
        return all(t(u.ops[0]) for u in w) and (bool(w) or filled)

    # ---- expressions over one call's result
    def deps(self, o, st, d=0):
        """calls a value depends on in this state, or None when there is something else in it"""
        if not isinstance(o, int):
            return frozenset() if o[0] in ("c", "n", "g", "f") else None
        if o in self.kinds:
            return frozenset((o,))
        if d > 12:
            return None
        i = self.f.defs.get(o)
        if i is None:
            return None
        if i.op == "phi":
            e = st.env.get(o)
            return None if e is None else self.deps(e, st, d + 1)
        if i.op == "load":
            e = st.env.get(o)
            return None if e is None else self.deps(e, st, d + 1)
        if i.op in ("icmp", "xor", "and", "or", "zext", "sext", "trunc", "add", "sub", "select", "ptrtoint", "inttoptr", "freeze", "bitcast"):
            r = frozenset()
            for x in i.ops:
                y = self.deps(x, st, d + 1)
                if y is None:
                    return None
                r |= y
            return r
        return None

    def ev(self, o, st, site, val):
        if not isinstance(o, int):
            return {"n": 0, "g": 1 << 20, "f": 1 << 20}.get(o[0]) if o[0] != "c" else o[1]
        if o == site:
            return val & ((1 << wbits(self.calls[site].ty)) - 1)
        i = self.f.defs[o]
        if i.op in ("phi", "load"):
            return self.ev(st.env[o], st, site, val)
        return self.op(i, [self.ev(x, st, site, val) for x in i.ops])

    def op(self, i, a):
        w = wbits(i.ty)
        m = (1 << w) - 1
        if i.op == "icmp":
            n = max([wbits(self.f.defs[x].ty) if isinstance(x, int) else (x[2] if x[0] == "c" else 64) for x in i.ops])
            p = i.x
            s = [(v - (1 << n) if v >> (n - 1) & 1 else v) if p[0] == "s" else v for v in a]
            return int({"eq": s[0] == s[1], "ne": s[0] != s[1], "gt": s[0] > s[1], "ge": s[0] >= s[1], "lt": s[0] < s[1], "le": s[0] <= s[1]}[p if p in ("eq", "ne") else p[1:]])
        if i.op == "sext":
            n = wbits(self.f.defs[i.ops[0]].ty) if isinstance(i.ops[0], int) else i.ops[0][2]
            return (a[0] - (1 << n) if a[0] >> (n - 1) & 1 else a[0]) & m
        if i.op in ("zext", "ptrtoint", "inttoptr", "freeze", "bitcast"):
            return a[0]
        if i.op == "trunc":
            return a[0] & m
        if i.op == "select":
            return a[1] if a[0] & 1 else a[2]
        return {"xor": a[0] ^ a[1], "and": a[0] & a[1], "or": a[0] | a[1], "add": a[0] + a[1], "sub": a[0] - a[1]}[i.op] & m

    OPS = ("icmp", "xor", "and", "or", "zext", "sext", "trunc", "add", "sub", "select", "ptrtoint", "inttoptr", "freeze", "bitcast")

    def near(self, o, st, d=0):
        """calls whose results have a part in a value"""
        if not isinstance(o, int):
            return frozenset()
        if o in self.kinds:
            return frozenset((o,))
        i = self.f.defs.get(o)
        if i is None or d > 12:
            return frozenset()
        if i.op in ("phi", "load"):
            e = st.env.get(o)
            return frozenset() if e is None else self.near(e, st, d + 1)
        if i.op in self.OPS:
            return frozenset().union(*[self.near(x, st, d + 1) for x in i.ops])
        return frozenset()

    def pe(self, o, st, site, val, d=0):
        """the value when the call gives val; None when more is needed to know"""
        if not isinstance(o, int):
            return o[1] if o[0] == "c" else {"n": 0, "g": 1 << 20, "f": 1 << 20}.get(o[0])
        if o == site:
            return val & ((1 << wbits(self.calls[site].ty)) - 1)
        i = self.f.defs.get(o)
        if i is None or d > 12:
            return None
        if i.op in ("phi", "load"):
            e = st.env.get(o)
            return None if e is None else self.pe(e, st, site, val, d + 1)
        if i.op not in self.OPS:
            return None
        a = [self.pe(x, st, site, val, d + 1) for x in i.ops]
        if i.op == "select" and a[0] is not None:
            return a[1] if a[0] & 1 else a[2]
        if i.op == "select" and a[1] == a[2]:
            return a[1]
        if i.op == "and" and 0 in a:
            return 0
        if i.op == "or" and i.ty == "i1" and 1 in a:
            return 1
        if None in a:
            return None
        return self.op(i, a)

    # ---- walking
    def run(self):
        f = self.f
        self.relevant = self.slice()
        self.allocas = {i.id for i in f.insts() if i.op == "alloca"}
        self.escaped = self.escapes()
        seen, work = {}, [(0, St())]
        n = 0
        while work:
            b, st = work.pop()
            k = st.key()
            s = seen.setdefault(b, set())
            if k in s:
                continue
            s.add(k)
            n += 1
            if n > LIMIT:
                raise RuntimeError("too many paths in %s" % f.disp)
            for t, x in self.block(b, st):
                work.append((t, x))
        return n

    def slice(self):
        """phis that may carry the result of one of the calls, or a constant, a Result or a test of one, to where it matters"""
        phis = {i.id: i for i in self.f.insts() if i.op == "phi"}
        use, work = set(), []
        for i in self.f.insts():
            if i.op == "ret" or i.op == "br" and len(i.x) == 2 or i.op == "switch":
                work += [o for o in i.ops if isinstance(o, int)]
        while work:
            o = work.pop()
            i = self.f.defs.get(o)
            if o in use or i is None or i.op in ("call", "load"):
                continue
            use.add(o)
            work += [x for x in i.ops if isinstance(x, int)]

        def carries(o, seen):
            i = self.f.defs.get(o) if isinstance(o, int) else None
            if i is None or o in seen:
                return False
            seen.add(o)
            if o in self.kinds or self.marker(o) or i.op == "load" and i.ty in ("i32", "ptr", "i64") and self.cell(i.ops[0]) is not None and self.stored(i):
                return True
            return i.op != "call" and i.op != "load" and any(carries(x, seen) for x in i.ops)
        rets, work = set(), [o for i in self.f.insts() if i.op == "ret" for o in i.ops if isinstance(o, int)]
        while work:
            o = work.pop()
            if o in phis and o not in rets:
                rets.add(o)
                work += [x for x in phis[o].ops if isinstance(x, int)]
        self.rets = rets

        def flag(i, seen=()):
            return i.ty == "i1" or all(isinstance(x, tuple) or carries(x, set()) or x in phis and (x == i.id or x in seen or flag(phis[x], seen + (i.id,))) for x in i.ops)
        return {o for o, i in phis.items() if o in rets or o in use and (carries(o, set()) or flag(i))}

    def stored(self, l):
        return any(i.op == "store" and isinstance(i.ops[0], int) and i.ops[0] in self.kinds for i in self.f.insts())

    def escapes(self):
        out = set()
        for i in self.f.insts():
            for k, o in enumerate(i.ops):
                if o in self.allocas if isinstance(o, int) else False:
                    if not (i.op == "load" or i.op == "store" and k == 1 or i.op == "getelementptr"):
                        out.add(o)
        return out

    def cell(self, o):
        off = 0
        for _ in range(6):
            i = self.f.defs.get(o) if isinstance(o, int) else None
            if i is None or i.op != "getelementptr":
                break
            if i.x["v"]:
                return None
            off += i.x["off"]
            o = i.ops[0]
        if isinstance(o, int):
            i = self.f.defs.get(o)
            if i is not None and i.op == "load":
                b = self.cell(i.ops[0])
                return ("ld", b, off) if b is not None else (o, off)
        return (o, off)

    def local(self, c):
        return c is not None and c[0] in self.allocas and c[0] not in self.escaped

    def block(self, b, st):
        st = st.copy()
        for i in self.f.blocks[b]:
            if i.op == "phi":
                continue
            if i.op == "load":
                c = self.cell(i.ops[0])
                v = st.mem.get(c) if c is not None else None
                if v is not None:
                    st.env[i.id] = v
                else:
                    st.env.pop(i.id, None)
            elif i.op == "store":
                c = self.cell(i.ops[1])
                if not self.local(c):
                    for k in [k for k in st.mem if not self.local(k)]:
                        del st.mem[k]
                v = i.ops[0]
                d = self.deps(v, st)
                if c is not None:
                    st.mem.pop(c, None)
                    if d:
                        st.mem[c] = self.settle(v, st)
            elif i.op == "call":
                if i.id in self.kinds:
                    for e in [k for k, v in st.env.items() if self.refers(v, i.id)]:
                        del st.env[e]
                    for e in [k for k, v in st.mem.items() if self.refers(v, i.id)]:
                        del st.mem[e]
                    st.sites[i.id] = frozenset(self.kinds[i.id])
                if not (i.callee or "").startswith("llvm.") and i.callee not in FALLIBLE:
                    for k in [k for k in st.mem if not self.local(k)]:
                        del st.mem[k]
            elif i.op == "ret":
                self.ret(i, st)
                return
            elif i.op == "unreachable":
                return
        t = self.f.blocks[b][-1]
        if t.op == "br" and len(t.x) == 2 and t.x[0] != t.x[1]:
            d = self.deps(t.ops[0], st)
            reason = d is None and self.errno(t.ops[0])
            for truth, s in ((1, t.x[0]), (0, t.x[1])):
                x = st.copy()
                if reason:      # the reason of the failure decides
                    for k in [k for k, v in x.sites.items() if all(self.kinds[k][z] for z in v)]:
                        del x.sites[k]
                if not self.take(t.ops[0], st, x, truth):
                    continue
                yield s, self.enter(b, s, x)
            return
        if t.op == "switch":
            d = self.deps(t.ops[0], st)
            site = next(iter(d)) if d is not None and len(d) == 1 else None
            if site in st.sites:
                vals = {v: self.ev(t.ops[0], st, site, v) for v in st.sites[site]}
                byc = {}
                for v, e in vals.items():
                    tgt = next((c[1] for c in t.x[1:] if c[0] == e), t.x[0])
                    byc.setdefault(tgt, set()).add(v)
                for s, vs in byc.items():
                    x = st.copy()
                    x.sites[site] = frozenset(vs)
                    yield s, self.enter(b, s, x)
                return
        for s in dict.fromkeys(self.f.succs(b)):
            yield s, self.enter(b, s, st.copy())

    def take(self, o, st, x, truth):
        """what is left possible in x when the condition is as given; False when nothing is"""
        r = self.pe(o, st, None, 0)
        if r is not None:
            return r & 1 == truth
        for site in self.near(o, st):
            if site in x.sites:
                keep = frozenset(v for v in x.sites[site] if self.pe(o, st, site, v) in (None, truth))
                if not keep:
                    return False
                x.sites[site] = keep
        return True

    def errno(self, o, d=0):
        i = self.f.defs.get(o) if isinstance(o, int) else None
        if i is None or d > 6:
            return False
        if i.op == "load":
            p = self.f.defs.get(i.ops[0]) if isinstance(i.ops[0], int) else None
            return p is not None and p.op == "call" and p.callee == "__errno_location"
        return i.op in ("icmp", "zext", "sext", "xor", "and", "or", "phi") and any(self.errno(x, d + 1) for x in i.ops)

    def refers(self, v, site, d=0):
        if v == site:
            return True
        i = self.f.defs.get(v) if isinstance(v, int) else None
        return i is not None and d < 6 and i.op != "phi" and any(self.refers(x, site, d + 1) for x in i.ops if isinstance(x, int))

    def settle(self, v, st):
        for _ in range(8):
            i = self.f.defs.get(v) if isinstance(v, int) else None
            if i is None or i.op not in ("phi", "load") or v not in st.env:
                return v
            v = st.env[v]
        return v

    def enter(self, b, s, st):
        """choose the values of the phis of s for the edge from b; forget what is not needed"""
        new = {}
        for i in self.f.blocks[s]:
            if i.op != "phi":
                break
            if i.id not in self.relevant:
                continue
            v = self.settle(i.ops[i.x.index(b)], st)
            if isinstance(v, int):
                if i.id not in self.rets and self.deps(v, st) is None and not self.marker(v):
                    v = None
            elif v[0] not in ("c", "n", "g", "f"):
                v = None
            new[i.id] = v
        for k, v in new.items():
            if v is None:
                st.env.pop(k, None)
            else:
                st.env[k] = v
        live = self.f.liveness()[s] | set(new)
        work = [v for k, v in st.env.items() if k in live] + list(st.mem.values())
        while work:                     # and what their values are computed from
            v = work.pop()
            i = self.f.defs.get(v) if isinstance(v, int) else None
            if i is None or i.op == "call":
                continue
            if v in st.env:
                if v not in live:
                    live.add(v)
                    work.append(st.env[v])
            elif i.op in self.OPS:
                work += i.ops
        for k in [k for k in st.env if k not in live]:
            del st.env[k]
        return st

    def marker(self, v):
        i = self.f.defs.get(v)
        return i is not None and i.op == "call" and i.callee in KEEP

    def named(self, v):
        return {EMPTY: "raised", NIL: "nil", FALSE: "false"}.get(v, "value")

    def outcome(self, o, st, site=None, val=0):
        o = self.settle(o, st)
        v = self.pe(o, st, site, val)
        if v is not None:
            return self.named(v)
        i = self.f.defs.get(o) if isinstance(o, int) else None
        if i is not None and i.op == "select":
            c = self.pe(i.ops[0], st, site, val)
            if c is not None:
                return self.outcome(i.ops[1 if c & 1 else 2], st, site, val)
            x, y = self.outcome(i.ops[1], st, site, val), self.outcome(i.ops[2], st, site, val)
            return x if x == y else "value"
        if i is not None and i.op == "call":
            if i.callee == "newResultError":
                return "error"
            if i.callee == "newResultSuccess":
                return "success"
            if i.callee == "newResult":
                return "error" if i.ops[1][:2] == ("c", 0) else "success"
        return "value"

    def ret(self, i, st):
        if not i.ops:
            return
        self.returns += 1
        self.forms.add(self.outcome(i.ops[0], st))
        for s, vals in st.sites.items():
            k = self.kinds[s]
            for v in vals:
                o = self.outcome(i.ops[0], st, s, v)
                self.forms.add(o)
                if k[v] and o not in ("raised", "error"):
                    self.rep(self, s, o, all(k[v] for v in vals))


def run(ctx):
    mod = ir.Module(frontend.load(KEEP))
    natives = sites = paths = returns = 0
    calls, left = set(), {}
    for f in mod.fns.values():
        if f.decl or not f.taken or f.nargs != 3 or f.ret != "i64":
            continue
        if not any(i.op == "call" and i.callee in FALLIBLE for i in f.insts()):
            continue
        bad = {}

        def rep(a, s, o, failed):
            bad[s, o] = bad.get((s, o), True) and failed
        a = Fun(mod, f, rep)
        paths += a.run()
        natives += 1
        sites += len(a.kinds)
        returns += a.returns
        calls |= {(i.loc[0][2] if i.loc else f.disp, i.callee) for i in a.calls.values()}
        marks = "value" in a.forms or "success" in a.forms          # then nil and false can say that it did not work
        for (s, o), failed in sorted(bad.items()):
            i = a.calls[s]
            if o in ("nil", "false") and marks and "success" not in a.forms:
                continue
            w = i.loc[0][2] if i.loc else f.disp
            key = "%s/%s: %s" % (i.loc[0][0] if i.loc else f.file, w, i.callee)
            if key in ELSEWHERE:
                left[key] = ELSEWHERE[key]
                continue
            ctx.violation(key, i.where(), "%s: when %s() fails, the result of the built-in function can be %s%s" % (
                f.disp, i.callee, {"success": "a success Result", "nil": "nil, as when it works", "false": "false"}.get(o, "an ordinary value"), "" if failed else " (its result is not tested)"))
    ctx.cov.update(natives=natives, calls=sites, places=len(calls), returns=returns, path_states=paths, kinds_of_calls=len({c for _, c in calls}))
    ctx.cov["obligations"] = returns
    ctx.cov["decided_elsewhere"] = ["%s: %s" % x for x in sorted(left.items())]
    ctx.cov["rule"] = "no path on which the call failed, or may have, ends in a result that means success"
    ctx.require(natives, 30, "built-in functions that make calls that can fail")
    ctx.require(sites, 50, "calls that can fail")
