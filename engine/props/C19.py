"""Scanning a source text: (1) the read position moves forward only over characters that are known not to be the terminator on the
path, and every look-ahead stays at or before the terminator; (2) every loop iteration consumes a character (or counts towards a
fixed bound), and every token consumes a character, except the end token, which is produced at the terminator only; (3) the text of a
token is what was consumed for it, and every newline passed over is counted as a line exactly once.  (4) Outside the scanner the read position is only set to the start or the end of a token."""
import flow, frontend, ir, lin
from flow import mk, show, new_state, Client, C
from gctrace import Types
import dityp, nativerun


def consts(f, st, args, special):
    """what is known of the integers among the arguments: a callee is analysed once for each combination"""
    r = []
    for a in args:
        if a.op == "c":
            r.append(a.a)
        elif a.op in ("s", "p", "zext", "sext"):
            r.append(("not",) + tuple(e for e in special if f.evalc(st, f.cmp("eq", a, C(e, 32), 32)) is False) if a.op != "p" or f.evalc(st, f.cmp("eq", a, C(special[0], 32), 32)) is False else None)
        else:
            r.append(None)
    return tuple(r)


class Scan(Client):
    def __init__(self, scanner, offs, ctx, retp, tokoff, eof):
        self.s, self.offs, self.ctx, self.retp, self.tokoff, self.eof = scanner, offs, ctx, retp, tokoff, eof
        self.cur = None
        self.n = dict(moves=0, reads=0, loops=set(), returns=0, lines=0)
        self.bad = {}
        self.loops = {}

    def rep(self, f, st, i, key, msg):
        self.bad.setdefault(key, (i, msg, nativerun.path_lines(st, f)))

    def nonzero(self, f, st, a):
        v = st.mem.get(a) or mk("ld", a, 1)
        if f.evalc(st, f.cmp("eq", v, C(0, 8), 8)) is False:
            return True
        for t in [v] + [mk(op, v, 8, w) for op in ("sext", "zext") for w in (32, 64)]:
            iv = st.ints.get(t)
            if iv and (iv[0] > 0 or iv[1] < 0):
                return True
        return False

    def text(self, f, st, a):
        """(base, offset) when the address lies in the source text"""
        b, off = (a.a[0], a.a[1]) if a.op == "+" else (a, 0)
        x = b
        if x.op == "idx":
            x = x.a[0]
        if x.op == "out" and x.a[1] in ("current", "start"):
            return b, off
        if x.op in ("ld", "h"):
            ad = x.a[0] if x.op == "ld" else x.a[1]
            if ad is f.plus(self.s, self.offs["current"]) or ad is f.plus(self.s, self.offs["start"]):
                return b, off
        return None

    def position(self, f, st, which):
        a = f.plus(self.s, self.offs[which])
        return st.mem.get(a) or mk("ld", a, 8)

    def on_load(self, f, st, i, a):
        if i.ty != "i8" or i.x != 1:
            return
        t = self.text(f, st, a)
        if t is None:
            return
        self.n["reads"] += 1
        if not self.reach(f, st, t[0], t[1]):
            self.rep(f, st, i, "read:%s" % i.wherefn(), "%s: looks ahead at %s while an earlier character may be the end of the source" % (i.wherefn(), show(a)))

    def reach(self, f, st, base, off):
        """base + off is not behind the terminator"""
        if base.op == "idx":
            return self.within(f, st, f.plus(base, off))
        if off < 0:
            return False
        p = self.position(f, st, "current")
        if p is base and off <= 0:
            return True
        if ("walked", base) in st.x and off == 0:
            return True
        k = off
        while k > 0 and not self.nonzero(f, st, f.plus(base, k - 1)):
            k -= 1
            # a gap: everything before has to be known as well
            break
        if all(self.nonzero(f, st, f.plus(base, j)) for j in range(off)):
            return True
        return self.within(f, st, f.plus(base, off))

    def walk(self, f, st, v, leaf):
        """a local pointer that has been stepped over characters of the text: where it started"""
        b, o = (v.a[0], v.a[1]) if v.op == "+" else (v, 0)
        if o < 1 or not all(self.nonzero(f, st, f.plus(b, j)) for j in range(o)):
            return None
        w = st.x.get(("walked", b)) if b.op == "s" else None
        if w is None:
            p = self.position(f, st, "current")
            if p is not b:
                return None
            w = (b, 0)
        for j in range(o):
            c = f.plus(b, j)
            c = st.mem.get(c) or mk("ld", c, 1)
            st.x[("nl", c.uid)] = c
        self.settle(f, st)
        return w

    def within(self, f, st, a, slack=0):
        """a + slack <= current position, from comparisons"""
        return lin.le(f, st, a, self.position(f, st, "current"), slack)

    def on_store(self, f, st, i, a, v):
        la = f.plus(self.s, self.offs["line"])
        if a is la:
            d = lin.sub(lin.lin(v), lin.lin(st.mem.get(la) or mk("ld", la, 4)))
            if d[0]:
                self.rep(f, st, i, "line:set:%s" % i.wherefn(), "%s: the line number is set to %s" % (i.wherefn(), show(v)))
            else:
                st.x[("bal",)] = st.x.get(("bal",), 0) - d[1]
                self.n["lines"] += 1
            return
        if a is not f.plus(self.s, self.offs["current"]):
            return
        self.n["moves"] += 1
        old = st.mem.get(a) or mk("ld", a, 8)
        (ob, oo), (nb, no) = [((x.a[0], x.a[1]) if x.op == "+" else (x, 0)) for x in (old, v)]
        w = st.x.get(("walked", nb)) if nb.op == "s" else None
        if w is not None and w == (ob, oo) and no >= 0:
            ob, oo = nb, 0
            for k in [k for k in st.x if k[0] == "prog"]:
                st.x[k] = True
        if ob is not nb or no < oo:
            self.rep(f, st, i, "move:%s" % i.wherefn(), "%s: moves the read position to %s" % (i.wherefn(), show(v)))
            return
        for j in range(oo, no):
            if not self.nonzero(f, st, f.plus(ob, j)):
                self.rep(f, st, i, "move:%s" % i.wherefn(), "%s: moves the read position over a character that may be the end of the source" % i.wherefn())
                break
        for j in range(oo, no):
            c = f.plus(ob, j)
            c = st.mem.get(c) or mk("ld", c, 1)
            st.x[("nl", c.uid)] = c
        self.settle(f, st)
        if no > oo:
            for k in [k for k in st.x if k[0] == "prog"]:
                st.x[k] = True

    def settle(self, f, st):
        """which of the characters passed over were newlines"""
        for k in [k for k in st.x if k[0] == "nl"]:
            t = st.x[k]
            r = f.evalc(st, f.cmp("eq", t, C(10, 8), 8))
            if r is None:
                for u in [mk(op, t, 8, w) for op in ("sext", "zext") for w in (32, 64)]:
                    iv = st.ints.get(u)
                    if iv and (iv[0] > 10 or iv[1] < 10):
                        r = False
            if r is None:
                continue
            del st.x[k]
            if r:
                st.x[("bal",)] = st.x.get(("bal",), 0) + 1

    def balanced(self, f, st, i):
        self.settle(f, st)
        open_ = [k for k in st.x if k[0] == "nl"]
        w = i.wherefn()
        if open_:
            self.rep(f, st, i, "line:uncounted:%s" % w, "%s: a newline may be passed over without counting the line" % w)
        elif st.x.get(("bal",), 0):
            self.rep(f, st, i, "line:wrong:%s" % w, "%s: the line is %s for a newline" % (w, "not counted" if st.x[("bal",)] > 0 else "counted without or more than once"))
        for k in open_:
            del st.x[k]
        st.x.pop(("bal",), None)

    def call_effect(self, f, st, i, name, args, leaf):
        g = self.mod.fns.get(name)
        if name in CTYPE or name in self.chars:
            excl = self.chars.get(name, (0, 10) if name != "isspace" else (0,))
            # a character class that does not contain the terminator
            if leaf is None:
                return [st]
            w = f.mod.fns[name].ret
            st.env[i.id] = leaf
            s2 = st.copy()
            w = int(w[1:])
            r = []
            a = args[0]
            aw = 8 if name in self.chars else 32
            if f.assume(st, f.cmp("eq", leaf, C(0, w), w), False) and all(f.assume(st, f.cmp("eq", a, C(e, aw), aw), False) for e in excl):
                r.append(st)
            if f.assume(s2, f.cmp("eq", leaf, C(0, w), w), True):
                r.append(s2)
            return r
        if g is None or g.decl:
            return None
        if self.s not in args:
            return None
        if self.retp is not None and self.retp in args:
            # the token is made by the callee, which is analysed by itself
            for a in [a for a in st.mem if flow.abase(a) is self.retp]:
                del st.mem[a]
        # what the callee may rely on
        cur, start = self.position(f, st, "current"), self.position(f, st, "start")
        nc = 0
        while nc < 2 and self.nonzero(f, st, f.plus(cur, nc)):
            nc += 1
        ns = 0
        while ns < 3 and self.nonzero(f, st, f.plus(start, ns)):
            ns += 1
        d = 4
        while d > 0 and not lin.le(f, st, start, cur, d):
            d -= 1
        at = st.mem.get(cur) or mk("ld", cur, 1)
        k = (name, consts(f, st, args, self.eof))
        self.pre.setdefault(k, []).append((nc, ns, d, st.x.get(("prog", -1)) is True, f.evalc(st, f.cmp("eq", at, C(10, 8), 8)) is False,
                                           f.evalc(st, f.cmp("eq", at, C(0, 8), 8)) is True))
        eff = self.effects.get(name)
        if eff is None or eff == "writes":
            for w in ("current", "start"):
                a = f.plus(self.s, self.offs[w])
                n = mk("out", i.blk * 100003 + i.idx, w)
                f.kill(st, n)
                st.mem[a] = n
            if self.after.get(k):
                f.assume(st, f.cmp("eq", mk("ld", self.position(f, st, "current"), 1), C(10, 8), 8), False)
        if leaf is not None:
            st.env[i.id] = leaf
            vals = self.outcomes(k, args)
            self.known[leaf] = vals
            if vals is not None:
                for e in self.eof:
                    if e not in vals:
                        f.assume(st, f.cmp("eq", leaf, C(e, 32), 32), False)
        return [st]

    def outcomes(self, k, args):
        """the constants a function returns, when it returns constants only"""
        r = self.rets.get(k)
        if r is None:
            return None
        o = set()
        for v in r:
            if v.op == "p" and v.a[0] < len(args):
                v = args[v.a[0]]
            if v.op != "c":
                return None
            o.add(v.a[0])
        return o

    def returned(self, v):
        if v.op in ("c", "p"):
            return {v}
        r = self.known.get(v)
        return None if r is None else {C(x, 32) for x in r}

    def on_call(self, f, st, i, name, args):
        if name in ("memcmp", "strncmp", "memcpy", "strncpy") and len(args) == 3:
            for a in args[:2]:
                if self.text(f, st, a) is None:
                    continue
                self.n["reads"] += 1
                if args[2].op == "c" and args[2].a[0] == 0:
                    continue
                end = lin.lin(args[2])
                d = lin.sub(lin.lin(self.position(f, st, "current")), lin.lin(a))
                if not lin.nonneg(f, st, lin.sub(d, end)):
                    self.rep(f, st, i, "compare:%s" % i.wherefn(), "%s: %s() may read beyond what was scanned" % (i.wherefn(), name))

    def on_ret(self, f, st, i, v):
        self.balanced(f, st, i)
        cur = self.position(f, st, "current")
        if f.evalc(st, f.cmp("eq", st.mem.get(cur) or mk("ld", cur, 1), C(10, 8), 8)) is not False:
            self.nonl = False
        if v is not None and self.out is not None:
            r = self.returned(v)
            self.out = None if r is None else self.out | r
        if self.retp is None:
            return
        self.n["returns"] += 1
        ty = st.mem.get(f.plus(self.retp, self.tokoff["type"]))
        cur = self.position(f, st, "current")
        if ty is None:
            return
        consumed = st.x.get(("prog", -1)) is True
        iseof = f.evalc(st, f.cmp("eq", ty, C(self.eof[0], 32), 32))
        iserr = f.evalc(st, f.cmp("eq", ty, C(self.eof[1], 32), 32))
        atend = f.evalc(st, f.cmp("eq", st.mem.get(cur) or mk("ld", cur, 1), C(0, 8), 8)) is True
        w = "scanToken"
        if iseof is not False:
            if not atend:
                self.rep(f, st, i, "eof:early", "%s: the end of the source is reported although it may not have been reached" % w)
        elif not consumed:
            self.rep(f, st, i, "token:empty", "%s: a token of type %s is returned although nothing may have been consumed for it" % (w, show(ty)))
        if iserr is False:
            s = st.mem.get(f.plus(self.retp, self.tokoff["start"]))
            n = st.mem.get(f.plus(self.retp, self.tokoff["length"]))
            if s is None or n is None:
                return
            if s is not self.position(f, st, "start"):
                self.rep(f, st, i, "token:start", "%s: the text of a token starts at %s, not where scanning it began" % (w, show(s)))
            elif lin.sub(lin.lin(n), lin.sub(lin.lin(cur), lin.lin(s))) != ({}, 0):
                self.rep(f, st, i, "token:length", "%s: the length of a token is %s, not what was consumed for it" % (w, show(n)))


CTYPE = ("isdigit", "isxdigit", "isalpha", "isalnum", "isupper", "islower", "isspace", "ispunct", "isprint", "isgraph")


def char_classes(mod, K):
    """pure functions of one character: which of the terminator and the newline they are false for"""
    r = {}
    for fn in mod.fns.values():
        if fn.decl or fn.nargs != 1 or fn.ret not in ("i1", "i8", "i32") or fn.ditys[1:] != ["char"]:
            continue
        if any(i.op == "store" for i in fn.insts()):
            continue
        w = int(fn.ret[1:])
        excl = []
        for c in (0, 10):
            f = flow.Flow(mod, fn, K, [])
            st = new_state()
            try:
                f.assume(st, f.cmp("eq", mk("p", 0), C(c, 8), 8), True)
                f.run(st)
            except flow.Abort:
                continue
            if f.rets and all(f.evalc(s, f.cmp("eq", v, C(0, w), w)) is True for s, v, i in f.rets):
                excl.append(c)
        if 0 in excl:
            r[fn.name] = tuple(excl)
    return r


class ScanFlow(flow.Flow):
    def edge(self, b, t, st):
        cl = self.clients[0]
        cl.settle(self, st)
        walked = []
        if t in self.headers and b in self.headers[t]:
            for i in self.fn.blocks[t]:
                if i.op != "phi":
                    break
                for v, p in zip(i.ops, i.x):
                    if p == b and i.ty == "ptr":
                        w = cl.walk(self, st, self.T(st, v), mk("s", i.id))
                        if w is not None:
                            walked.append((mk("s", i.id), w, t))
            cl.balanced(self, st, self.fn.blocks[b][-1])
        if t in self.headers:
            if b in self.headers[t]:
                if st.x.get(("prog", t)) is not True and not self.counts(t) and not walked:
                    i = self.fn.blocks[t][-1]
                    cl.rep(self, st, i, "loop:%s" % i.wherefn(), "%s: an iteration of this loop may consume nothing, so it may never end" % i.wherefn())
                cl.n["loops"].add(t)
            st.x[("prog", t)] = False
        r = super().edge(b, t, st)
        for t2, s2 in r:
            for leaf, w, h in walked:
                s2.x[("walked", leaf)] = w
                s2.x[("step", h, leaf)] = True
            # leaving a loop: its flag is of no further use
            for k in [k for k in s2.x if k[0] == "prog" and k[1] >= 0 and t2 not in self.bodies[k[1]]]:
                del s2.x[k]
        return r

    def written_in(self, hdr, a):
        """a field of the scanner that the loop does not assign keeps its content"""
        cl = self.clients[0]
        if not (a is cl.s or a.op == "+" and a.a[0] is cl.s):
            return True
        off = a.a[1] if a.op == "+" else 0
        for n in self.bodies[hdr]:
            for i in self.fn.blocks[n]:
                if i.op == "store":
                    d = None if isinstance(i.ops[1], tuple) else self.fn.defs.get(i.ops[1])
                    if d is None or d.op != "getelementptr":
                        if not (off and i.ops[1] == cl.s.a[0]):
                            return True
                    elif "Scanner" not in str(d.x.get("src")) or d.x.get("off") == off:
                        return True
                elif i.op == "call" and cl.effects.get(i.callee, "") == "writes":
                    return True
        return False

    def counts(self, t):
        for i in self.fn.blocks[t]:
            if i.op == "phi" and i.id in self.induct:
                return True
        return False


def bodies(fn, headers):
    """natural loop bodies"""
    preds = {}
    for n, b in enumerate(fn.blocks):
        for s in fn.succ(n) if hasattr(fn, "succ") else succ(b):
            preds.setdefault(s, set()).add(n)
    r = {}
    for h, tails in headers.items():
        body, work = {h}, list(tails)
        while work:
            n = work.pop()
            if n in body:
                continue
            body.add(n)
            work += list(preds.get(n, ()))
        r[h] = body
    return r


def succ(b):
    i = b[-1]
    if i.op == "br":
        return list(i.x)
    if i.op == "switch":
        return [i.x[0]] + [d for _, d in i.x[1:]]
    return []


def run(ctx):
    raw = frontend.load(set(), only=["vm/scanner.c"], max_inline=30)
    mod = ir.Module(raw)
    K = ctx.K
    T = Types(mod, K)
    offs = {m[0]: m[1] for m in T.st("Scanner")["m"]}
    toff = {m[0]: m[1] for m in T.st("LangToken")["m"]}
    en = next(e for e in mod.enums.values() if "TOKEN_EOF" in e)
    eof = (en["TOKEN_EOF"], en["TOKEN_ERROR"])
    Scan.mod = mod
    fns = {f.name: f for f in mod.fns.values() if not f.decl and "Scanner*" in f.ditys[1:] and f.disp != "initScanner"}
    called = {i.callee for f in fns.values() for i in f.insts() if i.callee in fns}
    # functions that leave the position alone
    effects = {}
    ch = True
    while ch:
        ch = False
        for n, f in fns.items():
            if n in effects:
                continue
            if any(i.op == "store" and writes_position(f, i, offs) for i in f.insts()) or any(effects.get(i.callee) for i in f.insts()):
                effects[n] = "writes"
                ch = True
    for n in fns:
        effects.setdefault(n, "")
    chars = char_classes(mod, K)
    rets, after = {}, {}
    for _ in range(8):
        pre, results = {(n, (None,) * fns[n].nargs): (0, 0, 0, False, False, False) for n in fns if n not in called}, {}
        work = sorted(pre)
        rounds, rets2, after2 = 0, {}, {}
        while work:
            key = work.pop(0)
            n = key[0]
            rounds += 1
            if rounds > 3000:
                raise RuntimeError("scanner: no fixpoint")
            fn = fns[n]
            sret = fn.nargs == len(fn.ditys)        # a structure returned through a hidden first parameter
            sp = fn.ditys.index("Scanner*") - 1 + (1 if sret else 0)
            cl = Scan(mk("p", sp), offs, ctx, mk("p", 0) if sret else None, toff, eof)
            cl.pre, cl.effects, cl.chars, cl.rets, cl.known, cl.out, cl.after, cl.nonl = {}, effects, chars, rets, {}, set(), after, True
            f = ScanFlow(mod, fn, K, [cl])
            f.bodies = LazyBodies(f)
            st = new_state()
            nc, ns, d, cons, nn, end = pre[key]
            st.x[("prog", -1)] = cons
            for w in offs:
                if w in ("current", "start"):
                    st.mem[f.plus(cl.s, offs[w])] = mk("out", "in", w)
            cur, start = cl.position(f, st, "current"), cl.position(f, st, "start")
            for j in range(nc):
                f.assume(st, f.cmp("eq", mk("ld", f.plus(cur, j), 1), C(0, 8), 8), False)
            for j in range(ns):
                f.assume(st, f.cmp("eq", mk("ld", f.plus(start, j), 1), C(0, 8), 8), False)
            if d:
                f.assume(st, f.cmp("slt", C(d - 1, 64), f.binop("sub", cur, start, 64), 64), True)
            f.MAXD, f.WIDEN = 400, 1500
            if nn:
                f.assume(st, f.cmp("eq", mk("ld", cur, 1), C(10, 8), 8), False)
            if end:
                f.assume(st, f.cmp("eq", mk("ld", cur, 1), C(0, 8), 8), True)
            for k, c in enumerate(key[1]):
                if c is not None and c[0] == "not":
                    for e in c[1:]:
                        f.assume(st, f.cmp("eq", mk("p", k), C(e, 32), 32), False)
                elif c is not None:
                    st.ints[mk("p", k)] = f.interval(st, C(*c))
                    f.assume(st, f.cmp("eq", mk("p", k), C(*c), c[1]), True)
            try:
                f.run(st)
            except flow.Abort as e:
                raise RuntimeError("scanner not decided: %s %s" % (fn.disp, e))
            results[key] = cl
            out = cl.out if fn.ret == "i32" else None
            rets2[key], after2[key] = out, cl.nonl
            for g, ps in cl.pre.items():
                if g[0] not in fns:
                    continue
                p = tuple(min(x[k] for x in ps + ([pre[g]] if g in pre else [])) for k in range(6))
                if pre.get(g) != p:
                    pre[g] = p
                    if g not in work:
                        work.append(g)
        if rets == rets2 and after == after2:
            break
        rets, after = rets2, after2
    else:
        raise RuntimeError("scanner: no fixpoint")
    total = dict(moves=0, reads=0, loops=0, returns=0, lines=0)
    for (n, _), cl in sorted(results.items(), key=str):
        for k in ("moves", "reads", "returns", "lines"):
            total[k] += cl.n[k]
        total["loops"] += len(cl.n["loops"])
        for key, (i, msg, path) in sorted(cl.bad.items()):
            ctx.violation("%s:%s" % (fns[n].disp, key), i.where(), msg, path)
    n_out = outside(ctx, offs, toff, [m[0] for m in T.st("Scanner")["m"]].index("current"))
    ctx.cov.update(functions=sorted({fns[n].disp for n, c in results}), contexts=len(results), position_moves=total["moves"], character_reads=total["reads"], loops=total["loops"], tokens_returned=total["returns"], lines_counted=total["lines"],
                   preconditions={fns[n].disp: "%d characters known at the position, %d at the start, %d consumed" % p[:3] for (n, c), p in sorted(pre.items(), key=str)},
                   position_resets_outside=n_out, obligations=sum(total.values()) + n_out)
    ctx.require(total["moves"], 20, "moves of the read position")
    ctx.require(total["loops"], 5, "loops of the scanner")


def writes_position(fn, i, offs):
    p = i.ops[1]
    d = None if isinstance(p, tuple) else fn.defs.get(p)
    if d is not None and d.op == "getelementptr" and "Scanner" in str(d.x.get("src")):
        return d.x.get("off") in (offs["current"], offs["start"])
    return False


class LazyBodies(dict):
    def __init__(self, f):
        self.f = f

    def __missing__(self, k):
        self.update(bodies(self.f.fn, self.f.headers))
        return self[k]


class Resets(Client):
    """assignments to the read position of a scanner embedded in another structure"""
    def __init__(self, ctx, offs, toff, word):
        self.ctx, self.offs, self.toff, self.word, self.n, self.bad = ctx, offs, toff, word, 0, {}

    def on_store(self, f, st, i, a, v):
        d = None if isinstance(i.ops[1], tuple) else f.fn.defs.get(i.ops[1])
        if d is None or d.op != "getelementptr":
            return
        p = d.x.get("path") or []
        if not any(x[0].replace("struct.", "").split(".")[0] == "Scanner" and x[1] == self.word for x in p):
            return
        self.n += 1
        if not self.token_end(v):
            self.bad.setdefault(f.fn.disp, (i, "%s: the read position of the scanner is set to %s, which is not the end of a token" % (f.fn.disp, show(v)), nativerun.path_lines(st, f)))

    def content(self, v):
        if v.op in ("ld",):
            return v.a[0], None
        if v.op in ("h", "out") and len(v.a) > 1 and isinstance(v.a[1], ir.Term):
            return v.a[1], v.a[0]
        return None

    def token_end(self, v):
        """token.start, or token.start + token.length of the same token"""
        off = 0
        if v.op == "idx" and len(v.a) == 3 and v.a[2] == 1:
            n = v.a[1]
            while n.op in ("sext", "zext"):
                n = n.a[0]
            s, n = self.content(v.a[0]), self.content(n)
            if s is None or n is None or s[1] != n[1]:
                return False
            d = lin.sub(lin.lin(n[0]), lin.lin(s[0]))
            return d == ({}, self.toff["length"] - self.toff["start"]) and self.is_start(v.a[0])
        return self.content(v) is not None and self.is_start(v)

    def is_start(self, v):
        a = self.content(v)[0]
        o = a.a[1] if a.op == "+" else 0
        return o >= self.toff["start"] and (o - self.toff["start"]) % 8 == 0


def outside(ctx, offs, toff, word):
    mod = ir.Module(frontend.load(set(), only=["vm/compiler.c"], max_inline=0))
    n = 0
    for fn in sorted(mod.fns.values(), key=lambda f: f.name):
        if fn.decl or not any(i.op == "store" and resets(fn, i, word) for i in fn.insts()):
            continue
        cl = Resets(ctx, offs, toff, word)
        try:
            flow.Flow(mod, fn, ctx.K, [cl]).run(new_state())
        except flow.Abort as e:
            raise RuntimeError("not decided: %s %s" % (fn.disp, e))
        n += cl.n
        for i, msg, path in cl.bad.values():
            ctx.violation("reset:%s" % fn.disp, i.where(), msg, path)
    return n


def resets(fn, i, word):
    d = None if isinstance(i.ops[1], tuple) else fn.defs.get(i.ops[1])
    return d is not None and d.op == "getelementptr" and any(x[0].replace("struct.", "").split(".")[0] == "Scanner" and x[1] == word for x in d.x.get("path") or [])
