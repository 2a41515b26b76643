"""Well-formedness of compiled code.  The compiler is followed on all its paths and what it emits is interpreted abstractly:
for every function being compiled, how many values are on the operand stack beyond the slots of its local variables after each
instruction, and how many operand bytes the current instruction still lacks.  What each instruction takes, leaves and reads as
operands is computed from its handler in the interpreter.  Checked: every way of compiling an expression leaves exactly one value,
every statement and declaration none; all ways to reach a place in the code arrive with the same number; every jump that is emitted is
patched, to where it was meant to go, and lands on an instruction; every instruction has exactly the operands its handler reads (also in
the table used to skip over instructions); leaving a scope or a loop removes exactly its locals, closing the captured ones."""
import os, re, sys
import flow, frontend, ir, lin, handlers, nativerun, summ, inv
from flow import mk, C, show, new_state, Client
from ir import Term
from gctrace import Types

ASSUME = ["code of a program with a compile error is not run", "counts that are written as operand bytes fit (separate property)",
          "the number of values an unpacked argument expands to is added by the call itself"]

# instructions whose stack effect depends on an operand: operand index, factor, constant
VAR = {"OP_CALL": (0, -1, 0), "OP_INVOKE": (0, -1, 0), "OP_INVOKE_INTERNAL": (0, -1, 0), "OP_SUPER": (0, -1, -1), "OP_NEW_LIST": (0, -1, 1),
       "OP_NEW_DICT": (0, -2, 1), "OP_UNPACK_LIST": (0, 1, -1), "OP_MULTI_CASE": (0, -1, 0), "OP_IMPORT_FROM": (0, 1, 0),
       "OP_IMPORT_BUILTIN_VARIABLE": (1, 1, 0)}
# effects of instructions that leave the handler some other way, operand bytes
FIX = {"OP_IMPORT": (1, 1), "OP_IMPORT_BUILTIN": (1, 2), "OP_CLOSURE": (1, 1), "OP_RETURN": (-1, 0), "OP_DEFINE_OPTIONAL": (0, 2),
       "OP_CALL": (None, 2), "OP_INVOKE": (None, 3), "OP_INVOKE_INTERNAL": (None, 3), "OP_SUPER": (None, 3), "OP_IMPORT_FROM": (None, 1),
       "OP_IMPORT_BUILTIN_VARIABLE": (None, 2)}
MORE = {"OP_IMPORT_FROM": (0, 1), "OP_IMPORT_BUILTIN_VARIABLE": (1, 1)}         # further operand bytes: operand that counts them
JUMPS = {"OP_JUMP": (0, None), "OP_BREAK": (0, None), "OP_JUMP_IF_FALSE": (0, 0), "OP_JUMP_IF_NIL": (0, 0), "OP_COMPARE_JUMP": (-1, -2), "OP_LOOP": (0, None)}
CLOSE = ("OP_POP", "OP_CLOSE_UPVALUE")


# functions that compile no code themselves (looked at on their own, if they are there) and the recursive core
ALONE = {"writeChunk", "getArgCount", "parsePrecedence", "errorAt", "error", "errorAtCurrent", "advance", "scanToken", "rewindTo", "backTrack", "resolveUpvalue",
         "identifiersEqual", "privatePropertyExists", "parseNumber", "parseString", "parseEscapeSequences", "identifierConstant",
         "makeConstant", "addConstant", "checkConst", "resolveLocal", "addUpvalue", "parseAnnotations"}


# ---------- linear forms as hashable values ----------
_t = {}


def L(t):
    d, n = lin.lin(t) if isinstance(t, Term) else ({}, t)
    return norm(d, n)


def norm(d, n):
    for t in d:
        _t[t.uid] = t
    return (tuple(sorted((t.uid, k) for t, k in d.items() if k)), n)


def dic(l):
    return {_t[u]: k for u, k in l[0]}, l[1]


def ladd(a, b, k=1):
    d, n = dic(a)
    for u, c in b[0]:
        d[_t[u]] = d.get(_t[u], 0) + k * c
    return norm(d, n + k * b[1])


def leaves(l):
    r = set()
    for u, _ in l[0]:
        r |= _t[u].leaves
        if _t[u].op == "p":
            r.add(_t[u])
    return r


def sh(t, d=0):
    if not isinstance(t, Term):
        return str(t)
    if d > 8:
        return ".."
    if t.op == "c":
        return str(lin.signed(t.a[0], t.a[1]))
    if t.op in ("s", "p"):
        return "%s%s" % (t.op, t.a[0])
    if t.op == "ld":
        return "*" + sh(t.a[0], d + 1)
    return t.op + "(" + ", ".join(sh(x, d + 1) for x in t.a) + ")"


def ls(l):
    return " + ".join(["%s%s" % ("" if k == 1 else "%d*" % k, sh(_t[u])) for u, k in l[0]] + ([str(l[1])] if l[1] or not l[0] else []))


ZERO = ((), 0)


def vm_table(ctx):
    """opcode -> (stack effect or None, operand bytes), from the handlers"""
    mod, K = ctx.mod, ctx.K
    P = summ.Program(mod, K)
    fn, disp, tab, nt, no = handlers.dispatch(mod)

    class F(flow.Flow):
        def edge(self, b, t, st):
            if t == disp:
                h = None if st.stack is None else len(st.stack) - st.base
                n = set()
                for i in self.fn.blocks[t]:
                    if i.op != "phi":
                        break
                    for v, p in zip(i.ops, i.x):
                        if p == b:
                            x = self.T(st, v)
                            if x.op == "+" and x.a[0] in self.ips:
                                n.add(x.a[1] - 1)
                if not st.err:
                    self.ex.add((h, tuple(n)))
            return super().edge(b, t, st)

    def work(items):
        out = []
        for name, blk in items:
            cl = handlers.HandlerClient(P, fn, name)
            f = F(mod, fn, K, [cl])
            f.ips = {mk("s", i.id) for i in fn.blocks[disp] if i.op == "phi" and i.ty == "ptr"}
            f.ex, f.weak, f.track_pops, f.maxstack = set(), P.weak, True, 8
            try:
                f.run(handlers.entry_state(f, fn), entry=blk, stop={disp})
            except flow.Abort as e:
                f.ex = {("abort", ())}
            out.append((name, sorted(f.ex, key=str)))
        return out
    tabl = {}
    bad = []
    for part in nativerun.parallel(list(tab), work):
        for name, ex in part:
            hs = {h for h, n in ex}
            ns = {n[0] for h, n in ex if n}
            tabl[name] = (hs, ns)
    return tabl


class Emit(Client):
    def on_store(self, f, st, i, a, v):
        f.saw_store(st, i, a, v)

    def on_load(self, f, st, i, a):
        f.saw_load(st, i, a)

    def call_effect(self, f, st, i, name, args, leaf):
        return f.effect(st, i, name, args, leaf)

    def on_ret(self, f, st, i, v):
        f.saw_ret(st, i, v)


class EmitFlow(flow.Flow):
    final = False
    MAXD = 300
    WIDEN = 2500

    # ---------- reporting ----------
    def rep(self, st, i, key, msg):
        if self.final:
            self.bad.setdefault(key, (i.where(), msg, nativerun.path_lines(st, self)))

    # ---------- addresses ----------
    def comp_of_chunk(self, st, c):
        """compiler whose function's chunk is at c"""
        o = self.A.o
        k = self.chunks.get(c)
        if k is not None and self.chunk_ptr(st, k) is c:
            return k
        cand = []
        if c.op == "+" and c.a[1] == o["ObjFunction", "chunk"]:
            b = c.a[0]
            if b.op == "ld" and b.a[0].op == "+" and b.a[0].a[1] == o["Compiler", "function"]:
                cand.append(b.a[0].a[0])
            for a, v in st.mem.items():
                if v is b and a.op == "+" and a.a[1] == o["Compiler", "function"]:
                    cand.append(a.a[0])
        for k in cand:
            self.chunks[c] = k
            return k
        return None

    def chunk_ptr(self, st, k):
        o = self.A.o
        a = self.plus(k, o["Compiler", "function"])
        return self.plus(st.mem.get(a) or mk("ld", a, 8), o["ObjFunction", "chunk"])

    def cnt_addr(self, st, k):
        return self.plus(self.chunk_ptr(st, k), self.A.o["Chunk", "count"])

    def cnt(self, st, k):
        a = self.cnt_addr(st, k)
        v = st.mem.get(a)
        if v is None:
            v = st.mem[a] = mk("s", "n0:%d" % k.uid)
            st.ints[v] = (0, 1 << 30)
        return v

    def lc_addr(self, k):
        return self.plus(k, self.A.o["Compiler", "localCount"])

    def get(self, st, var, k):
        return st.x.get((var, k), ZERO)

    def put(self, st, var, k, v):
        st.x[(var, k)] = v

    # ---------- volatile memory ----------
    def load(self, st, a, i):
        if i.op == "load" and self.A.is_field(i, "Parser", "panicMode"):
            return C(0, 8)      # no error so far
        v = st.mem.get(a)
        if v is not None:
            return v
        if self.dull(a):
            h = mk("h", "%d.%d" % (i.blk, i.idx), a)
            self.kill_facts(st, h)
            return h
        b, off = (a.a[0], a.a[1]) if a.op == "+" else (a, 0)
        ver = st.x.get(("ver",))
        if ver is not None and abase(a).op != "al" and i.x in (1, 4, 8) and isinstance(b, Term):
            if self.stable(a):
                return super().load(st, a, i)
            return mk("h", ver, a)
        return super().load(st, a, i)

    def is_count(self, a):
        return isinstance(a, Term) and a.op == "+" and a.a[1] in self.A.cntoffs

    def dull(self, a):
        """a local array or structure whose contents do not matter here (but for the compiler states and loops)"""
        b = abase(a)
        if b.op == "al":
            return b not in self.keepal
        b = a.a[0] if a.op == "+" else a
        if b.op == "idx" and len(b.a) == 3 and b.a[2] == 1 and b.a[0].op in ("h", "ld"):      # a byte of the code
            c = b.a[0].a[-1] if b.a[0].op == "h" else b.a[0].a[0]
            return isinstance(c, Term) and c.op == "+" and c.a[1] - self.A.o["Chunk", "code"] + self.A.o["Chunk", "count"] in self.A.cntoffs
        return False

    def store(self, st, a, v, i):
        if self.dull(a):
            return
        super().store(st, a, v, i)

    def prune(self, st, live):
        st.env = {i: t for i, t in st.env.items() if i in live or isinstance(i, str)}
        reach = set()
        for d in (st.env, st.mem):
            for t in d.values():
                reach |= t.leaves
        for t in st.mem:
            reach |= t.leaves
        for k, v in st.x.items():
            for e in k:
                if isinstance(e, Term):
                    reach |= e.leaves
                elif isinstance(e, tuple) and len(e) == 2:
                    reach |= leaves(e)
            if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], tuple):
                reach |= leaves(v)
        ver = st.x.get(("ver",))
        # places in the code matter while something remembers them
        count = lambda l: l.op == "s" and str(l.a[0])[:1] == "n" or l.op == "h" and self.is_count(l.a[1])
        apart = {t for t, r in st.ints.items() if t.op == "sub" and r[0] == r[1] and all(x.op == "s" and count(x) and self.cnt_live(st, t) for x in t.a[:2])}
        held = {L(x) for t in apart for x in t.a[:2]} | {L(t) for d in (st.env, st.mem) for t in d.values() if t.op in ("s", "h", "add", "ld", "out")}
        for k in [k for k in st.x if k[0] == "pos" and k[2] not in held]:
            del st.x[k]
        for d in (st.ints, st.truth):
            for t in [t for t in d if t.op in ("add", "sub") and t not in apart and any(count(l) for l in t.leaves) or t.op == "cmp" and t.a[0] == "slt" and any(count(l) for l in t.a[1].leaves | t.a[2].leaves)]:
                del d[t]
        for t in apart:
            reach |= t.leaves
        ok = lambda t: all(l in reach or l.op == "h" and l.a[0] == ver or l.op == "p" for l in t.leaves)
        for d in (st.kinds, st.ints, st.truth):
            for t in [t for t in d if not ok(t) and not (d is st.truth and self.byte_known(st, t, reach))]:
                del d[t]

    def byte_known(self, st, c, reach):
        """what a byte of the code is known to be"""
        if not st.truth[c] or c.op != "cmp" or c.a[0] != "eq" or c.a[2].op != "c":
            return False
        t = c.a[1]
        while t.op in ("zext", "sext", "trunc"):
            t = t.a[0]
        a = t.a[1] if t.op == "h" else None
        if not isinstance(a, Term) or not self.dull(a):
            return False
        b = a.a[0] if a.op == "+" else a
        return b.op == "idx" and b.a[1].op in ("s", "h", "add") and all(l in reach for l in b.a[1].leaves)

    def cnt_live(self, st, t):
        """one of the two is the present amount of code"""
        return any(st.mem.get(self.cnt_addr(st, k)) in t.a[:2] for k in self.comps(st))

    def stable(self, a):
        """memory the compiler does not change while it works on a construct"""
        o = self.A.o
        off = a.a[1] if a.op == "+" else 0
        b = a.a[0] if a.op == "+" else a
        if b is self.kp:
            return off in self.A.ckeep
        return b.op == "g"

    def bump(self, st, i):
        ver = "%d.%d" % (i.blk, i.idx)
        st.x[("ver",)] = ver
        for d in (st.kinds, st.ints, st.truth):
            for t in [t for t in d if any(l.op == "h" and l.a[0] == ver for l in t.leaves)]:
                del d[t]
        # what was remembered about the parser's and other shared memory is out of date
        for a in list(st.mem):
            if abase(a).op != "al" and not self.kept(st, a):
                del st.mem[a]

    def kept(self, st, a):
        b, off = (a.a[0], a.a[1]) if a.op == "+" else (a, 0)
        if off in self.A.ckeep and (b.op == "al" or b is self.kp):
            return True
        return any(a is self.cnt_addr(st, k) for k in self.comps(st))

    def load_ptr(self, st, a):
        return st.mem.get(a) or mk("ld", a, 8)

    def comps(self, st):
        return set(self.chunks.values()) | {self.kp} | self.compals

    def clobber(self, st, i, args):
        # fields of a compiler state that callees leave alone are kept
        keep = {}
        for a in args:
            b = abase(a)
            if b.op == "al":
                for m, v in st.mem.items():
                    if abase(m) is b and (m.a[1] if m.op == "+" else 0) in self.A.ckeep and b in self.compals:
                        keep[m] = v
        super().clobber(st, i, args)
        st.mem.update(keep)

    # ---------- events ----------
    def saw_load(self, st, i, a):
        o = self.A.o
        off = a.a[1] if a.op == "+" else 0
        if a.op == "+" and off in self.A.cntoffs:
            k = self.comp_of_chunk(st, self.plus(a, -o["Chunk", "count"]))
            if k is not None:
                c = self.cnt(st, k)
                if self.get(st, "P", k) == ZERO:
                    st.x[("pos", k, L(c))] = self.height(st, k)

    def saw_store(self, st, i, a, v):
        o = self.A.o
        off = a.a[1] if a.op == "+" else 0
        b = a.a[0] if a.op == "+" else a
        if off == o["Parser", "hadError"] and self.A.is_field(i, "Parser", "hadError") and v.op == "c" and v.a[0] & 1:
            st.x[("dead",)] = True
            return
        if self.A.is_field(i, "Compiler", "localCount"):
            k = self.plus(a, -o["Compiler", "localCount"])
            old = st.mem.get(a)
            if old is None and v.op == "c":         # a new function: slot 0 holds the function itself
                self.put(st, "D", k, (tuple(), 1 - lin.lin(v)[1]))
                return
            old = self.load(st, a, i) if old is None else old
            d = ladd(L(v), L(old), -1)
            if d[0]:
                self.rep(st, i, "localCount", "the number of local variables changes by an amount that is not known (%s)" % ls(d))
                return
            self.put(st, "D", k, ladd(self.get(st, "D", k), d, -1))
            self.n["locals"] += 1
            if d[1] > 0 and ("undef", k) in st.x and not self.same(st, st.x["undef", k], L(old)):
                self.twice(st, i)
            if d[1] < 0:
                self.leave_local(st, i, k, L(old))
            return
        if self.A.is_field(i, "Local", "depth"):
            r = self.local_at(a, "depth")
            if r is not None:
                k = r[0]
                if v.op == "c" and lin.lin(v)[1] == -1:
                    if ("undef", k) in st.x and not self.same(st, st.x["undef", k], r[1]):
                        self.twice(st, i)
                    st.x[("undef", k)] = r[1]
                elif ("undef", k) in st.x and not self.same(st, st.x["undef", k], r[1]):
                    self.rep(st, i, "define", "another local variable becomes usable than the one that was declared")
                else:
                    st.x.pop(("undef", k), None)
            return
        if self.A.is_field(i, "ObjFunction", "arity"):
            k = self.comp_of_chunk(st, self.plus(a, o["ObjFunction", "chunk"] - o["ObjFunction", "arity"]))
            if k is not None:
                old = self.load(st, a, i)
                d = ladd(L(v), L(old), -1)
                if not d[0]:
                    self.put(st, "D", k, ladd(self.get(st, "D", k), d))
            return
        if self.A.is_field(i, "Compiler", "scopeDepth"):
            k = self.plus(a, -o["Compiler", "scopeDepth"])
            old = st.mem.get(a)
            if old is None and k.op == "al" and v.op == "c":
                return
            old = old or mk("ld", a, 4)
            d = ladd(L(v), L(old), -1)
            self.settle(st, k)
            sc = st.x.get(("sc", k), ())
            if not d[0] and d[1] == -1:
                if sc:
                    st.x[("left", k)] = sc[-1]
                    st.x[("sc", k)] = sc[:-1]
                else:
                    self.rep(st, i, "scope", "a scope is left that was not entered here")
            elif not d[0] and d[1] == 1:
                st.x.pop(("left", k), None)
                st.x[("sc", k)] = sc + (L(self.load_lc(st, k)),)
            elif d[0] or d[1]:
                self.rep(st, i, "scope", "the scope depth changes by more than one")
            return
        for fld in ("start", "body"):
            if self.A.is_field(i, "Loop", fld) and not (v.op == "c" and lin.signed(*v.a[:2]) < 0):
                self.loop_place(st, i, fld, v)
        if self.A.is_field(i, "Chunk", "count"):
            k = self.comp_of_chunk(st, self.plus(a, -o["Chunk", "count"]))
            if k is not None:
                self.truncate(st, i, k, v)
            return
        if a.op in ("idx", "+"):
            self.code_store(st, i, a, v)
        # a label kept in an array
        if abase(a).op == "al" and a.op in ("idx", "+"):
            self.keep_label(st, i, a, v)

    def loop_place(self, st, i, fld, v):
        """where a loop starts, or its body: the start of an instruction, with nothing but local variables on the stack"""
        for key, H in st.x.items():
            if key[0] == "pos" and self.same(st, key[2], L(v)):
                if fld == "start" and not self.same(st, H, L(self.load_lc(st, key[1]))):
                    self.rep(st, i, "loop-start", "the start of a loop is set to a place where there is something else than local variables on the stack")
                return
        self.rep(st, i, "loop-" + fld, "the %s of a loop is set to a place that is not known to be the start of an instruction" % fld)

    def twice(self, st, i):
        self.rep(st, i, "declared-twice", "another local variable is created while the one before it is declared but has no value yet: the values end up in each other's slots")

    def local_at(self, a, fld):
        """(compiler, index) when the address is that of a member of a local variable"""
        o = self.A.o
        off = a.a[1] if a.op == "+" else 0
        b = a.a[0] if a.op == "+" else a
        z = o["sizeof", "Local"]
        n, r = divmod(off - o["Compiler", "locals"], z)
        if r != o["Local", fld]:
            return None
        if b.op == "idx" and len(b.a) == 3 and b.a[2] == z:
            return b.a[0], ladd(L(b.a[1]), ((), n))
        if b.op in ("p", "al") and 0 <= n < 256:
            return b, ((), n)
        return None

    def truncate(self, st, i, k, v):
        """code is dropped again: back to a known place"""
        lv = L(v)
        if lv == L(self.cnt(st, k)):
            return
        fs = lin.facts(self, st)
        for key, D in st.x.items():
            if key[0] == "pos" and key[1] is k:
                d = dic(ladd(lv, key[2], -1))
                if not d[0] and not d[1] or lin.nonneg(self, st, d, fs) and lin.nonneg(self, st, ({t: -c for t, c in d[0].items()}, -d[1]), fs):
                    self.put(st, "D", k, ladd(D, L(self.load_lc(st, k)), -1))
                    self.n["truncations"] += 1
                    return
        self.rep(st, i, "truncate", "compiled code is dropped back to a place that is not the start of an instruction known to be the last")

    def same(self, st, a, b):
        if a == b:
            return True
        d = dic(ladd(a, b, -1))
        if not d[0]:
            return False
        fs = lin.facts(self, st)
        return lin.nonneg(self, st, d, fs) and lin.nonneg(self, st, ({t: -c for t, c in d[0].items()}, -d[1]), fs)

    def keep_label(self, st, i, a, v):
        lv = L(v)
        for key in [k for k in st.x if k[0] == "lab"]:
            if key[2] == lv and (a.op == "idx" or a.op == "+" and a.a[0].op == "idx"):
                D = st.x.pop(key)
                ak = ("arr", abase(a), key[1])
                if ak in st.x and st.x[ak] != D:
                    self.rep(st, i, "arr", "jumps that are patched to the same place leave different numbers of values on the stack (%s and %s)" % (ls(st.x[ak]), ls(D)))
                st.x[ak] = D
                self.kept_arrays.setdefault(abase(a), i)

    def code_store(self, st, i, a, v):
        """a byte of the code is overwritten"""
        o = self.A.o
        base, ix = None, None
        off = a.a[1] if a.op == "+" else 0
        b = a.a[0] if a.op == "+" else a
        if b.op == "idx" and len(b.a) == 3 and b.a[2] == 1:
            base, ix = b.a[0], ladd(L(b.a[1]), ((), off))
        if base is None:
            return
        if base.op in ("ld", "h"):
            addr = base.a[0] if base.op == "ld" else base.a[1]
        else:
            return
        if not isinstance(addr, Term) or addr.op != "+":
            return
        k = self.comp_of_chunk(st, self.plus(addr, -o["Chunk", "code"]))
        if k is None:
            return
        if v.op == "c":
            # an instruction replaced by another one
            new = self.A.ops.get(v.a[0] & 255)
            st.x[("re", k, ix)] = new
            self.n["rewritten"] += 1
            d, c = dic(ix)
            if len(d) == 1 and c == 0:
                t = next(iter(d))
                for h, ph in self.phis.items():
                    if t in ph and i.blk in self.headers[h]:
                        self.A.scans.setdefault(self.fn.name, set()).add(t.a[0])
            old = [self.A.ops.get(x) for x in range(256) if x in self.A.ops and self.code_is(st, base, ix, x)]
            if old:
                st.x[("was", k, ix)] = [x for x in range(256) if self.A.ops.get(x) == old[0]][0]
            if old and new and not self.A.alike(old[0], new):
                self.rep(st, i, "rewrite", "an instruction %s is replaced by %s, which has other operands or another effect" % (old[0], new))
            return
        t, hi = v, False
        while t.op in ("trunc", "zext", "sext") or t.op == "and" and t.a[1].op == "c" and t.a[1].a[0] in (255, 0xffff):
            t = t.a[0]
        if t.op in ("ashr", "lshr") and t.a[1].op == "c" and t.a[1].a[0] == 8:
            t, hi = t.a[0], True
        self.n["patches"] += 1
        J = L(t)
        p = ix if hi else ladd(ix, ((), -1))
        want = ladd(ladd(L(self.cnt(st, k)), p, -1), ((), -2))
        if not self.same(st, J, want):
            self.rep(st, i, "patch-distance", "the distance written into a jump does not lead to the end of the code compiled so far (%s instead of %s)" % (ls(J), ls(want)))
            return
        if not hi:
            if st.x.pop(("half", k, p), None) is None:
                self.rep(st, i, "patch-half", "only one byte of a jump distance is written")
            return
        st.x[("half", k, p)] = True
        D = self.label(st, i, k, p)
        if D is None:
            self.rep(st, i, "patch-unknown", "a jump distance is written to a place where no unfinished jump is known")
            return
        self.arrive(st, i, k, D)

    def code_is(self, st, base, ix, val):
        for c, v in st.truth.items():
            if v and c.op == "cmp" and c.a[0] == "eq" and c.a[2].op == "c" and c.a[2].a[0] == val:
                t = c.a[1]
                while t.op in ("zext", "sext", "trunc"):
                    t = t.a[0]
                a = t.a[0] if t.op == "ld" else t.a[1] if t.op == "h" else None
                if isinstance(a, Term):
                    off = a.a[1] if a.op == "+" else 0
                    b = a.a[0] if a.op == "+" else a
                    if b.op == "idx" and len(b.a) == 3 and b.a[2] == 1 and ladd(L(b.a[1]), ((), off)) == ix:
                        return True
        return False

    def label(self, st, i, k, p):
        for key in [x for x in st.x if x[0] == "lab" and x[1] is k]:
            if self.same(st, key[2], p):
                return st.x.pop(key)
        # from an array of labels
        d, n = dic(p)
        for t in d:
            a = t.a[0] if t.op == "ld" else t.a[1] if t.op in ("out", "h") else None
            if isinstance(a, Term) and d[t] == 1 and len(d) == 1 and n == 0:
                ak = ("arr", abase(a), k)
                if ak in st.x:
                    self.patched_arrays.add(abase(a))
                    return st.x[ak]
        # a jump out of the loop, found in the code of its body
        q = ladd(p, ((), -1))
        if st.x.pop(("re", k, q), None) is not None:
            self.n["breaks patched"] += 1
            return L(self.load_lc(st, k))
        return None

    def arrive(self, st, i, k, D):
        lc = L(self.load_lc(st, k))
        H = ladd(D, lc, -1)
        if st.x.pop(("U", k), None):
            self.put(st, "D", k, H)
            return
        if not self.same(st, self.height(st, k), D):
            self.rep(st, i, "join", "two ways to reach this place in the code leave different numbers of values on the stack: %s when falling through, %s when jumping "
                     "(beyond the slots of the local variables known here)" % (ls(self.get(st, "D", k)), ls(H)))
            if not any(_t[u].op in "sh" for u, _ in H[0]):
                self.put(st, "D", k, H)

    # ---------- locals leaving their scope ----------
    def depth_fact(self, st, k, idx):
        """+1: the local's depth is known to be greater than a scope depth, -1: known not to be, with the terms"""
        o = self.A.o
        r = []
        for c, v in st.truth.items():
            if c.op == "not":
                c, v = c.a[0], not v
            if c.op == "cmp" and c.a[0] == "slt":
                for s, (x, y) in ((1, (c.a[1], c.a[2])), (-1, (c.a[2], c.a[1]))):
                    a = self.field_of_local(y, "depth")
                    if a is not None and a[0] is k and self.same(st, a[1], idx):
                        # s=1:  x < depth
                        if s == 1:
                            r.append((1 if v else -1, x))
                        elif v:
                            r.append((-1, x))       # depth < x
        return r

    def field_of_local(self, t, fld):
        """(compiler, index) when the term is a field of a local variable"""
        o = self.A.o
        while t.op in ("zext", "sext", "trunc"):
            t = t.a[0]
        a = t.a[0] if t.op == "ld" else t.a[1] if t.op in ("h", "out") else None
        if not isinstance(a, Term):
            return None
        return self.local_at(a, fld)

    def leave_local(self, st, i, k, lc):
        """a local is dropped from the compiler's list"""
        idx = ladd(lc, ((), -1))
        sd = self.scope(st, k)
        if not any(s > 0 and (L(x) == sd) for s, x in self.depth_fact(st, k, idx)):
            self.rep(st, i, "leave-scope", "a local variable is dropped that is not known to belong to the scope being left")

    def toplevel(self, st, k):
        """whether the code being compiled is in no scope: True, False, or not known"""
        a = self.plus(k, self.A.o["Compiler", "scopeDepth"])
        d = st.mem.get(a) or mk("ld", a, 4)
        if d.op == "c":
            return d.a[0] == 0
        iv = self.interval(st, d)
        if iv and iv[0] > 0:
            return False
        v = st.truth.get(self.cmp("eq", d, C(0, 32), 32))
        return v

    def settle(self, st, k):
        """when all locals of the scope that was left are gone the list of locals is what it was before"""
        if ("left", k) not in st.x:
            return True
        idx = ladd(L(self.load_lc(st, k)), ((), -1))
        sd = self.scope(st, k)
        if any(s < 0 and L(x) == sd for s, x in self.depth_fact(st, k, idx)) or lin.nonneg(self, st, ({t: -c for t, c in dic(idx)[0].items()}, -idx[1] - 1)):
            l = st.x.pop(("left", k))
            st.mem[self.lc_addr(k)] = self.term_of(l)
            return True
        return False

    def term_of(self, l):
        d, n = dic(l)
        t = None
        for x, c in d.items():
            if c != 1 or t is not None:
                return mk("s", "v%s" % (l,))
            t = x
        if t is None:
            return C(n, 32)
        return self.binop("add", t, C(n, 32), 32) if n else t

    def scope(self, st, k):
        a = self.plus(k, self.A.o["Compiler", "scopeDepth"])
        return L(st.mem.get(a) or mk("ld", a, 4))

    def loop_depth(self, st, x):
        """the term is the scope depth recorded with the innermost loop"""
        a = x.a[0] if x.op == "ld" else x.a[1] if x.op in ("h", "out") else None
        return isinstance(a, Term) and (a.a[1] if a.op == "+" else 0) == self.A.o["Loop", "scopeDepth"]

    def popped_local(self, st, i, k, op):
        """an instruction that removes the value of a local variable"""
        idx = ladd(ladd(L(self.load_lc(st, k)), self.get(st, "D", k)), ((), -1))
        cap = None
        for c, v in list(st.truth.items()) + [(t, r[0] != 0) for t, r in st.ints.items() if r[0] == r[1] or r[0] > 0]:
            neg = False
            t = c
            if t.op == "not":
                t, neg = t.a[0], True
            if t.op == "cmp" and t.a[0] == "eq" and t.a[2].op == "c":
                neg = neg != (t.a[2].a[0] == 0)
                t = t.a[1]
            while t.op in ("trunc", "zext", "sext") or t.op == "and" and t.a[1].op == "c":
                t = t.a[0]
            a = self.field_of_local(t, "isUpvalue")
            if a and a[0] is k and self.same(st, a[1], idx):
                cap = v != neg
        self.n["locals popped"] += 1
        if cap is None:
            self.rep(st, i, "pop-local", "the value of a local variable is removed without regard to whether a closure has captured it")
        elif cap != (op == "OP_CLOSE_UPVALUE"):
            self.rep(st, i, "pop-local", "a local variable that %s captured is removed by %s" % ("is" if cap else "is not", op))

    def height_of(self, st, k, D):
        return ladd(D, L(self.load_lc(st, k)))

    def height(self, st, k):
        """values on the stack, the slots of local variables included"""
        return ladd(self.get(st, "D", k), L(self.load_lc(st, k)))

    def load_lc(self, st, k):
        a = self.lc_addr(k)
        v = st.mem.get(a)
        if v is None:
            v = mk("ld", a, 4)
            st.ints.setdefault(v, (1, 256))
        return v

    def out_of_loop(self, st, i, k, op):
        """break and continue: exactly the locals of the loop's body have been removed"""
        D = self.get(st, "D", k)
        rem = ladd(L(self.load_lc(st, k)), D)
        idx = ladd(rem, ((), -1))
        self.n["loop exits"] += 1
        if any(s < 0 and self.loop_depth(st, x) for s, x in self.depth_fact(st, k, idx)):
            pass
        elif lin.nonneg(self, st, ({t: -c for t, c in dic(rem)[0].items()}, -rem[1])):
            pass
        else:
            self.rep(st, i, "loop-exit:" + op, "the jump leaves the loop without having removed exactly the local variables of its body")
        self.put(st, "D", k, ZERO)

    # ---------- emission ----------
    def effect(self, st, i, name, args, leaf):
        if ("dead",) in st.x:
            return []
        A = self.A
        if name == A.emit:
            self.emit(st, i, args)
            return [st] if leaf is None else None
        fn = A.mod.fns.get(name)
        if name is None:
            return self.indirect(st, i, args, leaf)
        if fn is None or fn.decl:
            if name.startswith("llvm.") or name in A.pure:
                return None
            self.bump(st, i)
            return None
        if name in A.errors:
            st.x[("dead",)] = True
            return []
        if name in A.skips and leaf is not None:
            st.x[("skip", leaf)] = tuple(L(a) for a in args)
        self.bump(st, i)
        cp = A.cparam(fn)
        if cp is None:
            return None
        s = A.summ.get(name)
        if s is None:
            return []
        k = args[cp]
        if not s:
            return []
        return self.apply(st, i, k, s, leaf, name in A.quiet)

    def apply(self, st, i, k, s, leaf, quiet=False):
        out = []
        if not self.settle(st, k):
            self.rep(st, i, "scope-end", "a scope is left although local variables declared in it may remain")
        outs = sorted((o for o in s if o[2] is not None or self.toplevel(st, k) is not True), key=str)
        for n, (rv, d, same) in enumerate(outs):
            t = st if n == len(outs) - 1 else st.copy()
            if rv is not None and leaf is not None:
                t.env[i.id] = C(rv[0], rv[1])
            elif leaf is not None:
                t.env[i.id] = leaf
            if not quiet:
                self.fresh(t, i, k, same)
            self.put(t, "D", k, ladd(self.get(t, "D", k), d))
            out.append(t)
        return out

    def fresh(self, st, i, k, same):
        """other code has been compiled meanwhile: how much is not known"""
        self.cnt(st, k)
        for w, a in (("n", self.cnt_addr(st, k)), ("l", self.lc_addr(k))):
            if w == "l" and same:
                continue
            lf = mk("s", "%s%d.%d:%d" % (w, i.blk, i.idx, k.uid))
            for x in [x for x in st.x if x[0] in ("pos", "lab", "half", "re") and lf in leaves(x[2])]:
                if x[0] == "lab":
                    self.rep(st, i, "unpatched", "a jump is left without a target (the loop goes on to the next one)")
                del st.x[x]
            for x in [x for x in st.x if x[0] in ("pos", "lab", "arr") and lf in leaves(st.x[x])]:
                st.x[x] = L(mk("s", "old"))
            self.kill(st, lf)
            st.mem[a] = lf
            st.ints[lf] = (0, 1 << 30) if w == "n" else (1, 256)

    def indirect(self, st, i, args, leaf):
        """a parse rule"""
        if args:
            self.rule_of(st, i, len(args) == 3)
        self.bump(st, i)
        if not args or args[0].op not in ("p", "al"):
            return None
        k = args[0]
        self.n["rule calls"] += 1
        d = ((), 1) if len(args) == 2 else ZERO
        return self.apply(st, i, k, {(None, d, True)}, leaf)

    def rule_of(self, st, i, infix):
        """a parse rule is that of the token just consumed"""
        o = self.A.o
        t = self.T(st, i.x[1])
        a = t.a[0] if t.op == "ld" else t.a[1] if t.op == "h" else None
        off, x = (a.a[1], a.a[0]) if isinstance(a, Term) and a.op == "+" else (0, a)
        if not isinstance(x, Term) or x.op != "idx" or x.a[0] is not mk("g", self.A.rules[0], 0) and x.a[0] is not mk("g", self.A.rules[0]):
            self.rep(st, i, "rule", "the function called to compile an expression is not one from the table of parse rules")
            return
        if (off != 0) != infix:
            self.rep(st, i, "rule", "the function called to compile an expression is not the rule for %s operators" % ("infix" if infix else "prefix"))
        y = x.a[1]
        while y.op in ("zext", "sext", "trunc"):
            y = y.a[0]
        b = y.a[0] if y.op == "ld" else y.a[1] if y.op == "h" and y.a[0] == st.x.get(("ver",)) else None
        if not isinstance(b, Term) or b.op != "+" or b.a[1] != o["Parser", "previous"] + o["LangToken", "type"]:
            self.rep(st, i, "rule", "the parse rule called is not that of the token that was just consumed")

    def emit(self, st, i, args):
        A = self.A
        k = self.comp_of_chunk(st, args[A.echunk])
        if k is None:
            self.rep(st, i, "chunk", "code is written to a chunk that does not belong to a function being compiled")
            return
        b = args[A.ebyte]
        c = self.cnt(st, k)
        st.mem[self.cnt_addr(st, k)] = self.binop("add", c, C(1, 32), 32)
        self.n["bytes"] += 1
        P = self.get(st, "P", k)
        if P[0]:
            e = dic(P)
            fs = lin.facts(self, st)
            if lin.nonneg(self, st, ({t: -x for t, x in e[0].items()}, -e[1]), fs):
                P = ZERO
                self.put(st, "P", k, P)
        if P == ZERO:
            return self.opcode(st, i, k, b, c)
        if P[0] and not lin.nonneg(self, st, (dic(P)[0], P[1] - 1)):
            self.rep(st, i, "operands", "it is not clear whether this byte is an operand or an instruction (%s operand bytes are missing)" % ls(P))
        self.put(st, "P", k, ladd(P, ((), -1)))
        op, n = st.x.get(("O", k), (None, 0))
        st.x[("O", k)] = (op, min(n + 1, 3))
        self.operand(st, i, k, op, n, b, c)
        if self.get(st, "P", k) == ZERO:
            st.x.pop(("O", k), None)

    def opcode(self, st, i, k, b, c):
        A = self.A
        while b.op in ("trunc", "zext", "sext"):
            b = b.a[0]
        iv = self.interval(st, b)
        if b.op != "c" and iv and iv[0] == iv[1]:
            b = C(iv[0], 8)
        if b.op != "c":
            self.rep(st, i, "opcode", "a byte is written where an instruction is expected, and it is not a known instruction")
            return
        op = A.ops.get(b.a[0] & 255)
        if op is None:
            self.rep(st, i, "opcode", "byte %d is written where an instruction is expected; no instruction has this number" % b.a[0])
            return
        self.n["instructions"] += 1
        self.seen_ops.add(op)
        d, nb = A.effect_of(op)
        if d is None and op not in VAR:
            self.rep(st, i, "effect:" + op, "the handler of %s does not have one effect on the operand stack" % op)
            d = 0
        if nb is None:
            self.rep(st, i, "bytes:" + op, "the handler of %s does not read a fixed number of operand bytes" % op)
            nb = 0
        st.x[("O", k)] = (op, 0)
        if nb == 0:
            del st.x[("O", k)]
        self.put(st, "P", k, ((), nb))
        D = self.get(st, "D", k)
        U = ("U", k) in st.x
        # the value of an expression, or what a local variable that has no value yet is going to be replaced by?
        if op in CLOSE and not U and not lin.nonneg(self, st, (dic(D)[0], D[1] - 1 + (("undef", k) in st.x))):
            self.popped_local(st, i, k, op)
        if op == "OP_RETURN" and not U and not D[0] and D[1] < 1:
            self.rep(st, i, "return", "a return instruction is emitted without a value on the stack")
        if op in JUMPS:
            if op == "OP_BREAK":
                self.out_of_loop(st, i, k, op)
                D = ZERO
            jd, fd = JUMPS[op]
            if op != "OP_LOOP" and op != "OP_BREAK":
                st.x[("lab", k, ladd(L(c), ((), 1)))] = ladd(self.height_of(st, k, D), ((), jd))
            if fd is None:
                if op != "OP_LOOP":
                    st.x[("U", k)] = True
            else:
                self.put(st, "D", k, ladd(D, ((), fd)))
            return
        if d is not None:
            self.put(st, "D", k, ladd(D, ((), d)))
        if op == "OP_CLOSURE":
            n = self.upvalues(st, k)
            if n is not None:
                if n.op != "c":
                    st.ints.setdefault(n, (0, 256))
                self.put(st, "P", k, ladd(((), nb), L(n), 2))
        if op == "OP_RETURN":
            st.x[("U", k)] = True

    def upvalues(self, st, k):
        """number of variables captured by the function just compiled (the closure that is emitted)"""
        o = self.A.o
        for a, v in st.mem.items():
            if v is k and a.op == "+" and a.a[1] == o["Compiler", "enclosing"]:
                f = self.plus(self.chunk_ptr(st, a.a[0]), o["ObjFunction", "upvalueCount"] - o["ObjFunction", "chunk"])
                return self.load(st, f, _I4)
        p = self.kp
        a = self.plus(p, o["Compiler", "enclosing"])
        if k is (st.mem.get(a) or mk("ld", a, 8)):
            return self.load(st, self.plus(self.chunk_ptr(st, p), o["ObjFunction", "upvalueCount"] - o["ObjFunction", "chunk"]), _I4)
        return None

    def operand(self, st, i, k, op, n, b, c):
        t = b
        while t.op in ("trunc", "zext", "sext") or t.op == "and" and t.a[1].op == "c" and t.a[1].a[0] == 255:
            t = t.a[0]
        if op in VAR and VAR[op][0] == n:
            self.put(st, "D", k, ladd(ladd(self.get(st, "D", k), L(t), VAR[op][1]), ((), VAR[op][2])))
        if op in MORE and MORE[op][0] == n:
            self.put(st, "P", k, ladd(self.get(st, "P", k), L(t)))
        if op == "OP_LOOP":
            hi = t.op in ("ashr", "lshr") and t.a[1].op == "c" and t.a[1].a[0] == 8
            J = L(t.a[0]) if hi else L(t)
            if hi != (n == 0):
                self.rep(st, i, "loop-bytes", "the bytes of a backward jump are in the wrong order")
                return
            end = ladd(L(c), ((), 2 - n))       # where the instruction ends
            T = ladd(end, J, -1)
            if n == 0:
                st.x[("T", k)] = T
                return
            if st.x.pop(("T", k), None) != T:
                self.rep(st, i, "loop-bytes", "the two bytes of a backward jump do not belong to the same distance")
            self.n["backward jumps"] += 1
            D = self.height(st, k)
            for key, pd in st.x.items():
                if key[0] == "pos" and key[1] is k and self.same(st, key[2], T):
                    if not self.same(st, pd, D):
                        self.rep(st, i, "loop-join", "a backward jump arrives with %s values on the stack where there are %s (slots of local variables included)" % (ls(D), ls(pd)))
                    break
            else:
                d, m = dic(T)
                t = next(iter(d)) if len(d) == 1 and m == 0 else None
                a = None if t is None else t.a[0] if t.op == "ld" else t.a[1] if t.op in ("h", "out") else None
                if isinstance(a, Term) and (a.a[1] if a.op == "+" else 0) == self.A.o["Loop", "start"]:
                    self.out_of_loop(st, i, k, "OP_LOOP")
                else:
                    self.rep(st, i, "loop-target", "a backward jump goes to a place that is not known to be the start of an instruction")
            st.x[("U", k)] = True

    # ---------- loops ----------
    def edge(self, b, t, st):
        if ("dead",) in st.x:
            return []
        # (a counter does not overflow)
        for e, r in st.ints.items():
            if e.op == "add" and e.a[1].op == "c" and ("ind", e.a[0]) in st.x:
                iv = st.ints.get(e.a[0])
                if iv and iv[0] + lin.signed(*e.a[1].a[:2]) > r[1]:
                    return []
        hdr = t in self.headers
        back = hdr and b in self.headers[t]
        # loops that are left: their counters get their final value
        for h, bd in self.headers.items():
            if b in bd and t not in bd:
                self.leave(st, h)
                for k in [k for k in st.x if k[0] in ("B", "now", "fa", "fav") and k[1] == h or k[0] == "ind" and k[1] in self.phis[h] and k[1].a[0] not in self.live[t]]:
                    del st.x[k]
        vars_ = [k for k in st.x if k[0] in ("D", "P")]
        if back:
            steps = {}
            for i in self.fn.blocks[t]:
                if i.op != "phi":
                    break
                if i.ty[:1] == "i" and i.ty != "i1":
                    for v, p in zip(i.ops, i.x):
                        if p == b:
                            steps[i.id] = self.T(st, v)
            names = set(vars_) | {k[2:] for k in st.x if k[0] == "B" and k[1] == t}
            for var in names:
                base = st.x.get(("B", t) + var)
                cur = st.x.get(var, ZERO)
                rel = self.rel.get((t, var), 0)
                if base is None:
                    base = ZERO
                if var[0] == "D" and ("U", var[1]) in st.x and not rel:
                    st.x[var] = base
                    continue
                if rel == 0:
                    exp, nxt = base, base
                else:
                    p, kf = rel
                    exp = ladd(base, L(steps[p]), kf)
                    nxt = ladd(base, L(mk("s", p)), kf)
                self.delta.setdefault((t, var), []).append((ladd(cur, base, -1) if rel == 0 else ZERO, {p: st.x.get(("now", t, p)) for p in steps}, {p: L(v) for p, v in steps.items()}))
                if not self.same(st, cur, exp):
                    self.rep(st, self.fn.blocks[t][0], "loop:%s" % var[0], self.loopmsg(var, ladd(cur, exp, -1)))
                st.x[var] = nxt
            self.scan_step(st, t, steps)
            self.stale(st, t)
            r = super().edge(b, t, st)
            for _, s in r:
                for k in self.comps(s):
                    for a, iv in ((self.cnt_addr(s, k), (0, 1 << 30)), (self.lc_addr(k), (1, 256))):
                        v = s.mem.get(a)
                        if v is not None and v.op == "h":
                            s.ints[v] = iv
                for p in steps:
                    s.x[("now", t, p)] = L(mk("s", p))
            return r
        ent = {}
        if hdr:
            for i in self.fn.blocks[t]:
                if i.op != "phi":
                    break
                if i.ty[:1] == "i" and i.ty != "i1":
                    for v, p in zip(i.ops, i.x):
                        if p == b:
                            ent[i.id] = self.T(st, v)
        for p in ent:
            if p in self.A.scans.get(self.fn.name, ()):
                self.scan_start(st, t, ent[p])
        r = super().edge(b, t, st)
        if hdr:
            for _, s in r:
                for p in ent:
                    s.x[("now", t, p)] = L(mk("s", p)) if p in self.induct else L(ent[p])
                for k in [k for k in s.x if k[0] == "B" and k[1] == t]:
                    del s.x[k]
                allv = {(n, c) for n in ("D", "P") for c in {v[1] for v in vars_} | {self.kp}}
                for var in allv:
                    rel = self.rel.get((t, var), 0)
                    cur = s.x.get(var, ZERO)
                    if rel == 0:
                        s.x[("B", t) + var] = cur
                    else:
                        p, kf = rel
                        s.x[("B", t) + var] = ladd(cur, L(ent[p]), -kf)
                        s.x[var] = ladd(s.x[("B", t) + var], s.x[("now", t, p)], kf)
        return r

    # loops that go through the code that was compiled, from instruction to instruction
    def scan_start(self, st, h, v):
        self.n["scans"] += 1
        a = v.a[0] if v.op == "ld" else v.a[1] if v.op in ("h", "out") else None
        if isinstance(a, Term) and (a.a[1] if a.op == "+" else 0) == self.A.o["Loop", "body"]:
            return
        if any(k[0] == "pos" and self.same(st, k[2], L(v)) for k in st.x):
            return
        self.rep(st, self.fn.blocks[h][0], "scan-start", "the code is searched from a place on that is not known to be the start of an instruction")

    def scan_step(self, st, h, steps):
        for p in steps:
            if p not in self.A.scans.get(self.fn.name, ()):
                continue
            here = st.x.get(("now", h, p)) or L(mk("s", p))
            d = ladd(L(steps[p]), here, -1)
            if not d[0]:
                # over an instruction that is known
                ops = {x for x in range(256) if x in self.A.ops and any(self.code_is(st, None, here, x) for _ in (0,))}
                ops |= {n for k in st.x if k[0] == "was" and k[2] == here for n in (st.x[k],)}
                if ops and all(d[1] == 1 + (self.A.effect_of(self.A.ops[x])[1] or 0) for x in ops):
                    continue
            elif len(d[0]) == 1 and d[0][0][1] == 1 and d[1] == 1 and here in st.x.get(("skip", _t[d[0][0][0]]), ()):
                continue
            self.rep(st, self.fn.blocks[h][0], "scan-step", "the search through the code does not go on to the next instruction")
        for k in [k for k in st.x if k[0] in ("skip", "was")]:
            del st.x[k]

    def stale(self, st, t):
        """places that were known relative to the start of the iteration that ends here"""
        old = lambda l: any(x.op == "h" and x.a[0] == t for x in leaves(l))
        for x in [x for x in st.x if x[0] in ("pos", "lab", "half", "re") and old(x[2])]:
            if x[0] == "lab":
                self.rep(st, self.fn.blocks[t][0], "unpatched", "a jump is left without a target (the loop goes on to the next one)")
            del st.x[x]
        for x in [x for x in st.x if x[0] in ("pos", "lab", "arr") and old(st.x[x])]:
            st.x[x] = L(mk("s", "old"))
        for a in list(st.mem):
            v = st.mem[a]
            if v.leaves and abase(a).op != "al" and any(x.op == "h" and x.a[0] == t for x in v.leaves) and not self.kept(st, a):
                del st.mem[a]

    def written_in(self, hdr, a):
        for k in self.comps(st=None):
            off = a.a[1] if a.op == "+" else 0
            if (a.a[0] if a.op == "+" else a) is k and off in self.A.ckeep:
                names = [n for (s, n), o in self.A.o.items() if s == "Compiler" and o == off]
                return any(i.op == "store" and self.A.is_field(i, "Compiler", names[0]) or names[0] == "localCount" and self.changes_locals(i)
                           for b in self.headers[hdr] for i in self.fn.blocks[b])
        return super().written_in(hdr, a)

    def changes_locals(self, i):
        return i.op == "call" and i.callee not in self.A.quiet and any(not x for _, _, x in self.A.summ.get(i.callee, ()))

    def loopmsg(self, var, d):
        if var[0] == "P":
            return "a repetition of this loop leaves the current instruction with other operand bytes missing (%s)" % ls(d)
        return "each repetition of this loop leaves another number of values on the stack (%s)" % ls(d)

    def leave(self, st, h):
        """the loop's counter has run up to (or down to) the bound the loop tests it against"""
        for var in [k for k in st.x if k[0] in ("D", "P")]:
            cur = st.x[var]
            for u, kf in cur[0]:
                t = _t[u]
                if t.op != "s" or t not in self.phis.get(h, ()):
                    continue
                val = self.final_value(st, h, t)
                if val is not None:
                    cur = ladd(ladd(cur, L(t), -kf), val, kf)
            st.x[var] = cur

    def final_value(self, st, h, t):
        step = self.step_of(h, t.a[0])
        if step not in (1, -1):
            return None
        for c, v in st.truth.items():
            if c.op == "not":
                c, v = c.a[0], not v
            if c.op != "cmp" or c.a[0] not in ("slt", "ult"):
                continue
            x, y = L(c.a[1]), L(c.a[2])
            one = ((t.uid, 1),)
            # unit steps from a start that does not lie beyond the bound: equal to the bound when first past it
            if step == 1 and not v and x[0] == one and not any(u == t.uid for u, _ in y[0]):       # not t+n < y
                return ladd(y, ((), x[1]), -1)
            if step == -1 and not v and y[0] == one and not any(u == t.uid for u, _ in x[0]):      # not x < t+n
                return ladd(x, ((), y[1]), -1)
            if step == -1 and v and x[0] == one and not any(u == t.uid for u, _ in y[0]):          # t+n < y
                return ladd(y, ((), x[1] + 1), -1)
        for c, v in st.truth.items():
            if c.op == "cmp" and c.a[0] == "eq" and v:
                x, y = L(c.a[1]), L(c.a[2])
                if x[0] == ((t.uid, 1),) and not y[0]:
                    return ladd(y, ((), x[1]), -1)
        return None

    def step_of(self, h, pid):
        i = self.fn.defs.get(pid)
        if i is None or i.op != "phi":
            return None
        s = set()
        for v, p in zip(i.ops, i.x):
            if p in self.headers[h]:
                e = self.fn.defs.get(v) if isinstance(v, int) else None
                if e is None or e.op != "add" or e.ops[0] != pid or not isinstance(e.ops[1], tuple) or e.ops[1][0] != "c":
                    return None
                s.add(lin.signed(e.ops[1][1], e.ops[1][2]))
        return s.pop() if len(s) == 1 else None

    # ---------- end ----------
    def saw_ret(self, st, i, v):
        if ("dead",) in st.x:
            return
        p = self.kp
        for k in [k for k in st.x if k[0] == "P" and st.x[k] != ZERO]:
            e = dic(st.x[k])
            if not (e[0] and lin.nonneg(self, st, ({t: -x for t, x in e[0].items()}, -e[1]))):
                self.rep(st, i, "unfinished", "the last instruction emitted lacks operand bytes (%s)" % ls(st.x[k]))
        for k in [k for k in st.x if k[0] == "lab"]:
            self.rep(st, i, "unpatched", "a jump is emitted that is never given a target")
        for k in self.compals:
            if ("D", k) in st.x:
                self.n["functions"] += 1
                if ("U", k) not in st.x:
                    self.rep(st, i, "no-return", "the code of a function does not end with a return instruction")
        if self.cp is None:
            return
        if ("undef", p) in st.x:
            self.rep(st, i, "undefined", "a local variable is declared but never becomes usable: it is neither found nor removed when its scope ends")
        if not self.settle(st, p):
            self.rep(st, i, "scope-end", "a scope is left although local variables declared in it may remain")
        if st.x.get(("sc", p)):
            self.rep(st, i, "scope", "a scope that is entered is not left again")
        D = self.get(st, "D", p)
        rv = None
        if v is not None and v.op == "c":
            rv = v.a
        la = self.lc_addr(p)
        N = ladd(L(self.load_lc(st, p)), L(mk("ld", la, 4)), -1)
        same = N == ZERO
        if not same and self.toplevel(st, p) is False:
            same = None
        self.outs.add((rv, ladd(D, self.entry, -1), same))


class _I4:
    x, ty, op = 4, "i32", "virtual"


def abase(t):
    return flow.abase(t)


LOUD = (("Compiler", "localCount"), ("Chunk", "count"), ("Compiler", "scopeDepth"), ("ObjFunction", "arity"))


class Analysis:
    def __init__(self, ctx):
        self.ctx = ctx
        raw = frontend.load(ALONE, only=["vm/compiler.c", "vm/chunk.c"])
        self.mod = ir.Module(raw)
        self.K = ctx.K
        T = self.T = Types(self.mod, self.K)
        self.o = {}
        for s in ("Compiler", "Chunk", "Parser", "Local", "Loop", "ObjFunction", "LangToken"):
            for m in T.st(s)["m"]:
                self.o[s, m[0]] = m[1]
        self.names = {k: {k, "s" + k} for k, _ in self.o}
        self.o["sizeof", "Local"] = T.st("Local")["size"] if "size" in T.st("Local") else 32
        self.ops = {v: n for n, v in handlers.opcodes(self.mod)}
        self.cntoffs = {self.o["ObjFunction", "chunk"] + self.o["Chunk", "count"], self.o["Chunk", "count"]}
        o = self.o
        self.cstable = {o["Compiler", n] for n in ("parser", "enclosing", "class", "function", "type", "scopeDepth")}
        self.ckeep = self.cstable | {o["Compiler", n] for n in ("localCount", "loop")}
        self.pure = {"memcmp", "strlen", "strncmp", "strcmp"}
        self.summ, self.quiet, self.scans, self.skips = {}, set(), {}, set()
        e = [f for f in self.mod.fns.values() if f.disp == "writeChunk"]
        if not e:
            raise RuntimeError("code emission primitive not found")
        self.emit = e[0].name
        tys = e[0].ditys[1:]
        self.echunk, self.ebyte = tys.index("Chunk*"), 2
        # functions that only report an error
        cand = [f for f in self.mod.fns.values() if not f.decl and "Compiler*" not in f.ditys[1:] and f.ret == "void"]
        self.errors = {f.name for f in cand if any(i.op == "store" and self.is_field(i, "Parser", "hadError") and isinstance(i.ops[0], tuple) and
                                                   i.ops[0][0] == "c" and i.ops[0][1] & 1 for i in f.insts())}
        for _ in range(4):
            self.errors |= {f.name for f in cand if any(i.op == "call" and i.callee in self.errors for i in f.blocks[0])}
        self.vm = vm_table(ctx)
        self.fns = [f for f in self.mod.fns.values() if not f.decl and self.cparam(f) is not None]
        sig = lambda f: f.ret == "void" and self.cparam(f) == 0 and len(f.args)
        self.prefix = {f.name for f in self.fns if f.taken and sig(f) == 2}
        self.infix = {f.name for f in self.fns if f.taken and len(f.args) > 2}
        # functions that compile nothing: they neither emit nor declare, and call nothing that does
        loud = {self.emit}
        while True:
            n = len(loud)
            for f in self.fns:
                if f.name not in loud and any(i.op == "call" and (i.callee is None or i.callee in loud) or i.op == "store" and
                                              any(self.is_field(i, *x) for x in LOUD) for i in f.insts()):
                    loud.add(f.name)
            if len(loud) == n:
                break
        self.quiet = {f.name for f in self.fns if f.name not in loud}
        for n in self.quiet:
            self.summ[n] = {(None, ZERO, True)}

    def is_field(self, i, s, fld):
        """the store (or load) accesses this member (judged by the access path)"""
        o = i.ops[-1]
        d = i.fn.defs.get(o) if isinstance(o, int) else None
        if d is None or d.op != "getelementptr" or not d.x["path"]:
            return False
        n, _, off = d.x["path"][-1]
        if s == "Chunk" and off == self.o["ObjFunction", "chunk"] + self.o[s, fld] and "ObjFunction" in n:
            return True
        return off == self.o[s, fld] and re.sub(r"\.\d+$", "", n.replace("struct.", "")) in self.names[s]

    def cparam(self, fn):
        t = fn.ditys[1:]
        return t.index("Compiler*") if "Compiler*" in t else None

    def alike(self, a, b):
        if a in JUMPS and b in JUMPS:
            return JUMPS[a] == JUMPS[b]
        return self.effect_of(a) == self.effect_of(b)

    def effect_of(self, op):
        """(stack effect or None, operand bytes or None) of an instruction"""
        hs, ns = self.vm.get(op, (set(), set()))
        d = next(iter(hs)) if len(hs) == 1 else None
        n = next(iter(ns)) if len(ns) == 1 else None
        if op in JUMPS:
            return 0, 2
        if op in FIX:
            fd, fn = FIX[op]
            return fd if d is None else d, fn if n is None else n
        return d, n

    def tables(self):
        """what is written down above about instructions whose handlers cannot be summarised must not contradict the handlers"""
        for op in sorted(set(FIX) | set(VAR) | set(JUMPS)):
            hs, ns = self.vm.get(op, (set(), set()))
            if not hs:
                continue
            known = {h for h in hs if h is not None}
            if op in JUMPS:
                if None not in hs and known - set(x for x in JUMPS[op] if x is not None):
                    yield op, "a jump instruction that changes the number of values on the stack by %s" % sorted(known)
                if op == "OP_COMPARE_JUMP" and len(known) == 1:
                    yield op, "a comparing jump that removes as many values whether or not it jumps"
                if ns and ns != {2} and op != "OP_BREAK":
                    yield op, "a jump instruction that reads %s operand bytes" % sorted(ns)
            elif op in VAR:
                if len(hs) == 1 and None not in hs:
                    yield op, "its effect on the stack does not depend on its operand"
                if ns and FIX.get(op, (0, None))[1] is not None and ns != {FIX[op][1]}:
                    yield op, "it reads %s operand bytes before it uses them" % sorted(ns)


def phis_of(fn):
    r = {}
    for h in fn.cfg()["loops"]:
        r[h] = {mk("s", i.id) for i in fn.blocks[h] if i.op == "phi"}
    return r


def one(A, fn, init, rel, final):
    f = EmitFlow(A.mod, fn, A.K, [Emit()])
    f.A, f.cp, f.rel, f.delta = A, A.cparam(fn), dict(rel), {}
    f.kp = mk("p", f.cp) if f.cp is not None else None
    f.bad, f.outs, f.chunks, f.kept_arrays, f.patched_arrays, f.seen_ops = {}, set(), {}, {}, set(), set()
    f.phis = phis_of(fn)
    f.keepal = {mk("al", i.id) for i in fn.insts() if i.op == "alloca" and re.sub(r"\.\d+$", "", str(i.x["ty"])) in ("struct.Compiler", "struct.Loop", "i32", "i64", "ptr", "i8", "i1")}
    f.compals = {mk("al", i.id) for i in fn.insts() if i.op == "alloca" and re.sub(r"\.\d+$", "", str(i.x["ty"])) == "struct.Compiler"}
    f.n = {k: 0 for k in COUNTS}
    f.final = final
    st = new_state()
    if f.kp is None:
        f.kp = sorted(f.compals, key=lambda t: t.a[0])[0]       # the compiler of the file
    else:
        st.truth[f.cmp("eq", f.kp, C(0, 64), 64)] = False
    f.entry = ZERO
    if fn.name in A.infix:
        f.entry = ((), 1)
        f.put(st, "D", f.kp, f.entry)
    if init:
        init(f, st)
    f.run(st)
    return f


COUNTS = ("scans", "functions", "bytes", "instructions", "patches", "backward jumps", "locals", "locals popped", "loop exits", "rule calls", "truncations", "rewritten", "breaks patched")


def relation(ds):
    """how a count changes with a loop: 0 (not at all) or (counter, factor)"""
    if all(d[0] == ZERO for d in ds):
        return 0
    for p in ds[0][1]:
        ks = set()
        for d, now, nxt in ds:
            if now.get(p) is None or p not in nxt:
                ks.add(None)
                continue
            s = ladd(nxt[p], now[p], -1)
            if not s[0] and not s[1] and d == ZERO:
                continue
            ks.add(d[1] // s[1] if not s[0] and not d[0] and s[1] and d[1] % s[1] == 0 else None)
        if len(ks) == 1 and None not in ks:
            return (p, ks.pop())
    return 0


def relations(A, fn, init=None):
    """how the counts change with each loop of the function"""
    rel = {}
    if fn.cfg()["loops"]:
        for rnd in range(8):
            f = one(A, fn, init, rel, False)
            new = dict(rel)
            for key, ds in f.delta.items():
                if not rel.get(key):
                    new[key] = relation(ds)
            if new == rel:
                break
            rel = new
    return rel


def analyse(A, fn, init=None):
    """outcomes of one function: {(returned constant, change of the stack depth, unreachable)}"""
    return one(A, fn, init, relations(A, fn, init), True)


def const(outs):
    """outcomes in a form that can be passed between processes"""
    return {(r, d if not d[0] else ("?" + ls(d), 0), n) for r, d, n in outs}


def solve(A, roots):
    """effects of all functions: a guess that is confirmed (or refined) until it holds for every function assuming it for its callees"""
    for rnd in range(10):
        def work(items):
            return [(n, const(one(A, A.mod.fns[n], None, relations(A, A.mod.fns[n]), False).outs)) for n in items]
        new = {}
        for part in nativerun.parallel(roots, work):
            new.update(part)
        same = True
        for n, o in new.items():
            o = {x for x in o if isinstance(x[1][0], tuple)}
            if o and o != A.summ.get(n):
                A.summ[n], same = o, False
        if same:
            return rnd
    return None


def flat(v, n, out):
    """the scalars of an initialiser, n to a record"""
    if v[0] == "a" and len(v) > 1 and isinstance(v[1], list):
        subs = v[1:]
        if len(subs) == n and not any(x[0] == "a" for x in subs) and any(x[0] in ("fn", "n", "c") for x in subs):
            out.append(subs)
        else:
            for x in subs:
                flat(x, n, out)
    elif v[0] == "z":
        out.append([("z",)] * n)


def rules(A):
    """[(token, prefix rule, infix rule, precedence)] from the table of parse rules"""
    best = None
    for n, g in A.mod.globals.items():
        i = g.get("init")
        if i and i[0] == "a" and any(f in str(i) for f in A.prefix):
            out = []
            flat(i, 3, out)
            if best is None or len(out) > len(best[1]):
                best = (n, out)
    if best is None:
        raise RuntimeError("table of parse rules not found")
    tok = None
    for n, d in A.mod.enums.items():
        if "TOKEN_EOF" in d and "TOKEN_IDENTIFIER" in d:
            tok = {v: k for k, v in d.items()}
    r = []
    for t, (p, i, c) in enumerate(best[1]):
        fn = lambda x: A.mod.fns[x[1]] if x[0] == "fn" else None
        r.append((tok.get(t, str(t)), t, fn(p), fn(i), c[1] if c[0] == "c" else 0))
    return best[0], r


# ---------- the table used to skip over instructions ----------
def skip_table(A):
    """[(function, instruction, what it returns, what is wrong)] for functions that tell how many operand bytes an instruction has"""
    out = []
    for fn in A.mod.fns.values():
        if fn.decl or fn.ret != "i32" or A.cparam(fn) is not None:
            continue
        sw = [b[-1] for b in fn.blocks if b[-1].op == "switch"]
        if len(sw) == 1 and sum(1 for v, _ in sw[0].x[1:] if v in A.ops) >= 30:
            for v, op in sorted(A.ops.items()):
                if op != "OP_BREAK":        # (handled before, by what looks for it)
                    r = lengths(A, fn, sw[0], v)
                    out.append((fn, op, [ls(x) for x in r], None if r and all(length_ok(A, op, x) for x in r) else True))
    return out


def length_ok(A, op, l):
    nb = A.effect_of(op)[1]
    d, n = dic(l)
    if n != nb:
        return False
    if op != "OP_CLOSURE" and op not in MORE:
        return not d
    if len(d) != 1:
        return False
    t, k = next(iter(d.items()))
    while t.op in ("zext", "sext", "trunc"):
        t = t.a[0]
    a = t.a[0] if t.op == "ld" else t.a[1] if t.op == "h" else None
    if not isinstance(a, Term):
        return False
    if op == "OP_CLOSURE":
        return k == 2 and a.op == "+" and a.a[1] == A.o["ObjFunction", "upvalueCount"]
    off, b = (a.a[1], a.a[0]) if a.op == "+" else (0, a)
    if k != 1 or b.op != "idx" or b.a[2] != 1:
        return False
    e, m = lin.lin(b.a[1])
    return len(e) == 1 and all(c == 1 and (x.op == "p" or x.op in ("sext", "zext") and x.a[0].op == "p") for x, c in e.items()) and m + off == 1 + MORE[op][0]


def lengths(A, fn, sw, v):
    """what is returned for one instruction"""
    src = sw.ops[0]
    while isinstance(src, int) and fn.defs[src].op in ("zext", "sext", "trunc"):
        src = fn.defs[src].ops[0]

    class F(flow.Flow):
        def load(self, st, a, i):
            return C(v, 8) if i.id == src else super().load(st, a, i)

    class R(Client):
        def on_ret(self, f, st, i, x):
            res.append(L(x))
    res = []
    F(A.mod, fn, A.K, [R()]).run(new_state())
    return res


# ---------- run ----------
def at(fn):
    return "%s:%s in %s()" % (fn.file, fn.line, fn.disp)


def run(ctx):
    A = Analysis(ctx)
    table, rl = A.rules = rules(A)
    sk = skip_table(A)
    A.skips = {fn.name for fn, _, _, _ in sk}
    ref = {i.callee for f in A.mod.fns.values() if not f.decl for i in f.insts() if i.op == "call"}
    roots = [f.name for f in A.fns if f.name not in A.quiet and (f.name in ref or f.taken)]
    tops = [f.name for f in A.mod.fns.values() if not f.decl and A.cparam(f) is None and
            any(i.op == "alloca" and re.sub(r"\.\d+$", "", str(i.x["ty"])) == "struct.Compiler" for i in f.insts())]
    roots.sort(key=lambda n: -len(A.mod.fns[n].blocks))
    rounds = solve(A, roots)
    ctx.require(len(roots), 25, "functions that compile constructs")
    ctx.require(len(tops), 1, "function that compiles a file")
    if rounds is None:
        ctx.violation("fixpoint", "vm/compiler.c", "the effects of the functions of the compiler on the stack do not agree with each other")
        return
    for n in roots:
        outs = A.summ.get(n)
        fn = A.mod.fns[n]
        if outs is None:
            ctx.violation("%s:none" % fn.disp, at(fn), "no way through %s is found on which it compiles something" % fn.disp)

    ruled = {}
    for name, v, pre, inf, prec in rl:
        if pre is not None:
            ruled.setdefault(pre.name, []).append((name, v, 1))
        if inf is not None:
            ruled.setdefault(inf.name, []).append((name, v, 0))
        elif prec:
            ctx.violation("rules:" + name, "vm/compiler.c", "%s is given a precedence as an operator but no function that compiles it" % name)
    jobs = [(n, None, None, None) for n in roots + tops] + [(n, t, v, e) for n in ruled for t, v, e in ruled[n]]
    jobs.sort(key=lambda j: -len(A.mod.fns[j[0]].blocks))
    o = A.o

    def work(items):
        out = []
        for n, tok, v, want in items:
            fn = A.mod.fns[n]

            def init(f, st):
                par = f.load_ptr(st, f.plus(f.kp, o["Compiler", "parser"]))
                st.mem[f.plus(par, o["Parser", "previous"] + o["LangToken", "type"])] = C(v, 32)
            try:
                f = analyse(A, fn, init if tok else None)
            except flow.Abort as e:
                out.append((n, tok, want, None, {"abort": (at(fn), "the function is too complex to be followed (%s)" % e, [])}, {}, set(), set()))
                continue
            arr = {t for t in f.kept_arrays if t not in f.patched_arrays}
            bad = dict(f.bad)
            for t in arr:
                i = f.kept_arrays[t]
                bad["unpatched-array"] = (i.where(), "jumps are collected that are never given a target", [])
            out.append((n, tok, want, const(f.outs), bad, f.n, f.seen_ops, set()))
        return out
    total = {k: 0 for k in COUNTS}
    seen = set()
    checked = 0
    for part in nativerun.parallel(jobs, work):
        for n, tok, want, outs, bad, cnt, ops, _ in part:
            fn = A.mod.fns[n]
            if tok is None:
                for k in cnt:
                    total[k] += cnt[k]
                seen |= ops
                for key, (where, msg, path) in sorted(bad.items()):
                    ctx.violation("%s:%s" % (fn.disp, key), where, msg, path)
                if outs is not None and n not in ruled and n not in tops:
                    ds = {d for _, d, _ in outs}
                    if any(isinstance(d[0], str) for d in ds):
                        ctx.violation("%s:effect" % fn.disp, at(fn), "%s compiles code that leaves a number of values on the stack that is not fixed (%s)" %
                                      (fn.disp, ", ".join(d[0][1:] for d in ds if isinstance(d[0], str))))
                    elif len({(r, d) for r, d, _ in outs}) != len({r for r, d, _ in outs}):
                        ctx.violation("%s:effect" % fn.disp, at(fn), "%s compiles code that leaves different numbers of values on the stack (%s)" %
                                      (fn.disp, " or ".join(sorted(ls(d) for d in ds))))
            else:
                checked += 1
                for r, d, same in sorted(outs or (), key=str):
                    if d != ((), want):
                        ctx.violation("%s:%s" % (fn.disp, tok), at(fn), "compiling %s by %s leaves %s values on the stack instead of %d" %
                                      (tok, fn.disp, d[0][1:] if isinstance(d[0], str) else d[1] + (want == 0), want + (want == 0)))
                    if same is not True:
                        ctx.violation("%s:%s:locals" % (fn.disp, tok), at(fn), "compiling the expression %s declares a local variable" % tok)
                for key in ("abort",):
                    if key in bad:
                        ctx.violation("%s:%s" % (fn.disp, key), bad[key][0], bad[key][1])
    for op, msg in A.tables():
        ctx.violation("effect:" + op, "vm/vm.c", "%s: %s" % (op, msg))
    ctx.require(len(sk), 60, "instructions in the table of operand bytes")
    for fn, op, said, bad in sk:
        if bad and op in seen:
            ctx.violation("length:" + op, at(fn), "%s says %s has %s operand bytes, its handler reads %s" % (fn.disp, op, " or ".join(said), A.effect_of(op)[1]))
    ctx.cov.update(total)
    ctx.cov.update({"functions of the compiler": len(roots) + len(tops), "rounds": rounds, "parse rules": checked, "tokens": len(rl), "instructions emitted (kinds)": len(seen),
                    "instructions with known handlers": len(A.vm), "instruction lengths compared": len(sk)})
    for k, n in (("bytes", 500), ("instructions", 300), ("patches", 50), ("backward jumps", 4), ("locals", 50), ("locals popped", 10), ("loop exits", 4), ("rule calls", 2),
                 ("truncations", 1), ("breaks patched", 2), ("functions", 3)):
        ctx.require(total[k], n, k)
    ctx.require(checked, 35, "parse rules")
    ctx.require(len(seen), 60, "kinds of instructions")
