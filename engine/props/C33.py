"""Fixed-size tables and buffers are never overrun: every index into an array whose size is written in its type, every offset from
such an array, and every length given to a library call that fills one, lies inside it on every path (whole-program intervals)."""
import re
import frontend, ir, interval
from interval import width

# what is not a matter of ranges: (function the access is written in, size) -> why
ELSEWHERE = {
    ("run", 255): "the argument count was compared with the arity when the call was made",
    ("parseIp4", 4): "inet_pton accepted the text, so it has four parts",
    ("defineVariable", 256): "a local was declared before it is defined (C26), so there is a last one",
}
LOWER = {("defineVariable", 256)}      # only the lower end is left to the reason above

SIZED = {  # library call: (destination, length in bytes)
    "snprintf": (0, 1), "vsnprintf": (0, 1), "strftime": (0, 1), "fgets": (0, 1), "getcwd": (0, 1), "readlink": (1, 2),
    "recv": (1, 2), "read": (1, 2), "recvfrom": (1, 2), "gethostname": (0, 1), "memcpy": (0, 2), "memmove": (0, 2), "memset": (0, 2),
    "strncpy": (0, 2), "strncat": None, "inet_ntop": (2, 3), "getrandom": (0, 1), "getentropy": (0, 1), "strerror_r": (1, 2),
    "getpeername": None, "fread": (0, (1, 2)), "explicit_bzero": (0, 1), "_tc_set": (0, 2),
}
SOURCE = {"memcpy": (1, 2), "memmove": (1, 2), "write": (1, 2), "send": (1, 2), "fwrite": (0, (1, 2)), "memcmp": (0, 2)}
FIXED = {"uuid_unparse_lower": (1, 37), "uuid_unparse": (1, 37), "uuid_unparse_upper": (1, 37), "realpath": (1, 4096), "asctime_r": (1, 26), "ctime_r": (1, 26),
         "inet_pton": (2, {2: 4, 10: 16}), "uuid_generate": (0, 16), "uuid_generate_random": (0, 16), "uuid_generate_time": (0, 16), "uuid_copy": (0, 16)}
UNSIZED = {"strcpy": (0, 1), "strcat": (0, 1), "stpcpy": (0, 1), "sprintf": (0, None), "vsprintf": (0, None), "gets": (0, None)}


def tysize(mod, ty):
    m = re.match(r"^\[(\d+) x (.*)\]$", ty)
    if m:
        e = tysize(mod, m.group(2))
        return None if e is None else int(m.group(1)) * e
    w = width(ty)
    if w:
        return (w + 7) // 8
    if ty == "ptr" or ty == "double":
        return 8
    s = mod.structs.get(ty.lstrip("%"))
    return s["size"] if s else None


class An:
    def __init__(self, ctx, W, mod):
        self.ctx, self.W, self.mod = ctx, W, mod
        self.n = dict(indexes=0, offsets=0, lengths=0, counted=0)
        self.left, self.open = {}, 0
        self.tables = set()
        for n, g in mod.globals.items():
            i = g["init"]
            if g["ty"].startswith("[") and i and i[0] == "a" and self.zero(i[-1]):
                self.tables.add(n)

    def zero(self, c):
        return c[0] in ("z", "n") or c[0] == "c" and c[1] == 0 or c[0] == "a" and all(self.zero(x) for x in c[1:])

    def fn(self, f, a):
        self.f, self.a = f, a
        self.loop = any(i.op == "indirectbr" for i in f.insts())
        self.sentinels = self.scans(f) if self.tables else set()
        a.visit(self.hook)

    def scans(self, f):
        """tables that end in an empty row and whose entries the function compares with nothing"""
        out = set()
        for i in f.insts():
            if i.op == "icmp" and (i.ops[1] == ("n",) or i.ops[1][0:1] == ("c",) and i.ops[1][1] == 0 if not isinstance(i.ops[1], int) else False):
                x = i.ops[0]
                for _ in range(4):
                    d = f.defs.get(x) if isinstance(x, int) else None
                    if d is None or d.op not in ("load", "getelementptr"):
                        break
                    x = d.ops[0]
                if isinstance(x, tuple) and x[0] == "g":
                    out.add(x[1])
        return out & self.tables

    def at(self, st, o, d=0):
        """(size, low, high) of the fixed-size object an address points into and where; None when it is not known to be one"""
        if not isinstance(o, int):
            if o[0] == "g":
                g = self.mod.globals.get(o[1])
                if g and g["size"] and g["ty"].startswith("["):
                    return g["size"], o[2], o[2]
            return None
        i = self.f.defs.get(o)
        if i is None or d > 8:
            return None
        if i.op == "alloca":
            if i.x["ty"].startswith("[") and i.x["size"]:
                return i.x["size"], 0, 0
            return None
        if i.op != "getelementptr":
            return None
        if i.x["res"].startswith("[") and i.x["path"]:
            s = tysize(self.mod, i.x["res"])
            if s is not None and not i.x["res"].startswith(("[0 ", "[1 ")):
                return s, 0, 0
            return None
        b = self.at(st, i.ops[0], d + 1)
        if b is None:
            if i.x["arr"] and i.x["path"] and not i.x["src"].startswith("["):
                # member array indexed in one step: its own index is checked; the element is inside
                return None
            return None
        lo, hi = b[1] + i.x["off"], b[2] + i.x["off"]
        for v, s in i.x["v"]:
            r = self.a.ev(st, v) if not isinstance(v, list) else None
            if r is None:
                return None
            p = (r[0] * s, r[1] * s)
            lo, hi = lo + min(p), hi + max(p)
        return b[0], lo, hi

    def inner(self, i):
        return i.loc[0][2] if i.loc else self.f.disp

    def grows(self, i, ix):
        """the member the index was read from is about to grow by one, and was not changed since: there is room for one more"""
        k = interval.member(self.f, ix)
        w = [u for u in self.f.insts() if u.op == "store" and u.fld and tuple(u.fld) == k and isinstance(u.ops[0], int)]
        return len(w) == 1 and w[0].blk == i.blk and w[0].idx > self.f.defs[self.read(ix)].idx and self.f.defs[self.read(ix)].blk == i.blk

    def read(self, o):
        while self.f.defs[o].op != "load":
            o = self.f.defs[o].ops[0]
        return o

    def operand(self, o):
        """in the interpreter loop: a byte of the code, or what it selects"""
        if not self.loop:
            return False
        for _ in range(6):
            i = self.f.defs.get(o) if isinstance(o, int) else None
            if i is None:
                return False
            if i.op == "load":
                return i.ty == "i8"
            if i.op not in ("zext", "sext", "trunc"):
                return False
            o = i.ops[0]
        return False

    def known(self, i, n):
        """the exemption for this array in the function the access is written in, or one that it is part of"""
        for l in i.loc or ():
            if (l[2], n) in ELSEWHERE:
                return l[2], n
        return (self.f.disp, n) if (self.f.disp, n) in ELSEWHERE else None

    def bad(self, i, kind, what, msg):
        fn = self.inner(i)
        self.ctx.violation("%s/%s: %s %s" % (self.f.file if not i.loc else i.loc[0][0], fn, kind, what), i.where(), "%s: %s" % (fn, msg))

    def hook(self, st, i):
        if i.op == "getelementptr":
            for n, ix in i.x["arr"]:
                if n < 2:
                    continue
                ix = tuple(ix) if isinstance(ix, list) else ix
                r = self.a.ev(st, ix)
                if isinstance(ix, tuple) and ix[0] != "c":
                    continue
                self.n["indexes"] += 1
                if r and 0 <= r[0] and r[1] < n:
                    continue
                if r and 0 <= r[0] and r[1] == n and not self.touched(i.id):
                    continue          # one past the end, not used as an element
                if r and r[0] >= 0 and self.W.cap.get(interval.member(self.f, ix), n + 1) <= n and self.grows(i, ix):
                    self.n["counted"] += 1
                    continue
                if self.operand(ix) or isinstance(i.ops[0], tuple) and i.ops[0][0] == "g" and i.ops[0][1] in self.sentinels:
                    continue
                k = self.known(i, n)
                if k and not (k in LOWER and (not r or r[1] >= n)):
                    self.left[k] = ELSEWHERE[k]
                    continue
                self.bad(i, "index", "[%d]" % n, "index %s of an array of %d elements" % (self.show(r), n))
            return
        if i.op in ("load", "store"):
            o = i.ops[0] if i.op == "load" else i.ops[1]
            d = self.f.defs.get(o) if isinstance(o, int) else None
            if d is None or d.op != "getelementptr" or d.x["arr"] or not d.x["v"]:
                return
            b = self.at(st, o)
            if b is None:
                return
            size = i.x if isinstance(i.x, int) else 1
            self.n["offsets"] += 1
            if b[1] >= 0 and b[2] + size <= b[0]:
                return
            k = self.known(i, b[0])
            if k:
                self.left[k] = ELSEWHERE[k]
                return
            self.bad(i, "offset", "of %d bytes" % b[0], "bytes %s of a block of %d are used" % (self.show((b[1], b[2] + size - 1)), b[0]))
            return
        if i.op == "call" and i.callee:
            g = self.mod.fns.get(i.callee)
            if g is not None and not g.decl:
                return
            n = i.callee
            if n.startswith("llvm.mem"):
                n = n.split(".")[1]
            for table, verb in ((SIZED, "writes"), (SOURCE, "reads")):
                t = table.get(n)
                if not t or len(i.ops) <= t[0]:
                    continue
                b = self.at(st, i.ops[t[0]])
                if b is None:
                    continue
                ls = [self.a.evt(st, i.ops[k], 64) for k in (t[1] if isinstance(t[1], tuple) else (t[1],))]
                if any(x is None for x in ls):
                    continue
                hi = 1
                for x in ls:
                    hi = hi * x[1] if x[0] >= 0 else 1 << 64
                self.n["lengths"] += 1
                if b[1] >= 0 and (b[2] + hi <= b[0] or self.rest(st, i.ops[t[0]], i.ops[t[1]], b) if not isinstance(t[1], tuple) else b[2] + hi <= b[0]):
                    continue
                self.bad(i, "length", "%s into %d" % (n, b[0]), "%s() %s up to %s bytes at offset %s of a block of %d" %
                         (n, verb, self.show((hi, hi)), self.show((b[1], b[2])), b[0]))
            t = FIXED.get(n)
            if t and len(i.ops) > t[0]:
                b, w = self.at(st, i.ops[t[0]]), t[1]
                if isinstance(w, dict):
                    r = self.a.evt(st, i.ops[0], 32)
                    w = w.get(r[0] if r and r[0] == r[1] else None, max(w.values()))
                if b is not None:
                    self.n["lengths"] += 1
                    if b[1] < 0 or b[2] + w > b[0]:
                        self.bad(i, "length", "%s into %d" % (n, b[0]), "%s() writes %d bytes at offset %s of a block of %d" % (n, w, self.show((b[1], b[2])), b[0]))
            t = UNSIZED.get(n)
            if t:
                b = self.at(st, i.ops[t[0]])
                if b is not None:
                    self.n["lengths"] += 1
                    s = self.mod.strlit(ir.mk("g", i.ops[t[1]][1], i.ops[t[1]][2])) if t[1] is not None and isinstance(i.ops[t[1]], tuple) and i.ops[t[1]][0] == "g" else None
                    if n == "sprintf":
                        s = self.bounded(st, i)
                    if s is None or b[2] + len(s) + 1 > b[0]:
                        self.bad(i, "length", "%s into %d" % (n, b[0]), "%s() does not stop at the end of a block of %d bytes" % (n, b[0]))

    def strip(self, st, o):
        while isinstance(o, int):
            o = self.a.canon(st, o)
            i = self.f.defs.get(o)
            if i is None or i.op not in ("zext", "sext", "trunc"):
                break
            o = i.ops[0]
        return o

    def rest(self, st, p, n, b):
        """the length is what is left of the block after the offset: c - x bytes at offset x"""
        p = self.f.defs.get(p) if isinstance(p, int) else None
        if p is None or p.op != "getelementptr" or len(p.x["v"]) != 1 or p.x["v"][0][1] != 1:
            return False
        q = self.at(st, p.ops[0])
        x = self.strip(st, p.x["v"][0][0])
        d = self.f.defs.get(self.strip(st, n))
        if q is None or q[1] != q[2] or d is None or d.op != "sub" or isinstance(d.ops[0], int) or d.ops[0][0] != "c" or not isinstance(d.ops[1], int):
            return False
        r = self.a.ev(st, x)
        return self.strip(st, d.ops[1]) == x and r is not None and 0 <= r[0] and r[1] <= d.ops[0][1] and q[1] + p.x["off"] + d.ops[0][1] <= b[0]

    def bounded(self, st, i):
        """longest text a sprintf can produce, when it has only numbers in it"""
        o = i.ops[1]
        t = self.mod.strlit(ir.mk("g", o[1], o[2])) if isinstance(o, tuple) and o[0] == "g" else None
        if t is None:
            return None
        out, k = re.sub(r"%(-?0?)(\d*)(\.\d+)?(hh|h|ll|l|z)?([a-zA-Z%])", "", t), 2
        for m in re.finditer(r"%(-?0?)(\d*)(\.\d+)?(hh|h|ll|l|z)?([a-zA-Z%])", t):
            c = m.group(5)
            if c == "%":
                out += c
                continue
            if c in "dxuXic":
                n = {"c": 1}.get(c) or max(int(m.group(2) or 0), self.digits(st, i.ops[k], c))
                out += "x" * n
                k += 1
            else:
                return None
        return out

    def digits(self, st, o, c):
        r = self.a.ev(st, o)
        if r is None:
            return 20
        if c in "xX":
            return (len("%x" % r[1])) if r[0] >= 0 else 16
        if c == "u" and r[0] < 0:
            return 20
        return max(len(str(r[0])), len(str(r[1])))

    def touched(self, x, d=0):
        """the element is loaded or stored (not only pointed to)"""
        return any(u.op == "load" or u.op == "store" and k == 1 or u.op == "call" or u.op == "getelementptr" and d < 4 and self.touched(u.id, d + 1) for u, k in self.f.uses[x])

    @staticmethod
    def show(r):
        if r is None:
            return "?"
        t = lambda v: "any" if abs(v) >= (1 << 31) - 2 else str(v)
        return t(r[0]) if r[0] == r[1] else "%s..%s" % (t(r[0]), t(r[1]))


def dead(mod):
    """functions that every caller got a copy of, or that nothing calls: nothing runs them"""
    copied = {l[2] for f in mod.fns.values() for i in f.insts() if i.loc for l in i.loc[:-1]}
    out = set()
    while True:
        called = {i.callee for f in mod.fns.values() if f.name not in out for i in f.insts() if i.op == "call" and i.callee}
        new = {f.name for f in mod.fns.values() if not f.decl and not f.taken and f.name not in called and (f.static or f.disp in copied)} - out
        if not new:
            return out
        out |= new


def run(ctx):
    mod = ir.Module(frontend.load(set(), max_inline=60, sroa=False))
    gone = dead(mod)
    for n in gone:
        del mod.fns[n]
    W = interval.Whole(mod)
    rounds = W.solve()
    W.cap_counted()
    an = An(ctx, W, mod)
    done = []
    for f in W.fns:
        a = W.an.get(f.name)
        if a is None:
            continue
        done.append(f.disp)
        an.fn(f, a)
    ctx.cov.update(functions=len(done), rounds=rounds, members_counted_by_a_loop=len(W.cap), members_with_ranges=len(W.F), parameters_with_ranges=len(W.P), **an.n)
    ctx.cov["obligations"] = sum(an.n.values())
    ctx.cov["decided_elsewhere"] = ["%s [%d]: %s" % (k + (v,)) for k, v in sorted(an.left.items())]
    ctx.cov["rule"] = "index, offset and length intervals inside the size in the type, on every path"
    ctx.require(an.n["indexes"], 200, "indexes into fixed-size arrays")
    ctx.require(an.n["lengths"], 20, "library calls on fixed-size blocks")
