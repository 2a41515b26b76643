"""Every call of a printf/scanf-style function - the C library's and the repository's own variadic ones, found by
following each va_list to the library call that consumes it, and every function that passes a parameter on as the
format - is resolved to the set of format texts it can use. Each text must be a constant of the program (never text
that a script controls), and its directives must match the passed arguments in number, width, class and, where the
source type is known, in pointed-to type."""
import os, re
import frontend, ir
import dityp

# function -> (index of format, index of first variadic argument or None for a va_list, kind)
BASE = {"printf": (0, 1, "p"), "fprintf": (1, 2, "p"), "sprintf": (1, 2, "p"), "snprintf": (2, 3, "p"), "dprintf": (1, 2, "p"), "syslog": (1, 2, "p"),
        "asprintf": (1, 2, "p"), "err": (1, 2, "p"), "warn": (0, 1, "p"),
        "vprintf": (0, None, "p"), "vfprintf": (1, None, "p"), "vsprintf": (1, None, "p"), "vsnprintf": (2, None, "p"), "vasprintf": (1, None, "p"),
        "scanf": (0, 1, "s"), "fscanf": (1, 2, "s"), "sscanf": (1, 2, "s"), "__isoc99_sscanf": (1, 2, "s"), "__isoc99_scanf": (0, 1, "s"),
        "__isoc99_fscanf": (1, 2, "s"), "__isoc23_sscanf": (1, 2, "s"), "__isoc23_scanf": (0, 1, "s"), "__isoc23_fscanf": (1, 2, "s"),
        "sqlite3_mprintf": (0, 1, "q"), "sqlite3_snprintf": (2, 3, "q")}
DIR = re.compile(r"%(?:(\d+)\$)?([-+ #0']*)(\*|\d+)?(?:\.(\*|-?\d*))?(hh|h|ll|l|L|q|j|z|t)?([a-zA-Z%])|%")
SCN = re.compile(r"%(\*)?(\d+)?(hh|h|ll|l|L|j|z|t)?(\[\^?\]?[^\]]*\]|[a-zA-Z%])")
W = {"": 32, "hh": 32, "h": 32, "l": 64, "ll": 64, "q": 64, "j": 64, "z": 64, "t": 64}


def parse(fmt, kind):
    """[(class, width, text)] of the arguments the text consumes, or None when it is not well formed"""
    out = []
    pos = 0
    while True:
        k = fmt.find("%", pos)
        if k < 0:
            return out
        if kind == "s":
            m = SCN.match(fmt, k)
            if not m:
                return None
            pos = m.end()
            if m.group(4) == "%" or m.group(1):
                continue
            out.append(("scan", m, m.group(0)))
            continue
        m = DIR.match(fmt, k)
        if not m or m.group(0) == "%" or m.group(6) is None:
            return None
        pos = m.end()
        c, ln = m.group(6), m.group(5) or ""
        if c == "%":
            continue
        if m.group(1):
            return None
        if m.group(3) == "*":
            out.append(("int", 32, "*"))
        if m.group(4) == "*":
            out.append(("int", 32, ".*"))
        if c in "diouxXc":
            out.append(("int", W.get(ln, 64), m.group(0)))
        elif c in "eEfFgGaA":
            out.append(("fp", "L" if ln == "L" else "", m.group(0)))
        elif c == "s" or (kind == "q" and c in "qQwz"):
            out.append(("str", 64, m.group(0)))
        elif c == "p":
            out.append(("ptr", 64, m.group(0)))
        elif c == "n":
            out.append(("n", 64, m.group(0)))
        elif c == "m":
            continue
        else:
            return None


class An:
    def __init__(self, ctx, mod):
        self.ctx, self.mod = ctx, mod
        self.ncalls = self.nargs = self.ntypes = 0
        self.memo = {}
        self.find()

    def find(self):
        """the repository's own formatting functions: those that pass a parameter on as the format"""
        self.fmt = dict(BASE)
        self.own = {}
        ch = True
        while ch:
            ch = False
            for f in self.mod.fns.values():
                if f.decl or f.name in self.fmt:
                    continue
                for i in f.insts():
                    if i.op != "call" or i.callee not in self.fmt:
                        continue
                    p, va, kind = self.fmt[i.callee]
                    if p >= len(i.ops):
                        continue
                    for k in self.params(f, i.ops[p]):
                        if va is None and f.va:
                            e = (k, f.nargs, kind)           # consumes its own variable arguments
                        elif va is None:
                            e = (k, None, kind)              # passes a va_list on
                        else:
                            continue                         # text handed down: resolved at the callers
                        self.fmt[f.name] = e
                        self.own[f.name] = e
                        ch = True
                        break

    def params(self, f, o, seen=None):
        seen = set() if seen is None else seen
        if not isinstance(o, int) or o in seen:
            return set()
        seen.add(o)
        if o < f.nargs:
            return {o}
        d = f.defs.get(o)
        r = set()
        if d is not None and d.op == "call" and d.callee in ("malloc", "calloc", "reallocate"):
            # a text rewritten into a fresh buffer (markup): the function's one text parameter stands for it
            ps = [k for k in range(f.nargs) if k + 1 < len(f.ditys) and re.sub(r"const ?", "", f.ditys[k + 1] or "") == "char*"]
            r |= set(ps) if len(ps) == 1 and takes_list(f) else set()
        if d is not None and d.op in ("phi", "select"):
            for x in (d.ops if d.op == "phi" else d.ops[1:]):
                r |= self.params(f, x, seen)
        return r

    def texts(self, f, o, seen=None, via=()):
        """({(text, via)}, [description of what is not constant])"""
        seen = set() if seen is None else seen
        if not isinstance(o, int):
            if o[0] == "g":
                t = self.mod.strlit(ir.mk("g", o[1], o[2] if len(o) > 2 else 0))
                return ({(t, via)}, []) if t is not None else (set(), ["the variable %s" % o[1]])
            return set(), (["a null or computed pointer"] if o[0] == "n" else ["a computed value"])
        key = (f.name, o)
        if key in seen:
            return set(), []
        seen.add(key)
        if o < f.nargs:
            ts, bad = set(), []
            cs = [c for c in self.mod.callers().get(f.name, [])]
            if f.taken:
                bad.append("parameter %d of %s" % (o, f.disp))
            for c in cs:
                if o >= len(c.ops):
                    continue
                a, b = self.texts(c.fn, c.ops[o], seen, via + (c.where(),))
                ts |= a
                bad += b
            return ts, bad
        d = f.defs.get(o)
        if d.op in ("phi", "select"):
            ts, bad = set(), []
            for x in (d.ops if d.op == "phi" else d.ops[1:]):
                a, b = self.texts(f, x, seen, via)
                ts |= a
                bad += b
            return ts, bad
        if d.op == "load":
            a = d.ops[0]
            while isinstance(a, int) and f.defs.get(a) is not None and f.defs[a].op == "getelementptr":
                a = f.defs[a].ops[0]
            g = self.mod.globals.get(a[1]) if not isinstance(a, int) and a[0] == "g" else None
            if g and g["const"] and g.get("init"):
                ts = set()
                for t in strs(self.mod, g["init"]):
                    ts.add((t, via))
                if ts:
                    return ts, []
        return set(), ["text computed at %s" % (d.where(),)]

    def width(self, f, o):
        """('int', bits) | ('fp',) | ('ptr', source type) of an operand"""
        if not isinstance(o, int):
            if o[0] == "c":
                return ("int", o[2])
            if o[0] in ("g", "fn"):
                return ("ptr", "char*" if o[0] == "g" and self.mod.strlit(ir.mk("g", o[1], o[2] if len(o) > 2 else 0)) is not None else None)
            if o[0] == "n":
                return ("null",)
            if o[0] in ("f", "d", "fp"):
                return ("fp",)
            return None
        if o < f.nargs:
            t = str(f.args[o])
            src = f.ditys[o + 1] if o + 1 < len(f.ditys) else None
        else:
            d = f.defs[o]
            t = str(d.ty)
            src = self.source(f, d)
        if t in ("double", "float"):
            return ("fp",)
        if t.startswith("x86_fp80"):
            return ("fp", "L")
        if t == "ptr":
            return ("ptr", src)
        m = re.match(r"i(\d+)$", t)
        return ("int", int(m.group(1))) if m else None

    def source(self, f, d):
        """source type of a pointer, from the declared member, variable or function it comes from"""
        ts = {t for t in f.dv.get(d.id, ()) if t}
        if len(ts) == 1:
            return ts.pop()
        if d.op == "load" and isinstance(d.ops[0], int):
            g = f.defs.get(d.ops[0])
            if g is not None and g.op == "getelementptr" and g.x.get("path"):
                st, k, off = g.x["path"][-1][:3]
                n = re.sub(r"\.\d+$", "", st.split(".", 1)[-1])
                s = self.mod.ditypes.get(n)
                if s and k < len(s["m"]):
                    # structures of the same shape share one IR type: all of them have to agree
                    shape = [(m[1], m[2]) for m in s["m"]]
                    ts = {x["m"][k][3] for x in self.mod.ditypes.values() if [(m[1], m[2]) for m in x["m"]] == shape}
                    return ts.pop() if len(ts) == 1 else None
        if d.op == "call" and d.callee in self.mod.fns:
            dt = self.mod.fns[d.callee].ditys
            return dt[0] if dt else None
        return None

    def check(self, i, p, va, kind):
        f = i.fn
        base = "%s:%s" % (f.file, f.disp)
        ts, bad = self.texts(f, i.ops[p])
        self.ncalls += 1
        for b in sorted(set(bad)):
            if f.name in self.own and self.own[f.name][0] in self.params(f, i.ops[p]) and i.callee in BASE and BASE[i.callee][1] is None:
                continue
            self.ctx.violation("format:%s:%s:%s" % (f.disp, i.callee, self.ordinal(i)), i.where(),
                               "%s() in %s uses %s as format text" % (i.callee, f.disp, b))
        if va is None:
            return
        args = i.ops[va:]
        for t, via in sorted(ts, key=lambda x: (x[0] or "", x[1])):
            ds = parse(t, kind)
            key = "%s:%s:%s" % (f.disp, i.callee, t[:40])
            if ds is None:
                self.ctx.violation("directive:" + key, i.where(), "%s: malformed or unsupported directive in \"%s\"" % (f.disp, t[:80]), list(via))
                continue
            if len(ds) > len(args):
                self.ctx.violation("count:" + key, i.where(), "%s: \"%s\" reads %d arguments but %d are passed" % (f.disp, t[:80].replace("\n", "\\n"), len(ds), len(args)), list(via))
                continue
            for n, ((cl, w, txt), a) in enumerate(zip(ds, args)):
                self.nargs += 1
                got = self.width(f, a)
                if got is None:
                    continue
                self.ntypes += 1
                why = self.mismatch(f, cl, w, txt, got, a)
                if why:
                    self.ctx.violation("type:%s:%d" % (key, n), i.where(), "%s: %s in \"%s\" %s" % (f.disp, txt, t[:80].replace("\n", "\\n"), why), list(via))

    def ordinal(self, i):
        n = 0
        for j in i.fn.insts():
            if j is i:
                return n
            if j.op == "call" and j.callee == i.callee:
                n += 1
        return n

    def mismatch(self, f, cl, w, txt, got, a):
        if cl == "int":
            if got[0] != "int":
                return "is given a %s" % {"fp": "floating-point number", "ptr": "pointer", "null": "pointer"}[got[0]]
            g = max(got[1], 32)
            if g != w:
                return "reads %d bits but is given %d" % (w, g)
        elif cl == "fp":
            if got[0] != "fp":
                return "is given %s" % {"int": "an integer", "ptr": "a pointer", "null": "a pointer"}[got[0]]
            if (len(got) > 1) != (w == "L"):
                return "does not match the floating-point type"
        elif cl == "str":
            if got[0] not in ("ptr",):
                return "is given %s" % {"int": "an integer", "fp": "a floating-point number", "null": "a null pointer"}[got[0]]
            s = got[1]
            if s and s.endswith("*"):
                e = re.sub(r"\b(const|volatile)\b ?", "", s[:-1]).strip()
                if e not in ("char", "unsigned char", "signed char", "void", "uint8_t", "int8_t"):
                    return "is given a pointer to %s" % e
        elif cl == "ptr":
            if got[0] not in ("ptr", "null"):
                return "is given something that is not a pointer"
        elif cl == "n":
            return "writes to memory"
        elif cl == "scan":
            if got[0] != "ptr":
                return "is not given a pointer"
            c, ln, mw = w.group(4), w.group(3) or "", w.group(2)
            d = f.defs.get(a) if isinstance(a, int) else None
            while d is not None and d.op == "getelementptr" and isinstance(d.ops[0], int):
                d = f.defs.get(d.ops[0])
            if d is None or d.op != "alloca":
                return None
            ty, size = str(d.x["ty"]), d.x["size"]
            if c[0] == "s" or c[0] == "[":
                if mw is None:
                    return "stores text of unlimited length in %d bytes" % size
                if int(mw) + 1 > size:
                    return "stores up to %d bytes in %d" % (int(mw) + 1, size)
            elif c in "eEfFgGaA":
                if ty != ("double" if ln == "l" else "float"):
                    return "stores a %s into a %s" % ("double" if ln == "l" else "float", ty)
            elif c in "diouxX":
                b = {"hh": 8, "h": 16, "": 32}.get(ln, 64)
                if not ty.startswith("i") or int(ty[1:] or 0) != b:
                    return "stores %d bits into a %s" % (b, ty)
        return None


def takes_list(f):
    return f.va or any("va_list" in str(t) for t in f.ditys)


def strs(mod, init):
    out = []
    if isinstance(init, list):
        if init and init[0] == "g" and len(init) > 1 and isinstance(init[1], str):
            t = mod.strlit(ir.mk("g", init[1], init[2] if len(init) > 2 else 0))
            if t is not None:
                out.append(t)
        for e in init[1:]:
            out += strs(mod, e)
    return out


def run(ctx):
    p = set(open(os.path.join(os.path.dirname(frontend.HERE), "engine", "primitives.txt")).read().split())
    mod = ir.Module(frontend.load(p, with_main=True, max_inline=0))
    an = An(ctx, mod)
    for f in mod.fns.values():
        if f.decl:
            continue
        for i in f.insts():
            if i.op == "call" and i.callee in an.fmt:
                pos, va, kind = an.fmt[i.callee]
                if pos < len(i.ops):
                    an.check(i, pos, va, kind)
    ctx.cov["format_calls"] = an.ncalls
    ctx.cov["arguments_matched"] = an.nargs
    ctx.cov["argument_types_known"] = an.ntypes
    ctx.cov["own_formatting_functions"] = sorted(an.own)
    ctx.cov["rule"] = "constant format text; directives and arguments agree in number, class, width and pointed-to type"
    ctx.require(an.ncalls, 500, "formatting calls")
