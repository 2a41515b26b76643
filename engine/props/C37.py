"""The published extension header (src/include/dictu_ffi_include.h) is compiled as an extension would compile it and
its view of the interpreter is compared with the interpreter's own: order and names of the function-pointer table,
signatures, structure layouts, enumerator values, value-encoding macros (compared as optimised code) and the
interface version."""
import json, os, re, shutil, subprocess, tempfile
import frontend, ir

HDR = "src/include/dictu_ffi_include.h"
STUB = "int dictu_ffi_init(DictuVM *vm, Table *t) { return 0; }\n"


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def clang(tmp, name, text, flags):
    p = os.path.join(tmp, name)
    open(p, "w").write(text)
    return sh([frontend.CLANG] + flags + [p], cwd=tmp)


def macros(tmp, inc, only):
    r = clang(tmp, "m.c", inc, ["-E", "-dM", "-std=gnu11"] + frontend.DEFS)
    out = {}
    for l in r.stdout.splitlines():
        m = re.match(r"#define (\w+)(\([^)]*\))? ?(.*)", l)
        if m and (only is None or m.group(1) in only):
            out[m.group(1)] = (m.group(2), m.group(3))
    return out


def proto(q):
    """'R (P0, P1, ...)' -> (R, [P...], variadic) or None when it nests function types"""
    if q.count("(") != 1 or not q.endswith(")"):
        return None
    r, p = q[:-1].split("(")
    ps = [x.strip() for x in p.split(",")] if p.strip() not in ("", "void") else []
    va = bool(ps) and ps[-1] == "..."
    return r.strip(), (ps[:-1] if va else ps), va


def run(ctx):
    mod = ctx.mod
    hdr = os.path.join(frontend.REPO, HDR)
    V = ctx.violation
    if not os.path.exists(hdr):
        V("header:missing", HDR, "the published extension header does not exist")
        return
    inc = '#include "%s"\n' % hdr
    names = set(re.findall(r"^[ \t]*#[ \t]*define[ \t]+(\w+)", open(hdr).read(), re.M))
    tmp = tempfile.mkdtemp(prefix="dictu-ffi-")
    try:
        # the header is usable as published, from C and from C++
        for lang, std in (("c", "gnu11"), ("c++", "gnu++17")):
            p = os.path.join(tmp, "u." + ("c" if lang == "c" else "cc"))
            open(p, "w").write(inc + (STUB if lang == "c" else 'extern "C" ' + STUB))
            r = sh([frontend.CLANG, "-x", lang, "-std=" + std, "-fsyntax-only", "-w", p])
            if r.returncode:
                e = [l for l in r.stderr.splitlines() if "error" in l]
                V("header:%s" % lang, HDR, "an extension in %s cannot include the header: %s" % (lang, (e or ["?"])[0][-200:]))
        if ctx.viols:
            return
        # typedef X_t of every table entry, from the syntax tree
        r = clang(tmp, "a.c", inc + STUB, ["-std=gnu11", "-w", "-Xclang", "-ast-dump=json", "-fsyntax-only"])
        ast = json.loads(r.stdout)
        var = {}
        td = {}
        for d in ast["inner"]:
            if d["kind"] == "TypedefDecl":
                td[d["name"]] = d["type"]["qualType"]
            if d["kind"] == "VarDecl":
                var[d["name"]] = d["type"]["qualType"]
        text = inc + STUB
        sig = {}
        for v, t in sorted(var.items()):
            m = re.match(r"^(\w+) \*$", t)
            q = td.get(m.group(1)) if m else None
            if q is None:
                q = re.sub(r"\(\*\)", "", t).replace("  ", " ") if "(*)" in t else None
            pr = proto(q) if q else None
            if pr is None:
                continue
            sig[v] = pr
            ret, ps, va = pr
            text += "%s sa__%s(%s%s) { __builtin_trap(); }\n" % (
                ret, v, ", ".join("%s a%d" % (x, k) for k, x in enumerate(ps)), ", ..." if va else "")
        # every type and enumeration the header declares is used, so that it has debug information
        use = []
        for d in ast["inner"]:
            f = d.get("loc", {})
            if d["kind"] == "TypedefDecl" and not d["name"].startswith("__") and not d["name"].endswith("_t"):
                use.append(d["name"])
        mark = set(re.findall(r"\b(\w+)\b", open(hdr).read()))
        use = [u for u in use if u in mark and u not in ("FILE",)]
        fnty = {n for n, q in td.items() if "(" in q and "(*)" not in q}
        text += "void sa__use(void) {\n" + "".join("  %s *u%d = 0; (void)u%d;\n" % (u, k, k) for k, u in enumerate(use) if u not in fnty) + "}\n"
        src = os.path.join(tmp, "x.c")
        open(src, "w").write(text)
        bc = os.path.join(tmp, "x.bc")
        r = sh([frontend.CLANG] + frontend.FLAGS + ["-fno-eliminate-unused-debug-types", src, "-o", bc])
        if r.returncode:
            raise frontend.EngineError("witness for the extension header does not compile: " + r.stderr[-800:])
        nf = os.path.join(tmp, "n.txt")
        open(nf, "w").write("")
        out = os.path.join(tmp, "x.json")
        r = sh([frontend.build_tool(), "--out", out, "--noinline", nf, "--max-inline", "0", bc])
        if r.returncode:
            raise frontend.EngineError("irdump: " + r.stderr[-500:])
        hm = ir.Module(json.load(open(out)))
        table(ctx, hm, mod, sig)
        signatures(ctx, hm, mod, sig)
        layouts(ctx, hm, mod)
        enums(ctx, hm, mod)
        codecs(ctx, tmp, inc, names)
        version(ctx, tmp, inc, hm, mod)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def table(ctx, hm, mod, sig):
    V = ctx.violation
    g = mod.globals.get("ffi_function_pointers")
    if not g or not g.get("init") or g["init"][0] != "a":
        g = None
        for n, x in mod.globals.items():
            i = x.get("init")
            if i and i[0] == "a" and len(i) > 8 and all(isinstance(e, list) and e and e[0] == "fn" for e in i[1:]) \
                    and ["fn", "copyString"] in i[1:]:
                g = x
    ctx.require(1 if g else 0, 1, "function-pointer table of the interpreter")
    tab = [e[1] if isinstance(e, list) and e and e[0] == "fn" else None for e in g["init"][1:]]
    f = hm.fns.get("dictu_internal_ffi_init")
    ctx.require(1 if f and not f.decl else 0, 1, "dictu_internal_ffi_init")
    assigned = {}
    for k, v, i in slots(f):
        if k is None or v is None:
            V("init:%s" % (v or "?"), HDR, "the assignment of %s from the table could not be resolved" % (v or "a function pointer"))
            continue
        assigned.setdefault(v, set()).add(k)
        if k >= len(tab):
            V("table:%s" % v, HDR, "%s is taken from table slot %d but the interpreter's table has %d entries" % (v, k, len(tab)))
        elif base(tab[k]) != v:
            V("table:%s" % v, HDR, "%s is taken from table slot %d, which the interpreter fills with %s" % (v, k, base(tab[k])))
    for v in sorted(sig):
        if v not in assigned:
            V("unassigned:%s" % v, HDR, "the function pointer %s is never set by dictu_internal_ffi_init" % v)
    ctx.cov["table_entries"] = len(tab)
    ctx.cov["pointers_initialised"] = len(assigned)
    ctx.require(len(assigned), 15, "function pointers assigned by the header")


def base(n):
    return re.sub(r"\.\d+$", "", n) if n else n


def slots(f):
    """(k, global) for every store of function_ptrs[k] into a global; constant-propagates the slot counter"""
    out = []
    order = f.cfg()["rpo"]
    val = {}      # ssa id -> ('i',n) | ('tab',off) | ('slot',k)
    mem = {}      # block -> alloca state at its end
    preds = f.cfg()["pred"]

    def ev(o, st):
        if isinstance(o, int):
            return ("tab", 0) if o == 0 else val.get(o)
        return ("i", o[1]) if o[0] == "c" else None
    for b in order:
        ps = [mem[p] for p in preds[b] if p in mem]
        st = dict(ps[0]) if ps else {}
        for p in ps[1:]:
            st = {k: v for k, v in st.items() if p.get(k) == v}
        for i in f.blocks[b]:
            if i.op == "store":
                v = ev(i.ops[0], st)
                a = i.ops[1]
                if isinstance(a, int):
                    st[a] = v
                elif a[0] == "g":
                    if v and v[0] == "slot":
                        out.append((v[1], a[1], i))
                    elif v is None or v[0] != "i":
                        out.append((None, a[1], i))
            elif i.op == "load":
                a = i.ops[0]
                if isinstance(a, int):
                    x = val.get(a)
                    if x and x[0] == "tab":
                        val[i.id] = ("slot", x[1] // 8)
                    else:
                        val[i.id] = st.get(a)
                else:
                    x = ev(a, st)
                    val[i.id] = ("slot", x[1] // 8) if x and x[0] == "tab" else None
            elif i.op == "getelementptr":
                x = ev(i.ops[0], st)
                off = i.x.get("off", 0)
                ok = x and x[0] == "tab"
                for v, s in i.x["v"]:
                    y = ev(v, st)
                    if y and y[0] == "i":
                        off += y[1] * s
                    else:
                        ok = False
                val[i.id] = ("tab", x[1] + off) if ok else None
            elif i.op in ("add", "sub"):
                x, y = ev(i.ops[0], st), ev(i.ops[1], st)
                if x and y and x[0] == y[0] == "i":
                    val[i.id] = ("i", x[1] + y[1] if i.op == "add" else x[1] - y[1])
            elif i.op in ("sext", "zext", "trunc", "bitcast", "freeze"):
                val[i.id] = ev(i.ops[0], st)
            elif i.op == "phi":
                vs = {ev(o, st) for o in i.ops}
                val[i.id] = vs.pop() if len(vs) == 1 else None
        mem[b] = st
    return out


def cls(t):
    """kind of a scalar for the calling convention"""
    t = t or "void"
    if t.endswith("*") or t == "fn*":
        return "ptr"
    return t


def pointee_ok(a, b, hm, mod):
    if a == b:
        return True
    if not (a.endswith("*") and b.endswith("*")):
        return False
    x, y = a[:-1], b[:-1]
    return "void" in (x, y) or "fn" in (x, y) or x == "?" or y == "?"


def strip(t, m):
    return re.sub(r"\b(const|struct|volatile)\b ?", "", t or "void").strip()


FAM = {"Value": "unsigned long", "uint64_t": "unsigned long", "size_t": "unsigned long", "uint32_t": "unsigned int",
       "int32_t": "int", "uint8_t": "unsigned char", "bool": "_Bool", "NativeFn": "fn*", "AbstractFreeFn": "fn*",
       "AbstractGrayFn": "fn*", "AbstractTypeFn": "fn*", "int64_t": "long", "ssize_t": "long"}


def canon(t, m):
    t = strip(t, m)
    n = 0
    while t.endswith("*"):
        t, n = t[:-1].strip(), n + 1
    if t in FAM:
        f = FAM[t]
        while f.endswith("*"):
            f, n = f[:-1], n + 1
        t = f
    return t + "*" * n


def signatures(ctx, hm, mod, sig):
    n = 0
    for v in sorted(sig):
        h = hm.fns.get("sa__" + v)
        ds = mod.byname(v)
        if h is None:
            continue
        if not ds:
            continue      # reported by the table rule if it is in the table under another name
        d = ds[0]
        n += 1
        if h.va != d.va:
            ctx.violation("sig:%s:variadic" % v, "%s:%s" % (d.file, d.disp), "the header and the interpreter disagree whether %s is variadic" % v)
        if h.nargs != d.nargs:
            ctx.violation("sig:%s:count" % v, "%s:%s" % (d.file, d.disp),
                          "the header declares %s with %d parameters, the interpreter defines it with %d" % (v, h.nargs, d.nargs))
            continue
        if h.ret != d.ret or list(h.args) != list(d.args):
            ctx.violation("sig:%s:abi" % v, "%s:%s" % (d.file, d.disp), "the header passes %s(%s) for %s, the interpreter expects %s(%s)" % (
                h.ret, ",".join(map(str, h.args)), v, d.ret, ",".join(map(str, d.args))))
            continue
        for k, (a, b) in enumerate(zip(h.ditys, d.ditys)):
            a, b = canon(a, hm), canon(b, mod)
            if a == b or pointee_ok(a, b, hm, mod):
                continue
            if a in mod.enums or b in mod.enums or a in hm.enums or b in hm.enums:
                if a != b and a in hm.enums and b in mod.enums:
                    ctx.violation("sig:%s:%d" % (v, k), "%s:%s" % (d.file, d.disp), "%s: the header uses %s, the interpreter %s" % (v, a, b))
                continue
            # a difference of signedness of an int is harmless for the call itself
            if not a.endswith("*") and not b.endswith("*"):
                continue
            ctx.violation("sig:%s:%d" % (v, k), "%s:%s" % (d.file, d.disp), "%s %s: the header declares %s, the interpreter %s" % (
                v, "result" if k == 0 else "parameter %d" % k, a, b))
    ctx.cov["signatures_compared"] = n
    ctx.require(n, 15, "signatures compared")


def layouts(ctx, hm, mod):
    n = nm = 0
    # only the types that the header itself declares (others come from the C library)
    for t, h in sorted(hm.ditypes.items()):
        if not str(h.get("file", "")).endswith("dictu_ffi_include.h"):
            continue
        v = mod.ditypes.get(t)
        if v is None:
            ctx.cov.setdefault("types_unknown_to_the_interpreter", []).append(t)
            continue
        n += 1
        where = "%s:%s" % (v["file"], t)
        mem = {m[0]: m for m in v["m"]}
        atoff = {m[1]: m for m in v["m"]}
        bad = False
        for name, off, size, ty in h["m"]:
            nm += 1
            m = mem.get(name)
            if m is None:
                m = atoff.get(off)
                if m is None or m[2] != size:
                    ctx.violation("layout:%s.%s" % (t, name), where, "the header's member %s of %s (offset %d, %d bytes) does not exist in the interpreter" % (name, t, off, size))
                    bad = True
                continue
            if m[1] != off or m[2] != size:
                ctx.violation("layout:%s.%s" % (t, name), where, "%s.%s is at offset %d (%d bytes) in the interpreter but at %d (%d bytes) in the published header" % (
                    t, name, m[1], m[2], off, size))
                bad = True
            elif ty != m[3]:
                a, b = canon(ty, hm), canon(m[3], mod)
                fl = {"double", "float"}
                if (a in fl) != (b in fl) or a.endswith("*") != b.endswith("*"):
                    ctx.violation("layout:%s.%s:type" % (t, name), where, "%s.%s is %s in the interpreter but %s in the published header" % (t, name, b, a))
                elif a.endswith("*") and not pointee_ok(a, b, hm, mod):
                    ctx.violation("layout:%s.%s:type" % (t, name), where, "%s.%s is %s in the interpreter but %s in the published header" % (t, name, b, a))
        grows = t == "_vm" or (h["m"] and h["m"][0][0] == "obj")
        if not bad and h["size"] != v["size"] and not (grows and v["size"] > h["size"]):
            ctx.violation("layout:%s:size" % t, where, "%s has %d bytes in the interpreter but %d in the published header" % (t, v["size"], h["size"]))
    ctx.cov["structures_compared"] = n
    ctx.cov["members_compared"] = nm
    ctx.require(n, 15, "structures declared by both")


def enums(ctx, hm, mod):
    n = 0
    allv = {}
    for e, m in mod.enums.items():
        for k, x in m.items():
            allv[k] = x
    text = open(os.path.join(frontend.REPO, HDR)).read()
    words = set(re.findall(r"\w+", text))
    for e, m in sorted(hm.enums.items()):
        for k, x in sorted(m.items()):
            if k not in words:
                continue
            n += 1
            if k not in allv:
                ctx.violation("enum:%s" % k, HDR, "the header's enumerator %s does not exist in the interpreter" % k)
            elif allv[k] != x:
                ctx.violation("enum:%s" % k, HDR, "%s is %d in the interpreter but %d in the published header" % (k, allv[k], x))
    ctx.cov["enumerators_compared"] = n
    ctx.require(n, 15, "enumerators declared by the header")


PAR = [("uint64_t", ("v", "value", "val")), ("_Bool", ("boolean",)), ("double", ("num", "number")), ("void *", ("obj", "object", "pointer", "previous")),
       ("int", ("capacity", "count", "oldCount", "newCount", "c")), ("DictuVM *", ("vm",))]


WIT = """
typedef struct { char x[24]; } Witness;
extern void *sa_realloc(void *, void *, unsigned long, unsigned long);
#undef reallocate
#define reallocate(a, b, c, d) sa_realloc(a, b, c, d)
"""


def codecs(ctx, tmp, inc, names):
    """value-encoding and allocation macros: the same optimised code on both sides"""
    vm = "".join('#include "%s/src/%s"\n' % (frontend.REPO, h) for h in ("vm/vm.h", "vm/object.h", "vm/memory.h", "vm/value.h", "vm/util.h", "vm/common.h", "optionals/optionals.h")
                 if os.path.exists(os.path.join(frontend.REPO, "src", h)))
    mh, mv = macros(tmp, inc, names), macros(tmp, vm, names)
    common = [n for n in sorted(mh) if n in mv and not re.search(r"VERSION|^COMPUTED_GOTO$|_h$|^HAS_|^ERROR_RESULT$|^UNUSED$|^DEBUG", n)]
    good = {}
    for side, head in (("header", inc + STUB), ("vm", vm)):
        fns = {}
        todo = list(common)
        for attempt in range(4):
            src = head + WIT
            lines = {}
            for n in todo:
                par = mh[n][0]
                args, decl, call = [], [], ""
                if par is not None:
                    for k, p in enumerate([p.strip() for p in par[1:-1].split(",") if p.strip()]):
                        if p == "type":
                            args.append("Witness")
                            continue
                        ty = next((t for t, ns in PAR if p in ns), "uint64_t")
                        decl.append("%s a%d" % (ty, k))
                        args.append("a%d" % k)
                    call = "(%s)" % ", ".join(args)
                ex = n + call
                src += "\n"
                # the result type is the macro's own: taken inside a function whose result is its size and bits
                one = "void wit_%s(%s) { __auto_type r = (%s); extern void sa_use(int, ...); sa_use((int)sizeof(r), r); }" % (
                    n, ", ".join(decl) or "void", ex)
                lines[src.count("\n") + 1] = n
                src += one
            r = clang(tmp, "w_%s.c" % side, src + "\n", ["-std=gnu11", "-w", "-O2", "-S", "-emit-llvm", "-g0", "-ferror-limit=0", "-o", "-"] + frontend.DEFS)
            if r.returncode == 0:
                for m in re.finditer(r"^define [^@]*@wit_(\w+)\((.*?)\)[^{]*\{\n(.*?)^\}", r.stdout, re.M | re.S):
                    body = re.sub(r"%struct\.\w+", "%S", m.group(3))
                    body = re.sub(r", ![\w.]+ !\d+", "", body)
                    fns[m.group(1)] = body
                break
            bad = {lines[int(l)] for l in re.findall(r"w_%s\.c:(\d+):\d+: error" % side, r.stderr) if int(l) in lines}
            if not bad:
                raise frontend.EngineError("macro witness: " + r.stderr[:600])
            todo = [n for n in todo if n not in bad]
        good[side] = fns
    n = 0
    for name in common:
        a, b = good["header"].get(name), good["vm"].get(name)
        if a is None or b is None:
            ctx.cov.setdefault("macros_not_comparable", []).append(name)
            continue
        n += 1
        if norm(a) != norm(b):
            ctx.violation("macro:%s" % name, HDR, "%s means something else in the interpreter: %s / header: %s" % (name, short(b), short(a)))
    ctx.cov["macros_compared"] = n
    ctx.require(n, 40, "macros compared")


def norm(s):
    ids = {}
    s = re.sub(r"#\d+", "#", s)
    s = re.sub(r"@(\.str[.\w]*)", "@str", s)
    return re.sub(r"%[\w.]+", lambda m: ids.setdefault(m.group(0), "%%v%d" % len(ids)) if m.group(0) != "%S" else "%S", s)


def short(s):
    return " ; ".join(x.strip() for x in s.splitlines() if x.strip() and "ret void" not in x)[:160]


def version(ctx, tmp, inc, hm, mod):
    ffi = '#include "%s/src/optionals/ffi/ffi.h"\n' % frontend.REPO
    vals = {}
    for side, head, name in (("header", inc + STUB, "FFI_MOD_API_VERSION"), ("vm", ffi, "DICTU_FFI_API_VERSION")):
        r = clang(tmp, "v_%s.c" % side, head + "\nint sa_v(void) { return %s; }\n" % name,
                  ["-std=gnu11", "-w", "-O2", "-S", "-emit-llvm", "-g0", "-o", "-"] + frontend.DEFS)
        m = re.search(r"define [^\n]*@sa_v\(.*?\{\n(?:entry:\n)?\s*ret i32 (-?\d+)", r.stdout, re.S)
        if m:
            vals[side] = int(m.group(1))
    if len(vals) == 2:
        ctx.cov["interface_version"] = vals
        if vals["header"] > vals["vm"]:
            ctx.violation("version", HDR, "the header announces interface version %d, the interpreter offers version %d" % (vals["header"], vals["vm"]))
    else:
        ctx.cov["interface_version"] = "not comparable"
        return
    handshake(ctx, hm, mod, vals["header"])


def consts(f, start, env):
    """sparse conditional constant propagation from (block, index): instructions that can execute"""
    val = dict(env)
    TOP = "?"

    def ev(o):
        if isinstance(o, int):
            return val.get(o, TOP if o < f.nargs else None)
        if o[0] == "c":
            v, w = o[1], o[2]
            return v - (1 << w) if w > 1 and v >> (w - 1) & 1 else v
        if o[0] == "n":
            return 0
        return TOP
    sb, si = start
    # values defined before the start are unknown
    U = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "sgt": lambda a, b: a > b, "sge": lambda a, b: a >= b,
         "slt": lambda a, b: a < b, "sle": lambda a, b: a <= b}

    def join(i, v):
        o = val.get(i)
        n = v if o is None or o == v else TOP
        if n != o:
            val[i] = n
            return True
        return False
    changed = True
    reach = {sb}
    inedges = set()
    while changed:
        changed = False
        for b in f.cfg()["rpo"]:
            if b not in reach:
                continue
            first = si if b == sb and not any(e[1] == sb for e in inedges) else 0
            for i in f.blocks[b][first:]:
                if i.id >= 0 and i.id in env:
                    continue
                if i.op == "phi":
                    v = None
                    for o, p in zip(i.ops, i.x):
                        if (p, b) in inedges:
                            x = ev(o)
                            x = TOP if x is None else x
                            v = x if v is None or v == x else TOP
                    if v is not None and join(i.id, v):
                        changed = True
                elif i.op == "icmp":
                    x, y = ev(i.ops[0]), ev(i.ops[1])
                    v = TOP
                    if isinstance(x, int) and isinstance(y, int) and i.x in U:
                        v = int(U[i.x](x, y))
                    if join(i.id, v):
                        changed = True
                elif i.op in ("add", "sub"):
                    x, y = ev(i.ops[0]), ev(i.ops[1])
                    v = (x + y if i.op == "add" else x - y) if isinstance(x, int) and isinstance(y, int) else TOP
                    if join(i.id, v):
                        changed = True
                elif i.op in ("sext", "zext", "trunc", "freeze"):
                    v = ev(i.ops[0])
                    if join(i.id, TOP if v is None else v):
                        changed = True
                elif i.op == "select":
                    c = ev(i.ops[0])
                    v = ev(i.ops[1] if c else i.ops[2]) if isinstance(c, int) else TOP
                    if join(i.id, TOP if v is None else v):
                        changed = True
                elif i.id >= 0:
                    if join(i.id, TOP):
                        changed = True
            t = f.blocks[b][-1]
            outs = []
            if t.op == "br" and t.ops:
                c = ev(t.ops[0])
                outs = [t.x[0] if c else t.x[1]] if isinstance(c, int) else list(t.x)
            elif t.op == "switch":
                c = ev(t.ops[0])
                outs = f.succs(b)
                if isinstance(c, int):
                    outs = [x[1] for x in t.x[1:] if x[0] == c] or [t.x[0]]
            else:
                outs = f.succs(b)
            for s in outs:
                if (b, s) not in inedges:
                    inedges.add((b, s))
                    changed = True
                if s not in reach:
                    reach.add(s)
                    changed = True
    out = []
    for b in sorted(reach):
        first = si if b == sb and not any(e[1] == sb for e in inedges) else 0
        out += f.blocks[b][first:]
    rets = set()
    for i in out:
        if i.op == "ret" and i.ops:
            rets.add(ev(i.ops[0]))
    return out, rets, inedges


def handshake(ctx, hm, mod, ver):
    """the version check of the header and the reaction of the interpreter to each result"""
    f = hm.fns["dictu_internal_ffi_init"]
    loads = [i.id for i in f.insts() if i.op == "load" and i.ops[0] == ("g", "copyString", 0)]
    gst = lambda L: [i for i in L if i.op == "store" and not isinstance(i.ops[1], int) and i.ops[1][0] == "g"]
    fresh = {i: 0 for i in loads}
    old, orets, _ = consts(f, (0, 0), {**fresh, 3: ver - 1})
    if gst(old):
        ctx.violation("handshake:old", HDR, "an extension for interface version %d uses the table of an interpreter that offers only version %d" % (ver, ver - 1))
    new, nrets, _ = consts(f, (0, 0), {**fresh, 3: ver})
    if not gst(new):
        ctx.violation("handshake:current", HDR, "an extension for interface version %d rejects an interpreter that offers this version" % ver)
    # the interpreter: function with the indirect call that passes the table
    site = None
    for g in mod.fns.values():
        for i in g.insts():
            if i.op == "call" and i.x[0] == "ind" and i.ops and not isinstance(i.ops[0], int) and i.ops[0][0] == "g" and len(i.ops) >= 4 \
                    and (mod.globals.get(i.ops[0][1], {}).get("init") or [0])[0] == "a":
                site = i
    ctx.require(1 if site else 0, 1, "call of the extension's initialiser")
    g = site.fn
    ctx.cov["handshake_results_checked"] = 0
    bad = {r for r in orets if isinstance(r, int)} | {1, 4}
    if orets - bad or 0 in bad:
        ctx.violation("handshake:result", HDR, "the version mismatch is not reported to the interpreter by a non-zero result")
        bad.discard(0)
    for r in sorted(bad) + [0]:
        L, rets, edges = consts(g, (site.blk, site.idx + 1), {site.id: r})
        succ = {}
        for a, b in edges:
            succ.setdefault(a, set()).add(b)
        ctx.cov["handshake_results_checked"] += 1

        def avoids(pred):
            """a return is reachable without an instruction that satisfies pred"""
            seen, work = set(), [(site.blk, site.idx + 1)]
            while work:
                b, k = work.pop()
                if (b, k) in seen:
                    continue
                seen.add((b, k))
                hit = False
                for i in g.blocks[b][k:]:
                    if pred(i):
                        hit = True
                        break
                    if i.op == "ret":
                        return True
                if not hit:
                    work += [(s, 0) for s in succ.get(b, ())]
            return False
        err = lambda i: i.callee == "runtimeError"
        close = lambda i: i.callee == "dlclose"
        w = "%s:%s" % (g.file, g.disp)
        if r:
            if avoids(err):
                ctx.violation("handshake:accept:%d" % r, w, "the interpreter accepts an extension whose initialisation failed with result %d" % r)
            if avoids(close):
                ctx.violation("handshake:leak:%d" % r, w, "the library stays loaded although its initialisation failed with result %d" % r)
        else:
            if any(err(i) or close(i) for i in L):
                ctx.violation("handshake:reject", w, "the interpreter rejects an extension that was initialised successfully")
