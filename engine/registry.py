"""Which C functions are reachable from Dictu code as natives, and how they are called."""
from ir import *


class Reg:
    def __init__(self, name, fn, conv, recv, site, table):
        self.name, self.fn, self.conv, self.recv, self.site, self.table = name, fn, conv, recv, site, table

    def __repr__(self):
        return "%s->%s %s %s" % (self.name, self.fn, self.conv, self.recv)


def build(mod, K):
    """list of Reg.  conv: 'method' (args[0] is the receiver, args[1..argCount]) or
    'plain' (args[0..argCount-1]).  recv: kind mask of the receiver ('method' only)."""
    vmfields = {}
    for n in ("_vm", "sDictuVM", "DictuVM"):
        if n in mod.ditypes:
            for m in mod.ditypes[n]["m"]:
                vmfields[m[1]] = m[0]
    out, bad = [], []
    # abstracts: every newAbstract/newAbstractExcludeSelf call
    for f in mod.fns.values():
        for i in f.insts():
            if i.callee != "defineNative":
                continue
            tab, name, fn = i.ops[1], i.ops[2], i.ops[3]
            fname = fn[1] if isinstance(fn, tuple) and fn[0] == "fn" else None
            nm = mod.strlit(mk("g", name[1], name[2])) if isinstance(name, tuple) and name[0] == "g" else None
            g = f.defs.get(tab) if isinstance(tab, int) else None
            conv = recv = where = None
            if g is not None and g.op == "getelementptr" and g.x["path"]:
                src = g.x["path"][-1][0]
                kind = K.struct2kind.get(src, 0)
                if src.replace("struct.", "") in ("_vm", "sDictuVM", "DictuVM"):
                    fld = vmfields.get(g.x["off"], "?")
                    where = "vm." + fld
                    if fld.endswith("Methods"):
                        conv, recv = "method", recv_of(fld, K)
                    elif fld == "globals":
                        conv = "plain"
                elif kind == K.bit["module"]:
                    conv, where = "plain", "module"
                elif kind == K.bit["abstract"]:
                    p = producer(f, g.ops[0])
                    where = "abstract:" + f.disp
                    if p == "newAbstract":
                        conv, recv = "method", K.bit["abstract"]
                    elif p == "newAbstractExcludeSelf":
                        conv = "plain"
            if fname is None and conv is not None:
                # registration loop over constant tables of names and functions
                names, fns = tables(mod, f)
                if fns and len(names) == len(fns):
                    for a, b in zip(names, fns):
                        out.append(Reg(a, b, conv, recv, i, where))
                    continue
            if conv is None or fname is None:
                bad.append((f, i))
                continue
            out.append(Reg(nm, fname, conv, recv, i, where))
    return out, bad


def tables(mod, f):
    names, fns = [], []
    for i in f.insts():
        for o in i.ops:
            if isinstance(o, tuple) and o[0] == "g":
                g = mod.globals.get(o[1])
                if g and g["init"] and g["init"][0] == "a":
                    for e in g["init"][1:]:
                        if e[0] == "fn" and e[1] not in fns:
                            fns.append(e[1])
                        elif e[0] == "g":
                            s = mod.strlit(mk("g", e[1], e[2]))
                            if s is not None and s not in names:
                                names.append(s)
    return names, fns


def producer(f, o, depth=0):
    if not isinstance(o, int) or depth > 8:
        return None
    d = f.defs.get(o)
    if d is None:
        return None
    if d.op == "call":
        return d.callee
    if d.op in ("phi", "bitcast", "inttoptr", "ptrtoint"):
        r = {producer(f, x, depth + 1) for x in d.ops}
        return r.pop() if len(r) == 1 else None
    return None


def recv_of(fld, K):
    n = fld[:-len("Methods")]
    B = K.bit
    m = {"number": B["number"], "bool": K.BOOL, "nil": B["nil"], "string": B["string"], "list": B["list"], "dict": B["dict"],
         "set": B["set"], "file": B["file"], "class": B["class"], "enum": B["enum"], "instance": B["instance"], "result": B["result"]}
    return m.get(n)
