"""Independent reader of clibri protocol files (.prot): used to generate contracts and oracles.

It shares no code with /repo: identifiers are numbered in order of declaration by one counter
(groups, messages, enums and fields), and a type name is looked up first in the enclosing group
and then at the top level.
"""
import re

PRIMS = {"u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f32", "f64", "bool", "str"}


class Node:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Proto:
    def __init__(self):
        self.groups, self.structs, self.enums, self.order = [], [], [], []
        self.seq = 0

    def nid(self):
        self.seq += 1
        return self.seq

    def group(self, gid):
        return next(g for g in self.groups if g.id == gid)

    def path(self, parent):
        p = []
        while parent:
            g = self.group(parent)
            p.insert(0, g.name)
            parent = g.parent
        return p

    def full(self, e):
        return self.path(e.parent) + [e.name]

    def entity(self, eid):
        return next(x for x in self.structs + self.enums if x.id == eid)

    def is_enum(self, eid):
        return any(x.id == eid for x in self.enums)

    def find(self, frm, parts):
        parent = frm
        for p in parts[:-1]:
            g = next((g for g in self.groups if g.name == p and g.parent == parent), None)
            if g is None:
                return None
            parent = g.id
        for x in self.enums + self.structs:
            if x.name == parts[-1] and x.parent == parent and x.closed:
                return x.id
        return None

    def resolve(self, frm, parts):
        r = self.find(frm, parts)
        if r is None:
            r = self.find(0, parts)
        if r is None:
            raise ValueError("unresolved type " + ".".join(parts))
        return r


def parse(text):
    toks = re.findall(r"[A-Za-z_][A-Za-z0-9_]*|[{};?.]|\[\s*\]", text)
    i = 0
    P = Proto()

    def tyref():
        nonlocal i
        parts = [toks[i]]
        i += 1
        while toks[i] == ".":
            parts.append(toks[i + 1])
            i += 2
        return parts

    def struct(parent):
        nonlocal i
        s = Node(kind="struct", id=P.nid(), parent=parent, name=toks[i], fields=[], closed=False)
        P.structs.append(s)
        i += 2
        while toks[i] != "}":
            fid = P.nid()
            parts = tyref()
            rep = opt = False
            if toks[i].startswith("["):
                rep = True
                i += 1
            name = toks[i]
            i += 1
            if toks[i] == "?":
                opt = True
                i += 1
            assert toks[i] == ";", toks[i - 3:i + 3]
            i += 1
            if len(parts) == 1 and parts[0] in PRIMS:
                f = Node(id=fid, name=name, prim=parts[0], ref=None, rep=rep, opt=opt)
            else:
                f = Node(id=fid, name=name, prim=None, ref=P.resolve(parent, parts), rep=rep, opt=opt)
            s.fields.append(f)
        i += 1
        s.closed = True

    def enum(parent):
        nonlocal i
        e = Node(kind="enum", id=P.nid(), parent=parent, name=toks[i], variants=[], closed=False)
        P.enums.append(e)
        i += 2
        while toks[i] != "}":
            if toks[i + 1] == ";":
                v = Node(name=toks[i], prim="str", ref=None, rep=False)
                i += 2
            else:
                parts = tyref()
                rep = False
                if toks[i].startswith("["):
                    rep = True
                    i += 1
                name = toks[i]
                i += 2
                if len(parts) == 1 and parts[0] in PRIMS:
                    v = Node(name=name, prim=parts[0], ref=None, rep=rep)
                else:
                    v = Node(name=name, prim=None, ref=P.resolve(parent, parts), rep=rep)
            e.variants.append(v)
        i += 1
        e.closed = True

    def body(parent, end):
        nonlocal i
        while i < len(toks) and toks[i] != "}":
            k = toks[i]
            i += 1
            if k == "struct":
                struct(parent)
            elif k == "enum":
                enum(parent)
            elif k == "group":
                g = Node(kind="group", id=P.nid(), parent=parent, name=toks[i])
                P.groups.append(g)
                i += 2
                body(g.id, True)
                i += 1
            else:
                raise ValueError("unexpected " + k)

    body(0, False)
    return P
