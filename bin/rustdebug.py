"""Rust's derived Debug output, parsed; and the mapper's state in the specification's terms.

What doesn't have the expected shape isn't observable, and isn't judged (None)."""
import re, sys

from vlib import limbs

sys.setrecursionlimit(20000)
TOKEN = re.compile(r'\s*(?:("(?:[^"\\]|\\.)*")|(-?\d+)|([A-Za-z_][A-Za-z0-9_]*(?:::[A-Za-z_][A-Za-z0-9_]*)*)|(.))', re.S)
ESC = re.compile(r'\\(?:u\{([0-9a-fA-F]+)\}|(.))', re.S)
SIMPLE = {"n": "\n", "r": "\r", "t": "\t", "0": "\0"}


class Shape(Exception):
    pass


class Node:
    """Name, with named fields or positional items."""
    __slots__ = ("name", "f", "items")

    def __init__(self, name, f=None, items=None):
        self.name, self.f, self.items = name, f, items

    def __getitem__(self, k):
        try:
            return self.f[k] if isinstance(k, str) else self.items[k]
        except (TypeError, KeyError, IndexError):
            raise Shape(k)


class Map:
    def __init__(self, pairs):
        self.pairs = pairs


class Reader:
    def __init__(self, s):
        self.t = []
        pos = 0
        s = s.strip()
        while pos < len(s):
            m = TOKEN.match(s, pos)
            pos = m.end()
            if m[1]:
                self.t.append(("s", ESC.sub(lambda e: chr(int(e[1], 16)) if e[1] else SIMPLE.get(e[2], e[2]), m[1][1:-1])))
            elif m[2]:
                self.t.append(("n", int(m[2])))
            elif m[3]:
                self.t.append(("i", m[3].split("::")[-1]))
            else:
                self.t.append((m[4], None))
        self.t.append(("$", None))
        self.i = 0

    def peek(self):
        return self.t[self.i][0]

    def next(self, kind=None):
        k, v = self.t[self.i]
        if kind and k != kind:
            raise Shape("%s instead of %s" % (k, kind))
        self.i += 1
        return v

    def seq(self, close, item):
        out = []
        while self.peek() != close:
            out.append(item())
            if self.peek() == ",":
                self.next()
            elif self.peek() != close:
                raise Shape("separator")
        self.next()
        return out

    def field(self):
        k = self.next("i")
        self.next(":")
        return k, self.value()

    def pair(self):
        k = self.value()
        if self.peek() != ":":
            return k, None      # a set
        self.next()
        return k, self.value()

    def value(self):
        k = self.peek()
        if k in ("s", "n"):
            return self.next()
        if k == "[":
            self.next()
            return self.seq("]", self.value)
        if k == "(":
            self.next()
            return Node("", items=self.seq(")", self.value))
        if k == "{":
            self.next()
            return Map(self.seq("}", self.pair))
        name = self.next("i")
        if name in ("true", "false"):
            return name == "true"
        if self.peek() == "(":
            self.next()
            return Node(name, items=self.seq(")", self.value))
        if self.peek() == "{":
            self.next()
            return Node(name, f=dict(self.seq("}", self.field)))
        return Node(name)


def parse(s):
    r = Reader(s)
    v = r.value()
    r.next("$")
    return v


# ---- pieces -------------------------------------------------------------------------------
def need(p, what):
    if not p:
        raise Shape(what)


def text(v):
    need(isinstance(v, str), "text")
    return list(v.encode())


def num(v):
    need(isinstance(v, int) and not isinstance(v, bool) and v >= 0, "number")
    return limbs(v)


def flag(v):
    need(isinstance(v, bool), "flag")
    return v


def seq(v, f):
    need(isinstance(v, list), "list")
    return [f(x) for x in v]


def inner(v, name):
    """The only item of a newtype."""
    need(isinstance(v, Node) and v.name == name and v.items is not None and len(v.items) == 1, name)
    return v.items[0]


def opt(v, f):
    need(isinstance(v, Node) and v.name in ("Some", "None"), "option")
    return [f(v[0])] if v.name == "Some" else []


def name(v):
    need(isinstance(v, Node) and v.f is None and v.items is None, "unit")
    return v.name


def align(v):
    """In bytes.  (The field is the shift or the bytes, and says so.)"""
    need(isinstance(v, Node) and v.name == "Align", "align")
    need(v.f and list(v.f) == ["byte_align"], "align")
    return num(v["byte_align"])


def maybe_align(v):
    return opt(inner(v, "MaybeAlign"), align)


def space(v):
    return num(inner(v, "AddressSpace"))


# ---- trees ---------------------------------------------------------------------------------
def block_id(v):
    need(isinstance(v, Node) and v.items and len(v.items) == 1, "block id")
    if v.name == "Unknown":
        return {"k": "Unknown", "n": "", "v": num(v[0])}
    need(v.name in ("Ir", "Reserved"), "block id")
    return {"k": v.name, "n": name(v[0]), "v": []}


def record(v):
    r = inner(v, "Record")
    return {"code": num(r["code"]), "f": seq(r["fields"], num)}


def block(v):
    need(isinstance(v, Node) and v.name == "Block", "block")
    subs = inner(v["blocks"], "Blocks")
    need(isinstance(subs, Map), "blocks")
    return {"id": block_id(v["id"]), "recs": seq(inner(v["records"], "Records"), record),
            "subs": [[block_id(k), seq(bs, block)] for k, bs in subs.pairs]}


def module(v):
    need(isinstance(v, Node) and v.name == "PartialBitcodeModule", "module")
    return {"ident": block(v["identification"]), "module": opt(v["module"], block),
            "strtab": opt(v["strtab"], block), "symtab": opt(v["symtab"], block)}


# ---- types ---------------------------------------------------------------------------------
def type_(v):
    need(isinstance(v, Node), "type")
    k = v.name
    if v.items is None and v.f is None:
        return {"k": k}
    need(v.items and len(v.items) == 1, "type")
    t = v[0]
    if k == "Integer":
        return {"k": k, "w": num(t["bit_width"])}
    if k == "OpaquePointer":
        return {"k": k, "as": space(t)}
    if k == "Pointer":
        return {"k": k, "t": type_(t["pointee"]), "as": space(t["address_space"])}
    if k in ("Array", "FixedVector", "ScalableVector"):
        return {"k": k, "n": num(t["num_elements"]), "t": type_(t["element_type"])}
    if k == "Struct":
        return {"k": k, "name": opt(t["name"], text), "f": seq(t["fields"], type_), "packed": flag(t["is_packed"])}
    if k == "Function":
        return {"k": k, "ret": type_(t["return_type"]), "params": seq(t["param_types"], type_), "va": flag(t["is_vararg"])}
    raise Shape("type " + k)


# ---- attributes ----------------------------------------------------------------------------
UW = {"None": 0, "Sync": 1, "Async": 2}


def attribute(v):
    need(isinstance(v, Node) and v.items, "attribute")
    if v.name == "Enum":
        return {"k": "enum", "n": name(v[0])}
    if v.name == "Str":
        return {"k": "str", "key": text(v[0])}
    if v.name == "StrKeyValue":
        return {"k": "kv", "key": text(v[0]), "val": text(v[1])}
    need(v.name == "Int", "attribute")
    a = v[0]
    n = {"MemoryKind": "Memory"}.get(a.name, a.name)
    if n in ("Alignment", "StackAlignment"):
        p = maybe_align(a[0])
    elif n == "AllocSize":
        p = [num(a[0])] + opt(a[1], num)
    elif n == "VScaleRange":
        p = [num(a[0]), num(a[1])]
    elif n == "UwTable":
        need(name(a[0]) in UW, "uwtable")
        p = [limbs(UW[name(a[0])])]
    else:
        p = [num(a[0])]
    return {"k": "int", "n": n, "v": p}


def group(v):
    need(isinstance(v, Node) and v.name == "AttributeGroup", "group")
    d = v["disposition"]
    need(isinstance(d, Node) and d.name in ("Return", "Function", "Parameter"), "disposition")
    return {"at": {"p": d.name, "i": num(d[0]) if d.name == "Parameter" else []},
            "attrs": seq(v["attributes"], attribute)}


def attribute_list(v):
    return seq(inner(v, "AttributeEntry"), group)


# ---- layouts -------------------------------------------------------------------------------
def type_spec(v):
    t = v["aligned_type"]
    need(isinstance(t, Node), "aligned type")
    return [t.name, num(inner(t[0], "AlignedTypeWidth")) if t.items else [], align(v["abi_alignment"]),
            align(v["preferred_alignment"])]


def pointer_spec(v):
    return [space(v["address_space"]), align(v["abi_alignment"]), align(v["preferred_alignment"]),
            num(v["pointer_size"]), num(v["index_size"])]


def function_alignment(v):
    need(isinstance(v, Node) and v.name in ("Independent", "MultipleOfFunctionAlign"), "function alignment")
    return [v.name, align(v["abi_alignment"])]


def layout(v):
    need(isinstance(v, Node) and v.name == "DataLayout", "layout")
    return {"endian": name(v["endianness"]), "stack": opt(v["natural_stack_alignment"], align),
            "prog": space(v["program_address_space"]), "glob": space(v["global_variable_address_space"]),
            "alloca": space(v["alloca_address_space"]),
            "types": seq(inner(v["type_alignments"], "TypeAlignSpecs"), type_spec),
            "ptrs": seq(inner(v["pointer_alignments"], "PointerAlignSpecs"), pointer_spec),
            "agg": align(v["aggregate_alignment"]), "fn": (opt(v["function_pointer_alignment"], function_alignment) + [[]])[0],
            "mangling": ([""] + opt(v["mangling"], name))[-1],
            "widths": seq(v["native_integer_widths"], num), "nonint": seq(v["non_integral_address_spaces"], space)}


# ---- the context and what's mapped in it ---------------------------------------------------------
def comdat(v):
    return {"name": text(v["name"]), "kind": name(v["selection_kind"])}


def depth(v):
    if isinstance(v, dict):
        return 1 + max(map(depth, v.values()), default=0)
    if isinstance(v, list):
        return 1 + max(map(depth, v), default=0)
    return 0


def shallow(v):
    """What nests too deeply can't be passed on."""
    need(depth(v) <= 200, "depth")
    return v


def pieces(d):
    """Each piece separately: one not having the expected shape doesn't hide the others."""
    out = {}
    for k, f in d.items():
        try:
            out[k] = [shallow(f())]
        except (Shape, TypeError, AttributeError):
            out[k] = []
    return out


def context(v):
    def groups():
        m = inner(v["attribute_groups"], "AttributeGroups")
        need(isinstance(m, Map), "groups")
        return [dict(group(g), id=num(k)) for k, g in m.pairs]

    def strtab():
        s = v["strtab"]
        need(isinstance(s, Node) and s.items and len(s.items) == 1, "strtab")
        return seq(s[0], lambda b: b)

    return pieces({
        "version": lambda: num(v["version"]), "strtab": strtab, "layout": lambda: layout(v["datalayout"]),
        "sections": lambda: seq(v["section_table"], text), "gcs": lambda: seq(v["gc_table"], text),
        "types": lambda: seq(inner(v["type_table"], "TypeTable"), type_),
        "groups": groups, "lists": lambda: seq(inner(v["attributes"], "Attributes"), attribute_list),
        "comdats": lambda: seq(v["comdats"], comdat)})


def function(v):
    return {"name": text(v["name"]), "ty": type_(v["ty"]) if v["ty"].name == "Function" else
            type_(Node("Function", items=[v["ty"]])),
            "cc": name(v["calling_convention"]), "decl": flag(v["is_declaration"]), "linkage": name(v["linkage"]),
            "attrs": opt(v["attributes"], attribute_list), "align": maybe_align(v["alignment"]),
            "section": opt(v["section"], text), "vis": name(v["visibility"]), "gc": opt(v["gc_name"], text),
            "unnamed": name(v["unnamed_addr"]), "dll": name(v["storage_class"])}


def alias(v):
    return {"name": text(v["name"]), "ty": type_(v["ty"]), "val": num(v["value_index"]), "linkage": name(v["linkage"]),
            "vis": name(v["visibility"]), "dll": name(v["storage_class"]), "tls": name(v["tls_mode"]),
            "unnamed": name(v["unnamed_addr"]), "preempt": name(v["preemption_specifier"])}


CANON = {"module": module, "ctx": context, "functions": lambda v: seq(v, function), "aliases": lambda v: seq(v, alias)}


def canonical(kind, s):
    """[piece], or [] if it isn't observable."""
    try:
        return [shallow(CANON[kind](parse(s)))]
    except (Shape, TypeError, AttributeError, RecursionError):
        return []


#: A context none of which is observable.
NOTHING = dict.fromkeys(("version", "strtab", "layout", "sections", "gcs", "types", "groups", "lists", "comdats"), [])
