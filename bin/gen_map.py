"""Cases for the mapper: streams of modules, legal or not."""
import copy, itertools, json, subprocess

import rustdebug
from bitw import *
from gen_stream import abbrev_for, record, room, value
from vlib import limbs

NONE32 = 2**32 - 1
ident_epoch = 0


def host():
    v = subprocess.run(["rustc", "-vV"], stdout=subprocess.PIPE, text=True, check=True).stdout
    return list([l for l in v.splitlines() if l.startswith("host: ")][0][6:].encode())


HOST = None


# ---- blocks: records and sub-blocks in the order they are written ---------------------------------
class Blk:
    def __init__(self, id, *items):
        self.id, self.items = id, list(items)

    def rec(self, code, *fields):
        self.items.append((code, [f for f in fields]))
        return self

    def sub(self, b):
        self.items.append(b)
        return b

    def recs(self):
        return [i for i in self.items if isinstance(i, tuple)]

    def subs(self):
        return [i for i in self.items if isinstance(i, Blk)]

    def tree(self):
        subs = []
        for s in self.subs():
            for g in subs:
                if g[0] == limbs(s.id):
                    g[1].append(s.tree())
                    break
            else:
                subs.append([limbs(s.id), [s.tree()]])
        return {"id": limbs(self.id), "recs": [{"code": limbs(c), "f": [limbs(x) for x in f]} for c, f in self.recs()],
                "subs": subs}


def write(w, b, r=None, width=None):
    """Write a block; with a random generator, in a random way."""
    w.enter(b.id, width or (r.choice([3, 4, 4, 5, 8]) if r else 3))
    for i in b.items:
        if isinstance(i, Blk):
            write(w, i, r, width)
            continue
        code, f = i
        if r and r.random() < .3:
            ks = [k for k, a in enumerate(w.abbrevs) if matches(a, [code] + f) and room(w, 4 + k)]
            if not ks and room(w, 4 + len(w.abbrevs)):
                w.define(abbrev_for(r, code, f))
                ks = [len(w.abbrevs) - 1]
            if ks:
                w.abbreviated(r.choice(ks), code, f)
                continue
        w.unabbrev(code, f)
    w.end()


def stream(blocks, r=None, width=None):
    w = Writer()
    for b in blocks:
        write(w, b, r, width)
    return w.bytes()


def txt(s):
    return list(s.encode() if isinstance(s, str) else s)


def word(r, lo=2, hi=9):
    s = "".join(r.choice("abcdefgXYZ019_.-$") for _ in range(r.randrange(lo, hi)))
    return r.choice([s, s, s, s + "\u00e9", "\u4e16" + s, s + "\U0001f600", s + " ", "\x00" + s, s + "\x00", "\x01" + s, " " + s,
                     s + "\n", '"' + s + '"', s + "\\", s + "\t", "\ufeff" + s, s + "\x7f", "e\u0301" + s, s.upper() + "\u0130", s + "\x00\x00"]) if r.random() < .3 else s


def ident(producer="mollusc", epoch=0):
    return Blk(13).rec(1, *txt(producer)).rec(2, epoch)


def strtab(data=b"table"):
    return Blk(23).rec(1, *list(data))


def symtab(data=b"symbols"):
    return Blk(25).rec(1, *list(data))


def min_types():
    return Blk(17).rec(1, 1).rec(2)


def min_module(version=2):
    m = Blk(8).rec(1, version)
    m.sub(min_types())
    m.sub(Blk(14))
    return m


# ---- types ----------------------------------------------------------------------------------
PLAIN = {"Void": 2, "Float": 3, "Double": 4, "Label": 5, "Half": 10, "X86Fp80": 13, "Fp128": 14, "PpcFp128": 15,
         "Metadata": 16, "X86Mmx": 17, "Token": 22, "BFloat": 23, "X86Amx": 24}
FP = {"Float", "Double", "Half", "X86Fp80", "Fp128", "PpcFp128", "BFloat"}


def can(use, k):
    if use == "pointee":
        return k not in ("Void", "Label", "Metadata", "Token", "X86Amx")
    if use == "array":
        return k not in ("Void", "Label", "Metadata", "Function", "Token", "X86Amx", "ScalableVector")
    if use == "field":
        return k not in ("Void", "Label", "Metadata", "Function", "Token")
    if use == "vector":
        return k in FP or k in ("Integer", "Pointer", "OpaquePointer")
    if use == "param":
        return k not in ("Function", "Void")
    return k not in ("Function", "Label", "Metadata")


class Types:
    """A random legal type table; entries may refer both backward and forward."""

    def __init__(self, r, n=None, legal=.995):
        self.r = r
        n = n or r.choice([1, 2, 4, 6, 10, 16])
        ents = []           # (kind, make(number of), size)
        for _ in range(n):
            ents.append(self.entry(ents, legal))
        perm = list(range(n))
        if r.random() < .7:
            r.shuffle(perm)
        self.kinds = [None] * n
        recs = [None] * n
        for i, (k, make, _) in enumerate(ents):
            self.kinds[perm[i]] = k
            recs[perm[i]] = make(lambda j: perm[j])
        self.recs = [x for rs in recs for x in rs]
        self.n = n

    def entry(self, ents, legal):
        r = self.r

        def pick(use):
            c = [i for i, e in enumerate(ents) if (can(use, e[0]) or r.random() > legal) and e[2] < 60]
            return r.choice(c) if c else None

        extra = lambda: [r.randrange(5) for _ in range(r.choice([0, 0, 0, 1, 2]))]
        k = r.choice(["Plain", "Plain", "Integer", "Integer", "OpaquePointer", "Pointer", "Array", "Vector", "Vector",
                      "Struct", "Struct", "Struct", "Function", "Function", "Opaque"])
        space = r.choice([0, 0, 1, 3, 270, 2**23 - 1])
        if k in ("Pointer", "Array", "Vector"):
            t = pick({"Pointer": "pointee", "Array": "array", "Vector": "vector"}[k])
            if t is not None:
                size = ents[t][2] + 1
                x = extra()
                if k == "Pointer":
                    return k, (lambda num: [(8, [num(t), space] + x)]), size
                n = r.choice([1, 1, 2, 3, 16, 2**16, 2**32, 2**33 + 1, 2**64 - 1] + ([0] if k == "Array" else []))
                if k == "Array":
                    return k, (lambda num: [(11, [n, num(t)] + x)]), size
                sc = r.choice([None, 0, 1, 1, 2, 2**40])
                return ("ScalableVector" if sc else "FixedVector",
                        (lambda num: [(12, [n, num(t)] + ([] if sc is None else [sc] + x))]), size)
        if k == "Struct":
            fs = [f for f in (pick("field") for _ in range(r.choice([0, 1, 2, 3, 5]))) if f is not None]
            packed = r.choice([0, 0, 1, 1, 2, 2**63])
            names = self.names() if r.random() < .6 else None
            return k, (lambda num: ([(19, n) for n in names] + [(20, [packed] + [num(f) for f in fs])] if names
                                    else [(18, [packed] + [num(f) for f in fs])])), 1 + sum(ents[f][2] for f in fs)
        if k == "Opaque":
            names, x = self.names(), extra()
            return "Struct", (lambda num: [(19, n) for n in names] + [(6, x)]), 1
        if k == "Function":
            ret = pick("return")
            if ret is not None:
                ps = [p for p in (pick("param") for _ in range(r.choice([0, 1, 2, 4]))) if p is not None]
                va = r.choice([0, 0, 1, 5])
                return k, (lambda num: [(21, [va, num(ret)] + [num(p) for p in ps])]), 1 + ents[ret][2] + sum(ents[p][2] for p in ps)
        if k == "OpaquePointer":
            x = extra()
            return k, (lambda num: [(25, [space] + x)]), 1
        if k == "Integer":
            wd = r.choice([1, 8, 16, 31, 32, 33, 64, 65, 128, 255, 256, 65535, 65536, 2**24 - 1])
            x = extra()
            return k, (lambda num: [(7, [wd] + x)]), 1
        k = r.choice(sorted(PLAIN))
        x = extra()
        return k, (lambda num: [(PLAIN[k], x)]), 1

    def names(self):
        return [txt(word(self.r)) for _ in range(self.r.choice([1, 1, 1, 2]))]

    def block(self):
        b = Blk(17)
        at = self.r.choice([0, 0, 0, len(self.recs), self.r.randrange(len(self.recs) + 1)])
        for i, (c, f) in enumerate(self.recs):
            if i == at:
                b.rec(1, self.n)
            b.rec(c, *f)
        if at == len(self.recs):
            b.rec(1, self.n)
        return b


# ---- attributes --------------------------------------------------------------------------------
INT_IDS = [1, 25, 33, 41, 42, 51, 74, 82, 86]
ENUM_IDS = [i for i in range(2, 86) if i not in (25, 41, 42, 51, 74, 82)]


def int_value(r, id):
    if id in (1, 25):
        return r.choice([0, 1, 2, 4, 8, 16, 256, 2**20, 2**31, 2**32, 2**63])
    if id == 33:
        return r.randrange(3)
    hi, lo = r.choice([0, 1, 2, 3, 2**31, NONE32]), r.choice([0, 1, 2, 5, NONE32, NONE32])
    v = r.choice([hi << 32 | lo, r.getrandbits(64), r.randrange(300)])
    return v or (1 if id == 51 else 0)


def attribute(r):
    k = r.random()
    if k < .4:
        return [0, r.choice(ENUM_IDS)]
    if k < .75:
        id = r.choice(INT_IDS)
        return [1, id, int_value(r, id)]
    s = lambda: txt(word(r, 1).replace("\x00", "z")) + [0]
    return [3] + s() if k < .87 else [4] + s() + s()


def bad_attribute(r):
    return r.choice([
        lambda: [0, r.choice(INT_IDS[:2] + INT_IDS[3:])],          # integer ids used as enum
        lambda: [1, r.choice([i for i in ENUM_IDS if i != 33]), 1],     # and the other way round
        lambda: [r.choice([0, 1]), r.choice([0, 87, 88, 200, 2**32 + 2, 2**64 - 1]), 1],
        lambda: [r.choice([2, 5, 6, 7, 100, 2**32, 2**64 - 1]), 2],
        lambda: [1, r.choice([1, 25]), r.choice([3, 5, 6, 7, 24, 2**32 + 1, 2**63 + 1, 2**64 - 1])],
        lambda: [1, 33, r.choice([3, 4, 2**32, 2**64 - 1])],
        lambda: [1, 51, 0],
        lambda: [0],
        lambda: [1],
        lambda: [1, r.choice(INT_IDS)],
        lambda: [3],
        lambda: [3, 0],
        lambda: [3] + txt("unterminated"),
        lambda: [4] + txt("key") + [0],
        lambda: [4] + txt("key"),
        lambda: [4] + txt("key") + [0, 0],
        lambda: [4, 0] + txt("value") + [0],
        lambda: [4] + txt("key") + [0] + txt("unterminated"),
        lambda: [3] + txt("ab") + [r.choice([256, 2**32 + 97, 2**64 - 1]), 0],
        lambda: [4] + txt("ab") + [0] + txt("c") + [r.choice([256, 300]), 0],
        lambda: [r.choice([3, 4]), 0xC0, 0x80, 0] + txt("v") + [0],
        lambda: [3, 0xED, 0xA0, 0x80, 0],
    ])()


def position(r):
    return r.choice([0, NONE32, 1, 2, 3, 17, 2**31, NONE32 - 1])


def attr_blocks(r, bad=0.0):
    """(groups block, lists block, number of lists)"""
    ids = r.sample([0, 1, 2, 3, 4, 5, 9, 77, 2**16, NONE32], r.randrange(1, 6))
    g = Blk(10)
    for i in ids + ([r.choice(ids)] if r.random() < .25 else []):
        attrs = [attribute(r) for _ in range(r.choice([0, 1, 1, 2, 3, 6]))]
        if len(attrs) == 0:
            attrs = [attribute(r)]
        if r.random() < bad:
            attrs.insert(r.choice([len(attrs), r.randrange(len(attrs) + 1)]), bad_attribute(r))
        f = [i, position(r)] + [x for a in attrs for x in a]
        k = r.random()
        if k < bad * .3:
            f = f[:r.choice([0, 1, 2, r.randrange(len(f))])]
        g.rec(3 if r.random() >= bad * .2 else r.choice([0, 1, 2, 4, 2**32 + 3]), *f)
    p = Blk(9)
    n = r.randrange(0, 5)
    for _ in range(n):
        f = [r.choice(ids) for _ in range(r.choice([0, 1, 1, 2, 3]))] or [r.choice(ids)]
        if r.random() < bad * .5:
            f.insert(r.randrange(len(f) + 1), r.choice([6, 78, 2**31]))
        p.rec(2 if r.random() >= bad * .2 else r.choice([0, 1, 3, 4]), *f)
    return g, p, n


# ---- modules -----------------------------------------------------------------------------------
LAYOUTS = ["e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-f80:128-n8:16:32:64-S128", "e-E", "E-p:32:32", "E-p:64:64:64-a:0:64-S8",
           "e-P1-G2-A5-ni:4:5-n32-Fi8", "e-m:o-i128:128-v64:32:64-Fn32", "e-m:w-p1:16:8:16:8", "E-m:m-f64:32:64"]
BAD_LAYOUTS = ["--", "e-", "q1", "e-S7", "S12", "e-p:64", "e-i0:8", "n-e", "e-ni:0", "e-m:q", "F8", "e-i8:16:8", "e-\u00e9"]


class Module:
    """A random module and what it's made of; `bad` is the rate of defects."""

    def __init__(self, r, bad=0.0, focus=None):
        self.r, self.bad, self.focus = r, bad, focus
        on = lambda p: r.random() < p
        self.types = Types(r, legal=.9 if bad and focus == "types" else 1)
        if "Function" not in self.types.kinds and focus in ("functions", None):
            while "Function" not in self.types.kinds:
                self.types = Types(r, r.choice([4, 6, 10]), legal=1)
        self.names = [txt(word(r, 1)) for _ in range(r.randrange(1, 6))]
        self.table = [b for n in self.names for b in n]
        if len(self.table) < 2:
            self.table += [65, 66]
        if on(.1):
            self.table.insert(r.randrange(len(self.table)), r.choice([0xFF, 0x80, 0xC3]))
        self.sections, self.gcs, self.libs = self.texts([0, 1, 2, 3]), self.texts([0, 1, 2, 3]), self.texts([0, 0, 1, 3])
        self.groups, self.lists, self.nlists = attr_blocks(r, bad if focus == "attributes" else 0)
        self.haslists = on(.8)
        if not self.haslists:
            self.nlists = 0

    def texts(self, sizes):
        """Names, some of them more than once."""
        r = self.r
        t = [txt(word(r)) for _ in range(r.choice(sizes))]
        return [r.choice(t[:2] if r.random() < .7 else t) for _ in range(r.choice([2, 3, 4, 6]))] if t and r.random() < .3 else t

    def range(self):
        """Where a name lies in the string table."""
        r, n = self.r, len(self.table)
        if self.focus in ("functions", "globals", "strtab") and r.random() < self.bad * .2:
            return r.choice([(0, 0), (n, 0), (n, 1), (0, n + 1), (n - 1, 2), (1, n), (2**32, 1), (2**64 - 1, 1), (1, 2**64 - 1),
                             (2**64 - 1, 2), (2**63, 2**63), (0, 2**32 + 1), (2**32, 2), (n + 1, 1)])
        i = r.randrange(len(self.names))
        if r.random() < .8:
            return sum(map(len, self.names[:i])), len(self.names[i])
        a = r.randrange(n)
        return a, r.randrange(1, n - a + 1)

    def pick(self, good, wrong):
        return self.r.choice(wrong) if self.r.random() < self.bad * .12 else self.r.choice(good)

    def function(self):
        r, t = self.r, self.types
        fns = [i for i, k in enumerate(t.kinds) if k == "Function"]
        others = [i for i, k in enumerate(t.kinds) if k != "Function"] + [t.n, t.n + 1, 2**32, 2**64 - 1] + [2**32 + i for i in fns]
        opt = lambda n: self.pick(list(range(n + 1)), [n + 1, n + 2, 2**32 + 1, 2**64 - 1])
        f = list(self.range()) + [
            self.pick(fns, others),
            self.pick([0, 0, 0, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 64, 65, 70, 72, 75, 78, 80, 83, 84, 90, 92, 93, 94, 95, 96],
                      [1, 7, 18, 63, 73, 74, 97, 1023, 2**32, 2**64 - 1]),
            r.choice([0, 1, 1, 2, 2**40]),
            r.choice(list(range(20)) + [20, 25, 2**32, 2**64 - 1]),
            opt(self.nlists),
            self.pick([0, 0, 1, 2, 5, 17, 31, 32, 33, 63, 64], [65, 66, 128, 255, 256, 257, 2**32 + 1, 2**64 - 1]),
            opt(len(self.sections)),
            self.pick([0, 1, 2], [3, 4, 256, 2**32, 2**64 - 1]),
            opt(len(self.gcs)),
            r.choice([0, 1, 2, 3, 2**64 - 1]),
            r.choice([0, 0, 5, 2**64 - 1]),
            self.pick([0, 1, 2], [3, 256, 2**32 + 1, 2**64 - 1]),
            r.choice([0, 1, 2, 9]),
            r.choice([0, 0, 3]),
        ] + [r.randrange(4) for _ in range(r.choice([0, 0, 2, 5]))]
        return f[:r.choice([len(f)] * 4 + [10, 11, 12, 13, 14, 15])] if r.random() >= self.bad * .1 else f[:r.randrange(10)]

    def comdat(self):
        f = list(self.range()) + [self.pick([1, 2, 3, 4, 5], [0, 6, 10, 11, 257, 2**32 + 1, 2**64 - 1])]
        if self.r.random() < self.bad * .15:
            return f[:self.r.randrange(3)] if self.r.random() < .7 else f + [1]
        return f

    def alias(self):
        r, t = self.r, self.types
        f = list(self.range()) + [
            self.pick(list(range(t.n)), [t.n, t.n + 1, 2**32, 2**64 - 1]),
            r.choice([0, 0, 1, 5, 2**63]),
            r.choice([0, 1, 7, 2**32, 2**64 - 1]),
            r.choice(list(range(20)) + [20, 2**64 - 1]),
            self.pick([0, 1, 2], [3, 256, 2**32, 2**64 - 1]),
            self.pick([0, 1, 2], [3, 257, 2**64 - 1]),
            r.choice([0, 1, 2, 3, 4, 5, 2**32, 2**64 - 1]),
            r.choice([0, 1, 2, 3, 2**64 - 1]),
            r.choice([0, 1, 2, 2**64 - 1]),
        ] + [r.randrange(3) for _ in range(r.choice([0, 0, 2]))]
        return f[:r.choice([len(f)] * 4 + [6, 7, 8, 9, 10])] if r.random() >= self.bad * .1 else f[:r.randrange(6)]

    def build(self):
        """The module block."""
        r = self.r
        on = lambda p: r.random() < p
        recs = []

        def add(code, *fs):
            for f in fs:
                recs.append((code, list(f)))
        version = [2] if on(.8) else [r.choice([2, 3, 2**40])] + [1] * r.randrange(3)
        refers = False
        if self.focus in ("functions", None) or on(.3):
            n = r.choice([0, 1, 2, 4])
            add(8, *[self.function() for _ in range(n if "Function" in self.types.kinds else 0)])
        if self.focus in ("globals", None) or on(.3):
            add(12, *[self.comdat() for _ in range(r.choice([0, 1, 2]))])
            add(14, *[self.alias() for _ in range(r.choice([0, 1, 2]))])
        refers = any(c in (8, 12, 14) for c, _ in recs)
        if not refers and on(.3) or on(self.bad * .05):
            version = [r.choice([0, 1])]
        if on(.6):
            add(2, txt(r.choice(["x86_64-unknown-linux-gnu", "arm64-apple-macosx", word(r)])))
        if on(.6):
            add(3, txt(r.choice(LAYOUTS)))
        if on(.5):
            add(4, txt(r.choice(["nop\nnop", "a\n", "\nx", "\n\n", "ret", "one\r\ntwo\n\nthree", word(r)])))
        add(1, version)
        r.shuffle(recs)
        for code, texts in ((5, self.sections), (6, self.libs), (11, self.gcs)):
            for t in texts:
                recs.insert(r.randrange(len(recs) + 1), (code, t))
        # Keep the order of the names.
        for code, texts in ((5, self.sections), (6, self.libs), (11, self.gcs)):
            where = [i for i, x in enumerate(recs) if x[0] == code]
            for i, t in zip(where, texts):
                recs[i] = (code, t)
        if on(.3):      # records that don't matter here
            for _ in range(r.randrange(3)):
                recs.insert(r.randrange(len(recs) + 1), (r.choice([7, 9, 13, 15, 16, 17, 18, 19, 100, 2**32 + 8, 2**64 - 1]),
                                                        [r.randrange(300) for _ in range(r.randrange(4))]))
        subs = [self.types.block(), Blk(14).rec(1, 1, 2, 3) if on(.3) else Blk(14)]
        if self.haslists or on(.5):
            subs.append(self.groups)
        if self.haslists:
            subs.append(self.lists)
        r.shuffle(subs)
        if self.focus == "metadata" and on(self.bad):
            self.spoil(recs, subs)
        elif self.focus == "types" and on(self.bad):
            self.spoil_types(subs)
        b = Blk(8)
        items = recs[:]
        for s in subs:
            items.insert(r.randrange(len(items) + 1), s)
        # Sub-blocks in any order among the records: all that matters is which block they're in.
        b.items = items
        return b

    # -- defects
    def spoil(self, recs, subs):
        r = self.r
        bad_text = lambda: r.choice([[], [0xFF, 65], [65, 0x80], [65, 256], [66, 2**32 + 65], [0xC0, 0x80], [0xED, 0xA0, 0x80],
                                     [0xF4, 0x90, 0x80, 0x80], [0xE2, 0x82], [65, 2**64 - 1], [0xF5, 0x80, 0x80, 0x80]])
        k = r.randrange(9)
        if k == 0:
            recs.append((r.choice([2, 4, 5, 6, 11]), bad_text()))
        elif k == 1:
            recs[:] = [x for x in recs if x[0] != 1]
        elif k == 2:
            recs.append((1, [2]))
        elif k == 3:
            c = r.choice([2, 3, 4])
            recs[:] = [x for x in recs if x[0] != c]
            t = {2: "a-b-c", 3: "e-S64", 4: "nop"}[c]
            recs += [(c, txt(t)), (c, txt(t))]
        elif k == 4:
            del subs[r.randrange(len(subs))]
        elif k == 5:
            subs.append(copy.deepcopy(r.choice(subs)))
        elif k == 6:
            recs[:] = [x for x in recs if x[0] != 3] + [(3, txt(r.choice(BAD_LAYOUTS)) if r.random() < .8 else bad_text())]
        elif k == 7:
            recs[:] = [x for x in recs if x[0] != 1] + [(1, [])]
        else:
            subs.append(Blk(12))

    def spoil_types(self, subs):
        r, n = self.r, self.types.n
        b = [s for s in subs if s.id == 17][0]
        tr = [i for i, x in enumerate(b.items) if x[0] != 1]
        k = r.randrange(13)
        at = r.choice(tr) if tr else 0
        code, f = b.items[at]

        def operand(v):
            ops = {7: [0], 8: [0, 1], 11: [1], 12: [0, 1], 21: [1], 25: [0], 20: [1], 18: [1]}.get(code)
            if ops and len(f) > max(ops):
                f[r.choice(ops)] = v
        cnt = [i for i, x in enumerate(b.items) if x[0] == 1]
        if k == 0:
            b.items[cnt[0]] = (1, [r.choice([0, n - 1, n + 1, 2**32 + n, 2**64 - 1])])
        elif k == 1:
            del b.items[cnt[0]]
        elif k == 2:
            b.items[cnt[0]] = (1, [])
        elif k in (3, 4, 5):
            operand(r.choice([n, n + 1, 0, r.randrange(n), 2**23, 2**24, 2**32, 2**32 + 1, 2**63, 2**64 - 1]))
        elif k == 6 and f:
            f.pop()
        elif k == 7 and f:
            del f[0]
        elif k == 8:
            b.items.insert(at, (r.choice([0, 9, 26, 27, 100, 2**32 + 2, 2**64 - 1]), [1, 2, 3]))
        elif k == 9:
            b.items.insert(at, (19, r.choice([[], [0xFF, 65], [65, 300], [65, 66, 2**32]])))
        elif k == 10:
            b.items.append((19, txt("dangling")))        # harmless: nothing follows it
        elif k == 11:
            b.items.insert(at, (r.choice([7, 8, 11, 12, 18, 20, 21, 25, 6]), []))
        else:
            # Refer to what can't be referred to.
            b.items.append((PLAIN[r.choice(["Void", "Label", "Metadata", "Token", "X86Amx"])], []))
            b.items.append(r.choice([(8, [n, 0]), (11, [2, n]), (12, [2, n]), (18, [0, n]), (21, [0, n]), (21, [0, 0, n])]))
            b.items[cnt[0]] = (1, [n + 2])

    def stream(self):
        """Identification, module, string table and perhaps symbol table."""
        r = self.r
        i = ident(word(r), r.choice([0, 0, 1, 2**32, 2**64 - 1]))
        st = Blk(23).rec(1, *self.table)
        sy = symtab([r.randrange(256) for _ in range(r.randrange(2, 9))]) if r.random() < .4 else None
        if self.focus == "metadata" and r.random() < self.bad * .5:
            k = r.randrange(7)
            if k == 0:
                i.items = [r.choice(i.items)]
            elif k == 1:
                i = Blk(13).rec(1, *r.choice([[], [0xFF, 1], [300, 65]])).rec(2, 0)
            elif k == 2:
                i = Blk(13).rec(1, *txt("abc")).rec(2)
            elif k == 3:
                st = r.choice([Blk(23), Blk(23).rec(1), Blk(23).rec(1, 65, 256), Blk(23).rec(2, 65, 66)])
            elif k == 4:
                sy = r.choice([Blk(25), Blk(25).rec(1), Blk(25).rec(1, 65, 2**32), Blk(25).rec(2, 65, 66)])
            elif k == 5:
                i.items.reverse()
            else:
                i.rec(7, 1).rec(2**32 + 1, 66, 67)
        return i, self.build(), st, sy


def with_modules(r, mods, kind="tree", look=(), mode=None):
    """A case for whole modules: [(ident, module, strtab, symtab or None)]"""
    top, tree = [], []
    for i, m, s, y in mods:
        top += [i, m, s] + ([y] if y else [])
        tree.append({"ident": i.tree(), "module": [m.tree()], "strtab": [s.tree()], "symtab": [y.tree()] if y else []})
    # A symbol table is shared by preceding modules without one.
    for k in range(len(mods) - 1, 0, -1):
        if not tree[k - 1]["symtab"]:
            tree[k - 1]["symtab"] = tree[k]["symtab"]
    data = stream(top, r)
    return {"k": "map", "mode": mode or kind, "data": list(data), "look": [[str(a), str(b)] for a, b in look],
            "mods": tree if kind == "tree" else []}


def bytes_case(data, look=(), mode="bytes", skip=0):
    return {"k": "map", "mode": mode, "skip": skip, "data": list(data) if mode != "crash" else bytes(data).hex(),
            "look": [[str(a), str(b)] for a, b in look], "mods": []}


def result(o):
    """A mapping's result, with whatever is observable of the mapping state."""
    t = {"res": o.get("res", "?"), "modules": o.get("modules", []), "trees": [], "ctxs": [], "functions": [], "aliases": []}
    if t["res"] != "ok":
        return dict(t, modules=[])
    seen = {"module": [], "ctx": [], "functions": [], "aliases": []}
    for k, s in o["seen"]:
        seen.setdefault(k, []).append(rustdebug.canonical(k, s))
    for k, f in (("module", "trees"), ("ctx", "ctxs"), ("functions", "functions"), ("aliases", "aliases")):
        if len(seen[k]) == len(t["modules"]):
            t[f] = [(x[0] if x else rustdebug.NOTHING) for x in seen[k]] if k == "ctx" else seen[k]
    # A lookup's result is [] or [text]; "ambiguous" never is what's specified.
    for m in t["modules"]:
        m["look"] = [[[-1]] if x == "ambiguous" else x for x in m["look"]]
    return t


def trace(case, obs):
    global HOST
    HOST = HOST or host()
    crash = case["mode"] == "crash"
    t = {"mode": case["mode"], "kind": "auto", "host": HOST, "short": case.get("short", False), "skip": case.get("skip", 0), "len": len(case["data"]) // (2 if crash else 1),
         "data": case["data"] if case["mode"] == "bytes" else [], "mods": case["mods"],
         "looks": [[limbs(int(a)), limbs(int(b))] for a, b in case["look"]],
         "out": obs.get("out", "?"), "res": obs.get("res", "?"), "same": obs.get("same", False), "peak": obs.get("peak", 0),
         "modules": [], "trees": [], "ctxs": [], "functions": [], "aliases": [], "alts": []}
    if not crash:
        t.update(result(obs))
        t["alts"] = [{k: v for k, v in result(o).items() if k != "trees"} for o in obs.get("alts", [])]
    return t, 1 + len(t["modules"]) * 4


# ---- the same content, spelled in other ways -------------------------------------------------------
def records_by_id(blocks, out):
    for b in blocks:
        for i in b.items:
            if isinstance(i, Blk):
                records_by_id([i], out)
            else:
                out.setdefault(b.id, []).append(i)
    return out


def spelled(r, tops):
    """Any widths, abbreviations, BLOCKINFO, order of records among sub-blocks and of those with different ids,
    blocks and records in between that mean nothing, and perhaps a wrapper."""
    w = Writer()
    known = records_by_id(tops, {})
    calm = r.choice([0, .05, .3])

    def info():
        w.enter(0, r.choice([2, 3, 4, 7]))
        for _ in range(r.choice([0, 1, 2, 4])):
            bid = r.choice(list(known) + [0, 99])
            w.setbid(bid)
            for _ in range(r.choice([0, 1, 2])):
                w.define(abbrev_for(r, *r.choice(known.get(bid, [(1, [2, 3])]))))
        w.end()

    def record(code, f):
        vals = [code] + f
        if r.random() < .15 and room(w, 4 + len(w.abbrevs)):
            w.define(abbrev_for(r, code, f))
        ks = [k for k, a in enumerate(w.abbrevs) if room(w, 4 + k) and matches(a, vals)]
        if ks and r.random() < .7:
            w.abbreviated(r.choice(ks), code, f)
        else:
            w.unabbrev(code, f, pads=lambda: 0 if r.random() < .9 else r.randrange(3))

    def block(b):
        w.enter(b.id, r.choice([2, 3, 4, 4, 5, 6, 8, 12]), length=r.choice([None, None, None, 0, r.getrandbits(32)]))
        queues = {}
        for i in b.items:
            queues.setdefault(i.id if isinstance(i, Blk) else -1, []).append(i)
        order = [k for k, q in queues.items() for _ in q]
        if r.random() < .8:
            r.shuffle(order)
        for k in order + [None]:
            if r.random() < calm:
                c = r.randrange(3)
                if c == 0:
                    info()
                elif c == 1:
                    write(w, fill(r, Blk(r.choice(NEUTRAL)), 3, r.sample(NEUTRAL, 2)), r)
                elif b.id == 8:
                    record(r.choice([7, 9, 17, 20, 21, 99, 2**33, 2**64 - 1]), [value(r) for _ in range(r.choice([0, 1, 3]))])
            i = queues[k].pop(0) if k is not None else None
            if isinstance(i, Blk):
                block(i)
            elif i:
                record(*i)
        w.end()
    for b in tops:
        if r.random() < max(calm, .1):
            info()
        block(b)
    data = w.bytes()
    if r.random() < .3:
        data = wrap(data, r.choice([20, 24, 40]), bytes(r.choice([0, 4, 7])), r.getrandbits(8), r.getrandbits(8))
    return data


def c27(r, quick):
    out = []
    for _ in range(150 if quick else 2500):
        focus = r.choice([None, "functions", "globals", "types", "attributes", "metadata"])
        bad = r.choice((0, 0, 0, .4, 1.0))
        mods = [Module(r, bad, focus).stream() for _ in range(r.choice([1, 1, 2]))]
        tops = [b for m in mods for b in m if b]
        c = with_modules(r, mods, look=[(r.randrange(12), r.randrange(1, 5)) for _ in range(4)])
        c["alts"] = [list(spelled(r, tops)) for _ in range(6)]
        out.append(c)
    for _ in range(40 if quick else 500):       # whatever the content, however little of it makes sense
        tops = [r.choice([ident(), min_module(), strtab(), symtab(), fill(r, Blk(r.choice(ANY)), 2, r.sample(ANY, 3))]) for _ in range(r.choice([1, 2, 4]))]
        c = bytes_case(stream(tops, r))
        c["alts"] = [list(spelled(r, tops)) for _ in range(4)]
        out.append(c)
    return out


# ---- per property --------------------------------------------------------------------------------
#: Block ids without a meaning of their own inside of a module (or anywhere below).
NEUTRAL = [0xB, 15, 16, 18, 19, 20, 21, 22, 24, 26, 27, 1, 2, 5, 7, 100, 127, 128, 2**32, 2**32 + 8, 2**32 + 17, 2**64 - 1]
ANY = NEUTRAL + [8, 9, 10, 12, 13, 14, 17, 23, 25]


def fill(r, b, depth, ids):
    """Arbitrary content: records and sub-blocks, interleaved."""
    for _ in range(r.choice([0, 1, 2, 3, 5]) if depth else r.choice([1, 3, 6])):
        if depth < 5 and r.random() < .45:
            b.sub(fill(r, Blk(r.choice(ids)), depth + 1, r.sample(ANY, 3) if r.random() < .5 else ids))
        else:
            b.rec(r.choice([7, 9, 17, 20, 21, 99, 2**33, 2**64 - 1]), *[value(r) for _ in range(r.choice([0, 1, 1, 2, 4]))])
    return b


def scatter(r, b, extra):
    for i in extra:
        b.items.insert(r.randrange(len(b.items) + 1), i)


def unfinished(r, depth):
    """A stream that ends where an entry would begin: all its blocks are whole but the last ones."""
    w = Writer()
    tops = [ident(), min_module(), strtab(), symtab()]
    for b in tops[:r.randrange(0, 4)]:
        write(w, b)
    for d in range(depth):
        w.enter(r.choice([8, 13, 23, 11, 100]) if d == 0 else r.choice(NEUTRAL), r.choice([3, 4, 5, 8]))
        for _ in range(r.randrange(3)):
            w.unabbrev(r.choice([1, 2, 7]), [r.randrange(64) for _ in range(r.randrange(4))])
        if r.random() < .3:
            write(w, Blk(r.choice(NEUTRAL)).rec(1, 2, 3))
    # Unabbreviated records of suitable lengths fill the last word.
    for _ in range(200):
        if w.bitpos() % 32 == 0:
            break
        w.unabbrev(r.choice([7, 9]), [1] * r.randrange(3))
    return w.raw()


def c12(r, quick):
    out = [bytes_case(unfinished(r, d)) for d in range(0, 5) for _ in range(12 if quick else 100)]
    for k in range(260 if quick else 4000):
        tops = []
        for _ in range(r.choice([1, 1, 1, 2])):
            i, m, s = ident(), min_module(), strtab()
            for b, p in ((m, 1), (i, .3), (s, .3)):
                if r.random() < p:
                    scatter(r, b, fill(r, Blk(0), 0, r.sample(NEUTRAL, 3)).items)
            tops += [i, m, s] + ([symtab()] if r.random() < .3 else [])
        data = stream(tops, r)
        if k % 13 == 0 and len(tops) > 2:      # ends inside of a block
            data = data[:4 * r.randrange(1, len(data) // 4)]
        out.append(bytes_case(data))
        # Entries read before mapping aren't part of any block.
        if k % 4 == 0:
            more = [fill(r, Blk(r.choice(ANY)), 1, r.sample(ANY, 3)) for _ in range(r.choice([1, 2]))]
            n = sum(map(entries_of, more))
            out.append(bytes_case(stream(more + tops, r), skip=n if r.random() < .8 else r.randrange(n + 3)))
    # Many siblings; many records; deep nesting; the same ids at all levels.
    m = min_module()
    for j in range(60):
        m.sub(Blk(r.choice([11, 15])).rec(j, j, 2))
        m.rec(7, j)
    out.append(bytes_case(stream([ident(), m, strtab()])))
    for depth in (10, 40, 60):
        b = m = min_module()
        for j in range(depth):
            b.rec(7, j)
            b = b.sub(Blk([8, 11, 17, 9, 2**40][j % 5 if j else 1]))
        b.rec(1, 2, 3)
        out.append(bytes_case(stream([ident(), m, strtab()])))
    # Much at one level, next to little at the others.
    for depth in range(1, 7):
        for much in range(0, depth + 1) if not quick else r.sample(range(depth + 1), 2):
            b = m = min_module()
            for j in range(depth + 1):
                n = r.choice([12, 20, 40]) if j == much else r.randrange(3)
                at = r.randrange(n) if n and r.random() < .3 else n
                deeper = Blk(r.choice([8, 11, 12, 17, 9, 2**40]) if j else r.choice([11, 15, 2**40]))
                for k in range(n):
                    if k == at and j < depth:
                        b.sub(deeper)
                    b.rec(7, j, k)
                    if r.random() < .2:
                        b.sub(Blk(r.choice([11, 15])).rec(j, k))
                if at >= n and j < depth:
                    b.sub(deeper)
                b = deeper
            out.append(bytes_case(stream([ident(), m, strtab()])))
    for n in (1, 3):
        for cut in range(0, 3):
            w = Writer()
            for b in [ident(), min_module(), strtab()][:n]:
                write(w, b)
            for _ in range(cut):
                w.enter(r.choice([8, 13, 11]), 3)
                w.unabbrev(7, [1])
            out.append(bytes_case(w.raw()))
    return out


def tag(k, n):
    if k == "I":
        return ident("id%d" % n, n)
    if k == "M":
        m = min_module()
        m.rec(2, *txt("triple%d" % n))
        return m
    if k == "S":
        return strtab(b"strtab%d" % n)
    if k == "Y":
        return symtab(b"symtab%d" % n)
    if k == "m":
        return Blk(8).rec(1, 2)       # no type table
    if k == "i":
        return Blk(13)
    if k == "E":
        return Blk(8)
    if k == "T":                      # a type table, no version
        return Blk(8).sub(Blk(17).rec(1, 0))
    if k == "V":                      # no version first, but later
        m = min_module()
        m.items = m.items[::-1]
        return m.rec(2, *txt("other%d" % n))
    if k == "s":
        return Blk(23)
    if k == "y":
        return Blk(25)
    return Blk({"x": 0xB, "u": 100, "r": 3, "t": 17, "v": 2**32 + 13, "b": 0}[k])


def groupings(r, quick):
    for n in range(0, 5 if quick else 7):
        yield from ("".join(x) for x in itertools.product("IMSY", repeat=n))
    # Twice the same block, the first or the second of which has less in it.
    for a in "MmETVB":
        for b in "MmETVB":
            for rest in ("S", "", "IMS") if not quick else (r.choice(["S", "", "IMS"]),):
                yield "I" + a.replace("B", "x") + b.replace("B", "x") + rest
    for a, b in itertools.product("IiMSsYy", repeat=2):
        yield "IM" + a + b + r.choice(["", "S", "SY", "IMS"])
        yield a + b + r.choice(["MS", "IMS", "M", "MSY"])
    for _ in range(150 if quick else 3000):
        s = ""
        for _ in range(r.randrange(1, 7)):
            s += "I" + ("M" if r.random() < .95 else "") + r.choice(["", "", "S", "SY", "YS", "Y", "SS", "SYSY", "YY"])
        if r.random() < .85:
            s += r.choice(["S", "SY"])
        if r.random() < .12:
            k = r.randrange(len(s) + 1)
            s = s[:k] + r.choice("xurtvbmIMR") + s[k:]
        yield s


def entries_of(b):
    """How many entries a block makes."""
    return 2 + sum(1 if isinstance(i, tuple) else entries_of(i) for i in b.items)


def c13(r, quick):
    out = []
    for s in groupings(r, quick):
        w = Writer()
        sizes = []
        for n, k in enumerate(s):
            if k == "R":
                w.unabbrev(7, [1])
                continue
            sizes.append(tag(k, n))
            write(w, sizes[-1])
        out.append(bytes_case(w.bytes()))
        # Blocks that were read before mapping don't count.
        if len(sizes) > 1 and "R" not in s and r.random() < .2:
            sizes = [entries_of(b) for b in sizes]
            skip = sum(sizes[:r.randrange(1, len(sizes))])
            out.append(bytes_case(w.bytes(), skip=r.choice([skip, skip, skip, r.randrange(sum(sizes))])))
    return out


def mapped(r, n, focus, rates=(0, 0, .5, 1.0), many=.1, look=None):
    out = []
    for _ in range(n):
        bad = r.choice(rates)
        mods = [Module(r, bad, focus).stream() for _ in range(2 if r.random() < many else 1)]
        at = look(r, mods) if look else ()
        if r.random() < .12:        # written differently, with something meaningless in between
            out.append(bytes_case(spelled(r, [b for m in mods for b in m if b]), at))
        else:
            out.append(with_modules(r, mods, look=at))
    return out


def shuffled(r, b):
    b.items = r.sample(b.items, len(b.items))
    return b


def identifications(r, quick):
    """Identification, string and symbol table blocks with more, less or something else in them."""
    out = []

    def one(i=None, s=None, y=None, m=None):
        out.append(with_modules(r, [(i or ident(), m or min_module(), s or strtab(), y)]))
    for epoch in ([], [0], [1], [0, 0], [0, 1], [7, 0], [1, 0], [0] * 5, [256], [255], [2**8 - 1, 1], [2**16, 3], [2**32], [2**32 - 1, 2**31],
                  [2**63], [2**64 - 1], [2**64 - 1, 0], [1, 2, 3, 4, 5, 6, 7, 8], [1] * 8, [5] * 9, [65, 66]):
        for pre in ([], [1], [2], [1, 2]):
            one(Blk(13, *[(1, txt("pro"))], *[(2, list(epoch))], *[(c + 6, [1, 2]) for c in pre]))
        one(Blk(13, (2, list(epoch)), (1, txt("mollusc"))))
        one(Blk(13, (1, txt("mollusc")), (2, [3]), (2, list(epoch))))
        one(Blk(13, (1, txt("mollusc")), (2, list(epoch)), (2, [3])))
        one(Blk(13, (1, list(epoch)), (2, [3])))
        one(Blk(13, (1, txt("first")), (1, list(epoch)), (2, [3])))
    for v in ([], [0], [1], [2], [2, 0], [2, 1, 7], [3], [0, 2], [256], [258], [2**32], [2**32 + 2], [2**64 - 1], [2**63, 2]):
        m = min_module()
        m.items[0] = (1, v)
        one(m=m)
        one(m=shuffled(r, m))
    for data in ([], [0], [255, 255], [0, 0, 0], [256, 1], [1, 256], [2**32, 2**32], [65, 66, 2**64 - 1], list(range(256)), [128, 129]):
        one(s=Blk(23, (1, list(data))))
        one(s=Blk(23, (1, list(data)), (1, txt("later"))))
        one(s=Blk(23, (3, [1]), (1, list(data)), (2, [1])))
        one(s=Blk(23, (1, txt("table"))), y=Blk(25, (1, list(data))))
        one(s=Blk(23, (1, txt("table"))), y=Blk(25, (1, list(data)), (1, txt("later"))))
        one(s=Blk(23, (1, txt("table"))), y=Blk(25, (2, [1]), (1, list(data))))
    # Texts of the module block: which records, how often, in which order; what they may contain.
    for code in (2, 3, 4, 5, 6, 11):
        for t in ([], [0xC3, 0xA9], [0xC3], [65, 0], [0, 0], [256, 65], [2**32 + 101, 45], [0xEF, 0xBB, 0xBF], [0xEF, 0xBF, 0xBF], [0xF4, 0x8F, 0xBF, 0xBF],
                  [0xF4, 0x90, 0x80, 0x80], [0xE0, 0x9F, 0xBF], [0xE0, 0xA0, 0x80], [0xED, 0x9F, 0xBF], [0xED, 0xA0, 0x80], [0xC1, 0xBF], [0xC2, 0x80],
                  [0xF0, 0x8F, 0xBF, 0xBF], [0xF0, 0x90, 0x80, 0x80], [0x80, 65], [65, 0xBF], [10, 10], [13, 10], [65, 10, 66, 10], txt("a\u2028b\x0bc\x0cd\x85e")):
            for times in (1, 2):
                m = min_module()
                for _ in range(times):
                    m.rec(code, *t)
                one(m=shuffled(r, m))
    return out


def c14(r, quick):
    return mapped(r, 500 if quick else 8000, "metadata") + identifications(r, quick)


def c15(r, quick):
    def look(r, mods):
        n = min(len(m[2].items[0][1]) for m in mods)
        big = [2**31, 2**32 - 1, 2**32, 2**63 - 1, 2**63, 2**64 - n, 2**64 - 2, 2**64 - 1]
        l = [(a, b) for a in range(n + 2) for b in range(n + 2 - (a > 2))] if n < 12 else []
        l += [(r.randrange(n + 2), r.randrange(n + 2)) for _ in range(20)]
        l += [(a, n - a) for a in range(n)] + [(a, n - a + 1) for a in range(n)]
        l += [(r.choice(big), r.choice([0, 1, n, r.choice(big)])) for _ in range(12)]
        l += [(r.choice([0, 1, n - 1, n]), r.choice(big)) for _ in range(12)] + [(a, 2**64 - a) for a in (1, 2, n)]
        return l

    def texts(r, mods):
        for m in mods:
            k = r.random()
            if k < .7:
                s = "".join(r.choice("abz\u00e9\u00df\u4e16\u754c\U0001f600\x00~") for _ in range(r.randrange(2, 9))).encode()
                if k < .2:
                    s += bytes(r.choice([[0xFF], [0xC3], [0xE2, 0x82], [0xED, 0xA0, 0x80], [0xF0, 0x80, 0x80, 0x80], [0xC0, 0xAF]]))
                s = s if len(s) > 1 else s + b"x"
                if k < .5:
                    m[2].items = [(1, list(s))]
        return look(r, mods)

    out = []
    for _ in range(200 if quick else 4000):
        mods = [(ident(), min_module(), Blk(23).rec(1, *[r.choice([65, 66, 0xC3, 0xA9, 0xE2, 0x82, 0xAC, 0xF0, 0x9F, 0x98, 0x80, 0])
                                                         for _ in range(r.randrange(2, 12))]), None)]
        if r.random() < .6:
            mods[0][2].items = [(1, txt("".join(r.choice("ab\u00e9\u4e16\U0001f600") for _ in range(r.randrange(2, 7)))))]
        out.append(with_modules(r, mods, look=look(r, mods)))
    return out + mapped(r, 120 if quick else 3000, "strtab", look=look) + mapped(r, 120 if quick else 2000, "globals", (.5, 1.0))


def type_module(recs, count=None, at=0):
    t = Blk(17)
    for c, f in recs:
        t.rec(c, *f)
    n = sum(1 for c, _ in recs if c not in (1, 19)) if count is None else count
    t.items.insert(at, (1, [n]))
    m = Blk(8).rec(1, 2)
    m.sub(t)
    m.sub(Blk(14))
    return ident(), m, strtab(), None


def type_chains(r):
    """Nesting, forwards and backwards, shallow and deep; cycles."""
    out = []
    for n in (2, 20, 40, 200):
        for wrap_ in ((lambda j: (8, [j, 0])), (lambda j: (11, [2, j])), (lambda j: (18, [0, j])), (lambda j: (20, [1, j])))[:4 if n < 100 else 1]:
            out.append([(7, [8])] + [wrap_(j) for j in range(n)])
            out.append([wrap_(j + 1) for j in range(n)] + [(7, [8])])
    for n in (300, 400):
        out.append([(7, [8])] + [(8, [j, 0]) for j in range(n)])
    out.append([(8, [j + 1, 0]) for j in range(700)] + [(7, [8])])
    out.append([(8, [0, 0])])
    out.append([(18, [0, 0])])
    out.append([(21, [0, 0])])
    out.append([(7, [8]), (8, [2, 0]), (8, [1, 0])])
    out.append([(7, [8]), (8, [3, 0]), (8, [1, 0]), (11, [3, 2])])
    out.append([(7, [8]), (20, [0, 0, 2]), (8, [1, 0])])      # a list node
    # A legal loop-free table whose last entry refers to itself.
    out.append([(7, [8]), (2, []), (8, [0, 0]), (18, [0, 3])])
    return out


def aliased(vs):
    """Values, and values that are the same when they are truncated."""
    out = list(vs)
    for v in vs:
        out += [v + (1 << k) for k in (7, 8, 15, 16, 23, 24, 31, 32, 33, 48, 63) if v + (1 << k) < 2**64]
        out += [2**64 - 1 - v, 2**32 - 1 - v]
    return sorted(set(out))


def type_operands(r, quick):
    """Every operand of every kind of type record, over a legal value and everything that resembles it."""
    out = []
    base = [(7, [8]), (20, [0, 3]), (2, []), (25, [1]), (21, [0, 2]), (3, [])]   # integer, struct, void, pointer, function, float
    forms = [(7, [8]), (8, [0, 1]), (25, [0]), (11, [3, 0]), (12, [4, 0]), (12, [4, 0, 1]), (18, [1, 0, 3]), (20, [0, 3, 5]), (21, [0, 2, 0]), (21, [1, 0, 3, 1])]
    for code, f in forms:
        for i in range(len(f)):
            vals = aliased([f[i]]) + [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 2**23, 2**24, 2**24 + 1, 2**32, 2**63]
            for v in vals if not quick else r.sample(vals, 14) + [2**32 + f[i], 2**64 - 1, f[i] + 256]:
                at = r.randrange(2) * r.randrange(len(base))
                # References are forward ones in half of the cases.
                recs, pad = ([(code, f[:i] + [v] + f[i + 1:])], base)
                if at:
                    t = pad + ([(19, txt("nm"))] if code == 20 else []) + recs
                    t = t[:1] + [(19, txt("st"))] + t[1:]
                    out.append(with_modules(r, [type_module(t)]))
                else:
                    shift = {8: [0], 11: [1], 12: [1], 18: range(1, 9), 20: range(1, 9), 21: range(1, 9)}.get(code, [])
                    g = [(x + 1 if j in shift and x + 1 < 2**64 and (x < 2**24 or j == i) else x) for j, x in enumerate(f[:i] + [v] + f[i + 1:])]
                    b2 = [(20, [0, 4]) if c == 20 else (21, [0, 3]) if c == 21 else (c, x) for c, x in base]
                    t = ([(19, txt("nm"))] if code == 20 else []) + [(code, g)] + b2[:1] + [(19, txt("st"))] + b2[1:]
                    out.append(with_modules(r, [type_module(t)]))
    return out


def c16(r, quick):
    out = mapped(r, 420 if quick else 8000, "types", (0, 0, 1.0, 1.0)) + type_operands(r, quick)
    for recs in type_chains(r):
        out.append(with_modules(r, [type_module(recs)]))
    # Every kind of type as every kind of part.
    kinds = [(c, []) for c in sorted(PLAIN.values())] + [(7, [8]), (25, [3]), (8, [0, 1]), (11, [3, 0]), (12, [2, 0]), (12, [2, 0, 1]),
                                                        (18, [0, 0]), (20, [1]), (21, [0, 0]), (6, [])]
    for k in kinds:
        for use in ((8, [1, 0]), (11, [2, 1]), (12, [2, 1]), (12, [2, 1, 1]), (18, [0, 0, 1]), (21, [0, 1]), (21, [1, 0, 0, 1])):
            out.append(with_modules(r, [type_module([(7, [32]), (19, txt("name")), k, use] if k[0] in (6, 20) else [(7, [32]), k, use])]))
    for w in [0, 1, 2**24 - 1, 2**24, 2**24 + 1, 2**31, 2**32 - 1, 2**32, 2**32 + 8, 2**64 - 1]:
        out.append(with_modules(r, [type_module([(7, [w])])]))
    for a in [0, 1, 2**23 - 1, 2**23, 2**24 - 1, 2**24, 2**32 - 1, 2**32, 2**32 + 1, 2**64 - 1]:
        out.append(with_modules(r, [type_module([(25, [a])])]))
        out.append(with_modules(r, [type_module([(7, [8]), (8, [0, a])])]))
    for n in range(5):          # every small count
        for count in [0, 1, 2, 3, 4, 5, 2**32 + n, 2**64 - 1]:
            recs = r.sample([(7, [8]), (3, []), (2, []), (25, [0]), (7, [64])], n)
            if r.random() < .3:
                recs.insert(r.randrange(n + 1), (19, txt("left")))
            out.append(with_modules(r, [type_module(recs, count, r.choice([0, 0, len(recs)]))]))
    # More operands than needed, in every kind of record, and none at all; names where they're needed, where they
    # aren't, left over and in pieces.
    nm = (19, txt("nm"))
    for c, f in [(c, []) for c in sorted(PLAIN.values())] + [(1, [3]), (7, [8]), (25, [3]), (8, [0, 1]), (11, [3, 0]), (12, [2, 0]), (12, [2, 0, 1]),
                                                            (18, [0, 0]), (20, [1, 0]), (21, [0, 0]), (6, [0]), (6, []), (20, [1])]:
        for extra in ([0], [1], [5], [0, 0], [2**32], [2**64 - 1, 2], [7, 7, 7]):
            for name in ([], [nm]):
                recs = [(7, [32])] + name + [(c, f + extra)]
                if c == 1:
                    for at in range(3):
                        t = [(7, [32]), (3, [])]
                        n = r.choice([2, extra[0]])
                        t.insert(at, (1, [n] + extra))
                        m = Blk(17)
                        for cc, ff in t:
                            m.rec(cc, *ff)
                        mm = Blk(8).rec(1, 2)
                        mm.sub(m)
                        out.append(with_modules(r, [(ident(), mm, strtab(), None)]))
                else:
                    out.append(with_modules(r, [type_module(recs)]))
    for f in ((6, [0]), (6, []), (20, [0, 0]), (20, [1])):
        for t in ([(7, [8]), f], [f], [nm, f, f], [nm, (7, [8]), f], [f, nm], [nm, f, nm], [nm, nm, f], [nm, f, nm, f], [nm, (18, [0]), f], [(19, []), f], [(19, [0]), f], [nm, (6, [0]), (20, [0])],
                  [nm, (20, [0]), (6, [0])]):
            out.append(with_modules(r, [type_module(t)]))
    return out


def c18(r, quick):
    out = mapped(r, 350 if quick else 7000, "attributes", (0, .3, .6))

    def one(attrs, where=NONE32, id=1):
        m = min_module()
        m.sub(Blk(10).rec(3, id, where, *attrs))
        m.sub(Blk(9).rec(2, id))
        out.append(with_modules(r, [(ident(), m, strtab(), None)]))
    for id in range(0, 90):         # every id, in every form
        one([0, id])
        one([1, id, r.choice([1, 2])])
    for id in INT_IDS:
        for v in [0, 1, 2, 3, 4, 8, 2**16, 2**31, 2**32 - 1, 2**32, 2**32 + 2, 2**33, 3 << 32 | NONE32, 5 << 32, 2**63, 2**64 - 1]:
            one([1, id, v])
    for w in (0, 1, 2, NONE32 - 1, NONE32):
        one([0, 2, 3, 65, 0, 4, 66, 0, 67, 0, 0, 3], w)
    return out


def c19(r, quick):
    out = mapped(r, 450 if quick else 8000, "functions", (0, 0, .4, 1.0))
    # Operand by operand, over everything its code space has to offer.
    base = [0, 2, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]
    vals = {2: [0, 1, 2, 3, 4, 5, 2**32 + 1], 3: list(range(0, 100)) + [256, 2**32, 2**64 - 1], 4: [0, 1, 2, 2**63], 5: list(range(22)) + [2**32],
            6: [0, 1, 2, 3, 4, 2**32 + 1, 2**64 - 1], 7: list(range(0, 68)) + [128, 255, 256, 257, 2**32, 2**64 - 1], 8: [0, 1, 2, 3, 4, 2**64 - 1], 9: [0, 1, 2, 3, 255, 2**32],
            10: [0, 1, 2, 3, 4, 2**32 + 1], 11: [0, 1, 2, 3, 2**64 - 1], 12: [0, 1], 13: [0, 1, 2, 3, 257], 14: [0, 1, 2]}
    fs = []
    for i, vs in vals.items():
        for v in vs:
            fs.append(base[:i] + [v] + base[i + 1:])
    for n in range(len(base) + 1):
        fs.append(([0, 2, 1, 8, 1, 3, 1, 4, 1, 1, 1, 2, 0, 1, 0])[:n])
    for f in fs:
        out.append(with_modules(r, [global_module([(8, f)])]))
    for v in (0, 1, 2, 3, 2**32, 2**64 - 1):
        out.append(with_modules(r, [global_module([(8, base)], v)]))
    out += packed(r, 8, [range(4), range(1, 6), [1, 2], [0, 8, 9, 10, 64, 67, 70, 80], [0, 0, 1, 2], range(20), range(4), [0, 1, 2, 5, 33, 64], range(4), range(3),
                         range(4), range(4), [0], range(3), [0], [0], [0, 1], [0, 1, 3], [0, 9]], 10, 8 if quick else 80, 60)
    return out


def global_module(recs, version=2):
    m = Blk(8).rec(1, version)
    t = m.sub(Blk(17).rec(1, 5))
    t.rec(2).rec(21, 0, 0).rec(21, 1, 0, 3).rec(7, 32).rec(25, 0)
    m.sub(Blk(14))
    m.sub(Blk(10).rec(3, 7, NONE32, 0, 18, 4, 65, 0, 66, 0).rec(3, 9, 0, 0, 34).rec(3, 1, 2, 1, 41, 8))
    m.sub(Blk(9).rec(2, 7, 1).rec(2, 9).rec(2, 1, 9, 7))
    m.rec(5, *txt(".text.a")).rec(5, *txt(".init")).rec(5, *txt("third"))
    m.rec(11, *txt("statepoint")).rec(11, *txt("shadow")).rec(11, *txt("erlang"))
    for c, f in recs:
        m.rec(c, *f)
    return ident(), m, strtab(b"fooBarbaz"), None


def packed(r, code, vals, shortest, modules, each):
    """Many valid records per module, of every length, for all combinations of a few operands."""
    out = []
    for _ in range(modules):
        recs = []
        for _ in range(each):
            f = [r.choice(v) for v in vals]
            recs.append((code, f[:r.choice([len(f)] * 3 + list(range(shortest, len(f))))]))
        out.append(with_modules(r, [global_module(recs)]))
    return out


def c20(r, quick):
    out = mapped(r, 400 if quick else 8000, "globals", (0, 0, .4, 1.0))
    for k in list(range(0, 14)) + [255, 256, 257, 2**32 + 1, 2**64 - 1]:
        out.append(with_modules(r, [global_module([(12, [0, 3, k])])]))
    for n in range(0, 6):
        out.append(with_modules(r, [global_module([(12, [0, 3, 1, 0, 0][:n])])]))
    base = [3, 3, 3, 0, 7, 0, 0, 0, 0, 0, 0]
    vals = {2: [0, 1, 2, 3, 4, 5, 2**32 + 3], 3: [0, 1, 2**23, 2**64 - 1], 4: [0, 1, 2, 2**32, 2**64 - 1], 5: list(range(22)) + [2**32, 2**64 - 1],
            6: [0, 1, 2, 3, 256, 2**32], 7: [0, 1, 2, 3, 257], 8: [0, 1, 2, 3, 4, 5, 6, 2**64 - 1], 9: [0, 1, 2, 3, 2**32 + 1], 10: [0, 1, 2, 2**64 - 1]}
    fs = [base[:i] + [v] + base[i + 1:] for i, vs in vals.items() for v in vs]
    fs += [([3, 3, 4, 5, 9, 3, 1, 2, 4, 1, 1, 7])[:n] for n in range(13)]
    for f in fs:
        out.append(with_modules(r, [global_module([(14, f)])]))
    for v in (0, 1, 2, 3, 2**64 - 1):
        for rec in ((12, [0, 3, 1]), (14, base)):
            out.append(with_modules(r, [global_module([rec], v)]))
    out += packed(r, 14, [range(4), range(1, 6), range(5), range(4), [0, 1, 7, 2**40, 2**64 - 1], range(20), range(3), range(3), range(6), range(4), range(3)], 6,
                  8 if quick else 80, 60)
    out += packed(r, 12, [range(4), range(1, 6), range(1, 6), [0, 1, 2**40]], 3, 2 if quick else 20, 60)
    # Aliases of the old format have a record code of their own.
    out.append(with_modules(r, [global_module([(9, [0, 0, 0])])]))
    return out


def whole(r, quick):
    """Whole modules with everything in them, parsed and mapped from their bytes."""
    out = []
    for _ in range(60 if quick else 1500):
        c = with_modules(r, [Module(r, r.choice([0, 0, .3]), r.choice([None, None, "types", "attributes", "functions", "globals", "metadata"])).stream()
                             for _ in range(r.choice([1, 1, 2]))])
        c["mode"], c["mods"] = "bytes", []
        out.append(c)
    return out


def mutate(r, b):
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 2, 4, 10, 30])):
        i = r.randrange(len(b))
        k = r.random()
        if k < .6:
            b[i] ^= 1 << r.randrange(8)
        elif k < .8:
            b[i] = r.choice([0, 255, r.randrange(256)])
        elif k < .9:
            j = 4 * (i // 4)
            b[j:j] = bytes(r.randrange(256) for _ in range(4))
        else:
            j = 4 * (i // 4)
            del b[j:j + 4]
        if len(b) < 4:
            b += bytes(4)
    return bytes(b)


def spiked(r):
    """A module some of whose operands are replaced by hostile numbers."""
    i, m, s, y = Module(r, r.choice([0, .3, 1]), r.choice([None, "types", "attributes", "functions", "globals", "metadata"])).stream()
    blocks = [i, m, s] + m.subs() + ([y] if y else [])
    for _ in range(r.choice([1, 2, 5])):
        b = r.choice(blocks)
        rs = [k for k, x in enumerate(b.items) if isinstance(x, tuple)]
        if rs:
            k = r.choice(rs)
            code, f = b.items[k]
            what = r.random()
            if what < .5 and f:
                f[r.randrange(len(f))] = r.choice([0, 1, 255, 256, 2**16, 2**23, 2**31, 2**32 - 1, 2**32, 2**63, 2**64 - 1])
            elif what < .65:
                b.items[k] = (r.choice([0, 1, 2, 3, 8, 12, 14, 2**32, 2**64 - 1]), f)
            elif what < .8:
                del f[r.randrange(len(f) + 1):]
            elif what < .9:
                b.items.insert(k, copy.deepcopy(r.choice(b.items)))
            else:
                f += [r.getrandbits(64) for _ in range(r.randrange(1, 20))]
    return stream([i, m, s] + ([y] if y else []), r)


def big(r, quick):
    n = 4000 if quick else 200000
    out = []

    def mod(*subs, recs=()):
        m = Blk(8).rec(1, 2)
        for s in subs:
            m.sub(s)
        for c, f in recs:
            m.rec(c, *f)
        return stream([ident(), m, strtab()])
    vst = Blk(14)
    for recs in ([(8, [j + 1, 0]) for j in range(n)] + [(7, [8])], [(7, [8])] + [(8, [j, 0]) for j in range(n)],
                 [(11, [2, j + 1]) for j in range(n)], [(18, [0, j + 1]) for j in range(n)] + [(7, [8])],
                 [(21, [0, 0])] * n, [(18, [0, 0])], [(7, [8])] * n, [(19, txt("abc"))] * n + [(6, [])]):
        t = Blk(17).rec(1, sum(1 for c, _ in recs if c != 19))
        for c, f in recs:
            t.rec(c, *f)
        out.append(mod(t, vst))
    for count in (2**20, 2**31, 2**32, 2**40, 2**60, 2**63, 2**64 - 1):
        out.append(mod(Blk(17).rec(1, count).rec(2), vst))
    deep = 200000       # what isn't bounded overflows the stack
    w = Writer()
    for _ in range(deep):
        w.enter(8, 3)
    out.append(w.bytes())
    w = Writer()
    write(w, ident())
    w.enter(8, 3)
    for j in range(deep):
        w.enter([11, 15, 12, 17][j % 4], 3)
    out += [w.raw(), w.bytes()]
    t = Blk(17).rec(1, 1).rec(2)
    out.append(mod(t, vst, recs=[(5, txt("section"))] * n))
    out.append(mod(t, vst, recs=[(4, [10] * (20 * n))]))
    out.append(mod(t, vst, recs=[(3, txt("-".join(["i8:8"] * n)))]))
    out.append(mod(t, vst, recs=[(3, txt("-".join("p%d:8:8" % j for j in range(min(n, 20000)))))]))
    out.append(mod(t, vst, recs=[(3, txt("n" + ":".join(["8"] * n)))]))
    out.append(mod(t, vst, Blk(10).rec(3, 1, 0, *([0, 2] * n)), Blk(9).rec(2, *([1] * 4))))
    out.append(mod(t, vst, Blk(10).rec(3, 1, 0, 0, 2), Blk(9).rec(2, *([1] * n))))
    out.append(mod(t, vst, Blk(10).rec(3, 1, 0, 3, *([65] * n)), Blk(9)))
    out.append(stream([ident(), min_module()] * 300 + [strtab(bytes([65]) * 300)]))
    out.append(stream([ident()] * n))
    out.append(stream([strtab()] * n))
    return [bytes_case(b, mode="crash") for b in out]


SPECIAL = [0, 1, 2, 7, 8, 255, 256, 2**23, 2**31, 2**32 - 1, 2**32, 2**63, 2**64 - 1]


def bodies(r, quick):
    """Function blocks: whatever is in them, they're refused, not more."""
    types = [(7, [8]), (3, []), (25, [0]), (10, [3, 1]), (12, [2, 0]), (2, [])]
    good = [(2, [1, 0, 2, 1]), (2, [0, 1, 0, 4]), (3, [0, 0, 1, 3]), (19, [2, 0, 0, 1]), (20, [1, 0, 1, 0]), (44, [2, 0, 0, 1]), (56, [0, 1, 0])]

    def body(recs, blocks=1, again=False):
        b = Blk(12)
        if blocks is not None:
            b.rec(1, *blocks) if isinstance(blocks, list) else b.rec(1, blocks)
        for c, f in recs:
            b.rec(c, *f)
        if again:
            b.rec(1, 1)
        t = Blk(17).rec(1, len(types))
        for c, f in types:
            t.rec(c, *f)
        m = Blk(8).rec(1, 2)
        m.sub(t), m.sub(Blk(14)), m.sub(b)
        return stream([ident(), m, strtab()])
    out = [body([], blocks=b) for b in [None, []] + [[v] for v in SPECIAL] + [[1, 2]]] + [body(good, again=True), body(good)]
    for code in list(range(0, 64)) + [255, 2**32, 2**32 + 2, 2**64 - 1]:
        for n in (range(9) if not quick else [0, r.randrange(1, 9)]):
            out.append(body(r.sample(good, r.randrange(3)) + [(code, [r.choice([0, 1, 2]) for _ in range(n)])]))
    for code, f in good:
        for i in range(len(f)):
            for v in SPECIAL + list(range(3, 20)):
                if not quick or v in SPECIAL[-6:] or r.random() < .3:
                    out.append(body([(code, f[:i] + [v] + f[i + 1:])]))
    for ty in range(8):
        for op in range(20):
            if not quick or r.random() < .2:
                out.append(body([(2, [0, ty, 0, op]), (56, [0, ty, op])]))
    return [bytes_case(b, mode="crash" if r.random() < .7 else "bytes") for b in out]


def c26(r, quick):
    out = [bytes_case(mutate(r, stream([b for b in Module(r, .1, r.choice([None, "types", "metadata"])).stream() if b], r)))
           for _ in range(150 if quick else 3000)]
    out += [bytes_case(spiked(r), mode=r.choice(["bytes", "crash"])) for _ in range(250 if quick else 8000)]
    out += [bytes_case(mutate(r, spiked(r)), mode="crash") for _ in range(600 if quick else 20000)]
    out += whole(r, True)[:20 if quick else 60]
    # Every operand of every kind of record, hostile.
    recs = [(8, [0, 2, 1, 0, 0, 0, 1, 0, 1, 0, 1, 0, 0, 0]), (12, [0, 3, 1]), (14, [3, 3, 3, 0, 7, 0, 0, 0, 0, 0, 0])]
    for c, f in recs:
        for i in range(len(f)):
            for v in SPECIAL:
                m = global_module([(c, f[:i] + [v] + f[i + 1:])])
                out.append(bytes_case(stream(m[:3]), mode="crash"))
    for c, f in ((7, [8]), (8, [0, 0]), (25, [0]), (11, [1, 0]), (12, [1, 0, 1]), (18, [0, 0]), (20, [0, 0]), (21, [0, 0, 0]), (6, []), (19, [65, 66])):
        for i in range(len(f)):
            for v in SPECIAL:
                out.append(bytes_case(stream(type_module([(7, [8]), (c, f[:i] + [v] + f[i + 1:])])[:3]), mode="crash"))
        for n in range(len(f)):
            out.append(bytes_case(stream(type_module([(7, [8]), (c, f[:n])])[:3]), mode="crash"))
    for top in range(0, 30):        # every kind of block, empty, on its own and in a module
        out.append(bytes_case(stream([Blk(top)])))
        m = min_module()
        m.sub(Blk(top))
        out.append(bytes_case(stream([ident(), m, strtab()])))
        m = min_module()
        m.sub(Blk(top).rec(1, 1, 2, 3).rec(2, 5))
        out.append(bytes_case(stream([ident(), m, strtab()]), mode="crash"))
    return out + bodies(r, quick) + big(r, quick)


# ---- beyond what small cases reach ---------------------------------------------------------------
def long_text(r, n):
    """A text of n bytes."""
    t = "".join(r.choice("abcdefgXYZ019_.$") for _ in range(n))
    return list(t.encode()) if r.random() < .5 else list((t[:n // 2] + "\u4e16" + t[n // 2 + 3:]).encode())


def long_types(r, n):
    """n types that refer to ones far away, and types of n parts."""
    recs = []
    for i in range(n):
        c = i % 8
        if c == 0:
            recs.append((7, [1 + i]))
        elif c == 1:
            recs.append((25, [i]))
        elif c == 2:
            recs.append((8, [8 * r.randrange((n + 7) // 8), i]))
        elif c == 3:
            recs.append((11, [i, 8 * r.randrange((n + 7) // 8)]))
        elif c == 4:
            recs += [(19, txt("s%d" % i)), (20, [i % 2, 8 * r.randrange((n + 7) // 8)])]
        elif c == 5:
            recs.append((18, [0, 8 * ((n - 1) // 8)]))
        elif c == 6:
            recs.append((12, [1 + i, 8 * r.randrange((n + 7) // 8)]))
        else:
            recs.append((21, [0, 8 * r.randrange((n + 7) // 8), 8 * ((n - 1) // 8)]))
    return recs


def far(r, quick, prop):
    out = []
    sizes = [130, 260, 1030] if quick else [120, 127, 130, 255, 256, 260, 520, 1030, 2060, 4100]
    near = lambda n: max(2, n + r.randrange(-3, 4))

    def one(i=None, m=None, s=None, y=None, **kw):
        out.append(with_modules(r, [(i or ident(), m or min_module(), s or strtab(), y)], **kw))

    def spots(n):
        return sorted({x for k in range(1, 18) for d in (-2, -1, 0, 1) for x in [(1 << k) + d] if 0 <= x <= n} | {0, n - 1, n, r.randrange(n)})

    for n in sizes:
        n = near(n)
        if prop in ("C12", "C27", "C26"):
            m = min_module()
            for j in range(n):
                m.rec(7, j, j + 1)
                if j % 3 == 0:
                    m.sub(Blk(r.choice([11, 15, 2**32]))).rec(j, j)
            i = ident()
            for j in range(n):
                i.sub(Blk(j + 30))
            m2 = min_module()
            m2.rec(7, *[r.choice([j, j, 2**40]) for j in range(n)])
            for tops in ([ident(), m, strtab()], [i, min_module(), strtab()], [ident(), m2, strtab()]):
                out.append(bytes_case(stream(tops, r)))
                if prop == "C27" and n < 600:
                    out[-1]["alts"] = [list(spelled(r, tops)) for _ in range(2)]
        if prop in ("C13", "C26") and n < 600:
            out.append(bytes_case(stream([tag("IM"[j % 2], j) for j in range(2 * n)] + [tag("S", 0), tag("Y", 1)])))
            out.append(bytes_case(stream([tag("IMS"[j % 3], j) for j in range(3 * n)])))
            out.append(bytes_case(stream([tag("I", 0), tag("M", 0)] + [tag("SY"[j % 2], j) for j in range(n)])))
            out.append(bytes_case(stream([tag("x", j) for j in range(n)] + [tag("I", 0), tag("M", 0), tag("S", 0)])))
        if prop == "C13":               # much in one block, others after it
            for k in range(4) if n > 600 or not quick else ():
                tops = [tag(x, j) for j, x in enumerate("IMSYIMS")]
                for j in range(n):
                    tops[k].rec(40, j)
                out.append(bytes_case(stream(tops)))
        if prop in ("C14", "C26", "C27"):
            m = min_module()
            for j in range(n):
                m.rec(5, *txt("s%d" % j)).rec(6, *txt("d%d" % j)).rec(11, *txt("g%d" % j))
            m.rec(4, *txt("\n".join("line %d" % j for j in range(n))))
            one(m=m)
            for size in (n, 16 * n, 64 * n):
                for code in (2, 4, 5, 6, 11):
                    one(m=min_module().rec(code, *long_text(r, size))) if size < 5000 else None
                one(i=Blk(13).rec(1, *long_text(r, size)).rec(2, size))
                one(y=symtab([r.randrange(256) for _ in range(size)]))
        if prop in ("C15", "C26"):
            for size in (n, 64 * n):
                t = long_text(r, size)
                look = [(a, r.choice([1, 2, 7, size - a, size - a + 1, 300])) for a in spots(size)] + [(0, b) for b in spots(size + 2)] + [
                    (r.randrange(size), r.choice([1, 5, 256, 2**16])) for _ in range(20)]
                one(s=strtab(t), look=look)
        if prop in ("C16", "C26"):
            one(*type_module(long_types(r, n))[:3])
            fields = lambda: [r.randrange(5) for _ in range(n)]
            for base in ([(7, [8]), (25, [0]), (3, []), (4, []), (18, [0])],):
                recs = base + [(18, [0] + fields()), (19, long_text(r, n)), (20, [1] + fields()), (21, [1, 0] + fields()), (21, [0, 1] + fields())]
                one(*type_module(recs)[:3])
            one(*type_module([(19, txt("ab")) for _ in range(n)] + [(6, [0])])[:3])
            one(*type_module([(7, [8])] * n + [(8, [n, 0])])[:3])       # itself
            one(*type_module([(7, [8])] * n + [(8, [n + 1, 0])])[:3])     # beyond the end
            one(*type_module([(7, [8])] * n, count=r.choice([n - 1, n + 1, abs(n - 256), n + 65536]))[:3])
        if prop in ("C18", "C26"):
            m = min_module()
            g = m.sub(Blk(10))
            for j in range(n):
                g.rec(3, j + 1, r.choice([NONE32, 0, j]), *attribute(r))
            p = m.sub(Blk(9))
            for j in range(n):
                p.rec(2, *[1 + (j + k * 37) % n for k in range(r.choice([1, 2]))])
            p.rec(2, *range(1, n + 1))
            one(m=m)
            m = min_module()
            m.sub(Blk(10).rec(3, 1, NONE32, *[x for _ in range(n) for x in attribute(r)]).rec(3, 2, 0, 3, *long_text(r, n), 0, 4, *long_text(r, n), 0, *long_text(r, 2 * n), 0, 0, 2))
            m.sub(Blk(9).rec(2, 1, 2))
            one(m=m)
            m = min_module()
            m.sub(Blk(10).rec(3, n, NONE32, 0, 2).rec(3, n * 1000, 1, 0, 3))
            m.sub(Blk(9).rec(2, n, n * 1000).rec(2, *([n] * n)).rec(2, n - 256 if n > 256 else n + 256))
            one(m=m)
        if prop in ("C19", "C20", "C26", "C15"):
            i, m, s, _ = global_module([])
            t = m.subs()[0]
            t.items[0] = (1, [5 + 2 * n])
            for j in range(n):
                t.rec(7, j + 1).rec(21, 0, 0, 3)
            for j in range(n):
                m.rec(5, *txt("sec%d" % j)).rec(11, *txt("gc%d" % j))
                m.subs()[3].rec(2, [7, 9, 1][j % 3])
            table = long_text(r, 3 * n)
            fns = lambda j: [r.choice(spots(3 * n - 9)), r.randrange(1, 9), r.choice([1, 2, 6 + 2 * r.randrange(n), 6 + 2 * (n - 1)]), 0, j % 2, j % 12,
                             r.choice([0] + spots(n + 3)), r.randrange(9), r.choice([0] + spots(n + 3)), j % 3, r.choice([0] + spots(n + 3)), j % 4, 0, j % 3, 0]
            al = lambda j: [r.choice(spots(3 * n - 9)), r.randrange(1, 9), r.choice(spots(5 + 2 * n - 1)[:-2]), j, j, j % 12, j % 3, j % 3, j % 5, j % 4, j % 3]
            if prop != "C20":
                for j in range(n):
                    m.rec(8, *fns(j))
            if prop != "C19":
                for j in range(n):
                    m.rec(14, *al(j))
                    m.rec(12, r.choice(spots(3 * n - 9)), r.randrange(1, 9), 1 + j % 5)
            one(i, m, strtab(table))
            # One that is just out of range, with as many before it.
            for w in (2, 6, 8, 10):
                m2 = copy.deepcopy(m)
                if prop == "C20":
                    m2.rec(14, *[5 + 2 * n if k == 2 else x for k, x in enumerate(al(0))])
                else:
                    f = fns(0)
                    f[w] = {2: 5 + 2 * (n - 1), 6: n + 4, 8: n + 4, 10: n + 4}[w]
                    m2.rec(8, *f)
                one(i, m2, strtab(table))
                if prop != "C19":
                    break
    if prop == "C26":
        out = [bytes_case(c["data"], mode="crash") if len(c["data"]) > 3000 or r.random() < .8 else bytes_case(c["data"]) for c in out]
    return out


def short_texts():
    """A text of a single byte in each of its places, one at a time."""
    def mods():
        i, m, s, y = ident(), min_module(), strtab(), symtab()
        return [i, m, s, y]
    out = []
    x = mods()
    x[0] = Blk(13).rec(1, 65).rec(2, 0)
    out.append(("producer", x))
    for code, what in ((2, "triple"), (3, "datalayout"), (4, "asm"), (5, "section"), (6, "deplib"), (11, "gc")):
        x = mods()
        x[1].rec(code, 101)     # "e" is a layout, too
        out.append((what, x))
    x = mods()
    x[1] = type_module([(7, [8]), (19, [65]), (21, [0, 0])])[1]
    out.append(("struct name", x))
    x = mods()
    x[2] = strtab(b"x")
    out.append(("string table", x))
    x = mods()
    x[3] = symtab(b"x")
    out.append(("symbol table", x))
    return [dict(with_modules(None, [tuple(x)]), short=True, probe=what) for what, x in out]


def shared_types():
    """struct {t, t} of struct {t, t} of ...: small as written, huge if it isn't shared."""
    recs = [(7, [8])] + [(18, [0, j, j]) for j in range(20)]
    return [dict(bytes_case(stream(type_module(recs)[:3]), mode="crash"), probe="shared types")]


PROBES = dict(C14=short_texts, C26=shared_types)
SCOPE = dict(C12=c12, C13=c13, C14=c14, C15=c15, C16=c16, C18=c18, C19=c19, C20=c20, C26=c26, C27=c27)
GEN = {p: lambda r, quick, p=p, f=f: f(r, quick) + far(r, quick, p) for p, f in SCOPE.items()}
