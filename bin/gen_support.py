"""Histories of the support types (C17, C21-C25), and their observations in the specification's terms."""
import itertools

import rustdebug as rd
from vlib import limbs

P2 = sorted({max(0, 2**k + d) for k in range(64) for d in (-1, 0, 1)} | {2**64 - 1, 2**64 - 2})
FP = ["Half", "BFloat", "Float", "Double", "X86Fp80", "Fp128", "PpcFp128"]
PLAIN = FP + ["Void", "Label", "Metadata", "X86Mmx", "X86Amx", "Token"]


def case(ev):
    return {"k": "support", "ev": ev}


def batches(xs, n):
    xs = list(xs)
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def big(n):
    """Numbers beyond what JSON numbers carry are passed as text."""
    return str(n) if n >= 2**53 else n


# ---- observations in the specification's terms ---------------------------------------------------
def seen(f, v):
    try:
        return [rd.shallow(f(rd.parse(v)))]
    except (rd.Shape, TypeError, AttributeError, RecursionError, IndexError):
        return []


def res(r, f):
    return {"ok": r != [], "v": f(r[0]) if r != [] else []}


def entity(table):
    if table == "BlockId":
        return rd.block_id
    return rd.name


SCALARS = {"shift": None, "bytes": None, "bits": None, "maybe": rd.maybe_align,
           "width": lambda v: rd.num(rd.inner(v, "AlignedTypeWidth")), "space32": rd.space, "space64": rd.space}


def outcome(e, o):
    k = e["e"]
    if k == "code":
        return [dict(res(r, lambda r: seen(entity(e["t"]), r[0])), back=r[0][1] if r != [] else []) for r in o]
    if k == "scalar":
        f = SCALARS[e["op"]]
        return [res(r, lambda v: [v] if f is None else seen(f, v)) for r in o]
    if k == "compare":
        return [res(r, lambda v: [v]) for r in o]
    if k in ("layout", "default"):
        return res(o, lambda v: seen(rd.layout, v))
    if k in ("consts", "equal"):
        return o
    if k == "binop":
        return [res(r, lambda v: seen(rd.name, v)) for r in o]
    if k == "type":
        return res(o, lambda v: [{"t": seen(rd.type_, v["t"]), "same": v["same"], "is": v["is"],
                                  "scalar": seen(rd.type_, v["scalar"]),
                                  "inner": [seen(rd.type_, x) for x in v["inner"]], "widths": v["widths"]}])
    spec, table = (rd.type_spec, "TypeAlignSpecs") if k[0] == "t" else (rd.pointer_spec, "PointerAlignSpecs")
    return res(o, lambda v: [{"spec": seen(spec, v["spec"]),
                              "table": seen(lambda t: rd.seq(rd.inner(t, table), spec), v["table"])}])


def event(e, o):
    out = dict(e)
    for k in ("as", "w", "n", "abi", "pref", "size", "index"):
        if k in e:
            out[k] = limbs(int(e[k]))
    if "ns" in e:
        out["ns"] = [limbs(int(n)) for n in e["ns"]]
    if "ty" in e:
        out["ty"] = [e["ty"][0], limbs(int(e["ty"][1])) if len(e["ty"]) > 1 else []]
    if "ps" in e:
        if e["of"] in ("type", "tspec"):
            conv = lambda x: [x[0], limbs(int(x[1])) if len(x) > 1 else []]
        else:
            conv = lambda x: limbs(int(x))
        out["ps"] = [[conv(a), conv(b)] for a, b in e["ps"]]
    out["bad"] = o == "panic" or isinstance(o, list) and "panic" in o
    out["r"] = {"ok": False, "v": []} if out["bad"] else outcome(e, o)
    return out


def trace(case, obs):
    if obs["out"] != "ok":
        return {"out": obs["out"], "ev": []}, 1
    ev = [event(e, o) for e, o in zip(case["ev"], obs["ev"])]
    return {"out": "ok", "ev": ev}, sum(len(e.get("ns", e.get("ps", [0]))) for e in ev)


# ---- C17: types ------------------------------------------------------------------------------------
def t(c, **kw):
    return dict({"e": "type", "c": c}, **kw)


def struct(f, packed=False, name=None):
    return t("Struct", f=f, packed=packed, name=[] if name is None else [list(name.encode())])


def fn(ret, params, va=False):
    return t("Function", ret=ret, params=params, va=va)


def every_kind():
    """One type of each kind, at pool positions 1, 2, ... (all of these exist)."""
    ev = [t(c) for c in PLAIN]
    at = lambda: len(ev)            # the last one's position
    ev.append(t("Integer", w=32))
    i32 = at()
    ev.append(t("OpaquePointer", **{"as": 1}))
    opq = at()
    flt, void = 1 + PLAIN.index("Float"), 1 + PLAIN.index("Void")
    ev += [t("Pointer", t=i32, **{"as": 0}), t("Array", n=3, t=i32), t("Array", n=0, t=flt),
           t("FixedVector", n=4, t=i32), t("FixedVector", n=2, t=flt), t("ScalableVector", n=4, t=i32),
           t("ScalableVector", n=2, t=flt), t("FixedVector", n=2, t=opq), t("ScalableVector", n=1, t=opq)]
    ev += [struct([]), struct([i32, flt], True), struct([opq], False, "named"), fn(void, []), fn(i32, [i32, flt], True)]
    ev.append(t("Pointer", t=at(), **{"as": 7}))    # to a function
    ev.append(t("FixedVector", n=8, t=at()))
    ev.append(t("Array", n=2, t=at()))
    ev += [t("FixedVector", n=3, t=1 + PLAIN.index(f)) for f in FP if f != "Float"]
    ev += [t("ScalableVector", n=3, t=1 + PLAIN.index(f)) for f in FP if f != "Float"]
    ev += [t("Integer", w=1), t("Integer", w=2**24 - 1), t("OpaquePointer", **{"as": 2**23 - 1})]
    return ev


WIDTHS = list(range(0, 130)) + [255, 256, 257, 2**16 - 1, 2**16, 2**16 + 1, 2**23 - 1, 2**23, 2**24 - 2, 2**24 - 1, 2**24,
                                2**24 + 1, 2**25, 2**31, 2**32 - 1]
SPACES = [0, 1, 2, 255, 2**16, 2**23 - 2, 2**23 - 1, 2**23, 2**23 + 1, 2**24, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**63, 2**64 - 1]
COUNTS = [0, 1, 2, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**63, 2**64 - 1]


def over(x):
    """All constructors of what contains other types, around pool entry x and a fine one."""
    return around(x, 1 + PLAIN.index("Double"))


def around(x, fine):
    return [t("Pointer", t=x, **{"as": 0}), t("Array", n=1, t=x), t("FixedVector", n=1, t=x), t("ScalableVector", n=1, t=x),
            struct([x]), struct([fine, x, fine], True), struct([fine, fine, x], False, "s"), struct([x, x]),
            fn(x, []), fn(fine, [x]), fn(fine, [x, fine], True), fn(fine, [fine, x]), fn(x, [x], True)]


def twins():
    """Types that differ in one thing (from the first of their kind)."""
    a, b = 1 + PLAIN.index("Double"), 1 + PLAIN.index("Float")
    out = [t("OpaquePointer", **{"as": s}) for s in (0, 1, 2)] + [t("Integer", w=w) for w in (8, 9, 264)]
    out += [t("Pointer", t=x, **{"as": s}) for x in (a, b) for s in (0, 1)]
    for c in ("Array", "FixedVector", "ScalableVector"):
        out += [t(c, n=n, t=x) for x in (a, b) for n in (1, 2, 2**32 + 1)]
    fs = ([], [a], [b], [a, b], [b, a], [a, a])
    out += [struct(f, p, n) for f in fs for p in (False, True) for n in (None, "", "s", "S")]
    return out + [fn(r, f, v) for r in (a, b) for f in fs for v in (False, True)]


def random_type(r, n):
    k = r.randrange(9)
    x = r.randrange(n)
    xs = [r.randrange(n) for _ in range(r.choice([0, 1, 1, 2, 3]))]
    if k == 0:
        return t("Integer", w=r.choice(WIDTHS) if r.random() < .5 else r.randrange(2**r.randrange(1, 33)))
    if k == 1:
        return t("OpaquePointer", **{"as": big(r.choice(SPACES))})
    if k == 2:
        return t("Pointer", t=x, **{"as": big(r.choice([0, 1, r.choice(SPACES)]))})
    if k in (3, 4, 5):
        return t(["Array", "FixedVector", "ScalableVector"][k - 3], n=big(r.choice([1, 4, r.choice(COUNTS), r.randrange(2**64)])), t=x)
    if k == 6:
        return struct(xs, r.random() < .5, r.choice([None, "", "a", "struct.S", "\u00fc\u4e2d", "x" * 40, "\"q\\uote\"\n"]))
    if k == 7:
        return fn(x, xs, r.random() < .5)
    return t(r.choice(PLAIN))


def c17(r, quick):
    base = every_kind()
    out = [case([t("Integer", w=w) for w in ws]) for ws in batches(WIDTHS, 50)]
    out += [case([t("OpaquePointer", **{"as": big(s)}) for s in SPACES] + base[:15] +
                 [t("Pointer", t=1, **{"as": big(s)}) for s in SPACES])]
    out += [case(base[:15] + [t(c, n=big(n), t=x) for n in COUNTS for c in ("Array", "FixedVector", "ScalableVector")])
            for x in (1, 8, 14, 15)]
    # Every kind in every place, and which of all these are the same.
    eq = lambda i: {"e": "equal", "t": i}
    out += [case(base + over(x) + [eq(len(base) + 1 + i) for i in range(10)]) for x in range(len(base) + 1)]
    out += [case(base + b + base[-20:] + b + [eq(i) for i in range(0, 2 * len(base) + 20, 2)]) for b in (twins(),)]
    # Two levels: everything around everything that could be built.
    for x in range(len(base) + 1):
        if quick and x % 3 != r.randrange(3):
            continue
        ev = base + over(x)
        for y in range(5):
            ev = ev + over(len(base) + 1 + y)
        out.append(case(ev))
    for _ in range(40 if quick else 600):
        ev = [] if r.random() < .5 else base[:]
        for _ in range(40):
            ev.append(random_type(r, len(ev) + 1))
        out.append(case(ev + [eq(r.randrange(len(ev) + 1)) for _ in range(4)]))
    if not quick:
        for ws in batches([r.randrange(2**r.randrange(1, 33)) for _ in range(4000)], 100):
            out.append(case([t("Integer", w=w) for w in ws]))
    return out


# ---- C21: layouts ----------------------------------------------------------------------------------
def lay(b):
    return {"e": "layout", "s": list(b if isinstance(b, bytes) else b.encode())}


LETTERS = "eESPGApivfaFmno:0189-z"


def number(r):
    k = r.randrange(10)
    if k < 6:
        return str(r.choice([0, 1, 4, 7, 8, 9, 16, 24, 32, 48, 64, 80, 128, 256, 512, 1024, 2**15, 2**18, 2**18 + 8, 2**19, 2**20]))
    if k == 6:
        return str(r.choice(P2))
    if k == 7:
        return str(r.choice([2**23 - 1, 2**23, 2**24, 2**32 - 1, 2**32, 2**63, 2**64 - 1, 2**64, 2**64 + 8, 2**66, 10**30]))
    if k == 8:
        return "0" * r.randrange(1, 4) + str(r.choice([0, 8, 16, 64]))
    return r.choice(["", "x", "-1", " 8", "8 ", "0x8", "8.", "1_0", "\u0668", "-", "8a"])


def good_number(r, bits=True):
    return str(r.choice([8, 16, 32, 64, 128, 256] if bits else [1, 8, 16, 24, 32, 64, 80, 128]))


def spec(r, fine):
    n = (lambda bits=True: good_number(r, bits)) if fine else (lambda bits=True: number(r) if r.random() < .4 else good_number(r, bits))
    k = r.choice("eESPGApivfaFmnN" if fine else "eESPGApivfaFmnN?")
    if k in "eE":
        return k + ("" if fine or r.random() < .9 else n())
    if k == "S":
        return "S" + n()
    if k in "PGA":
        return k + (str(r.choice([0, 1, 5, 200, 2**23 - 1])) if fine else n(False))
    if k == "p":
        a, b = sorted([8, 16, 32, 64, 128][i] for i in (r.randrange(5), r.randrange(5)))
        if not fine:
            a, b = n(), n()
        parts = [r.choice(["", "0", "1", "2", "270"]) if fine else r.choice(["", n(False)]), n(False), str(a), str(b), n(False)]
        lo = 3 if fine else 1
        return "p" + ":".join(parts[:r.randrange(lo, 6)])
    if k in "ivfa":
        a, b = sorted([8, 16, 32, 64, 128][i] for i in (r.randrange(5), r.randrange(5)))
        if not fine:
            a, b = n(), n()
        parts = ["" if k == "a" else n(False), str(a), str(b)]
        if not fine and r.random() < .1:
            parts[0] = n(False) if k == "a" else ""
        return k + ":".join(parts[:r.randrange(2 if fine else 1, 4)])
    if k == "F":
        return "F" + r.choice("in" if fine else ["i", "n", "x", ""]) + n()
    if k == "m":
        return "m:" + r.choice("eomwxa") if fine else r.choice(["m", "m:", "m:" + r.choice("eomwxalqz"), "me", "m:ee"])
    if k == "n":
        return "n" + ":".join(n(False) for _ in range(r.choice([1, 1, 2, 3, 4, 7])))
    if k == "N":
        return "ni:" + ":".join(str(r.choice([1, 1, 2, 10, 2**23 - 1])) if fine else n(False) for _ in range(r.choice([1, 1, 2, 3, 4, 6])))
    return r.choice(["", "q", "Z8", "I8:8", "P", "\u00e9", "s0:64:64", "t8", "--", "ni", "n", "n:", "ni:", "S-", "p:", "a", "a:", "a:8:"])


def mutate(r, s):
    b = list(s)
    for _ in range(r.choice([1, 1, 2])):
        i = r.randrange(len(b) + 1)
        k = r.randrange(4)
        if k == 0 and b:
            del b[min(i, len(b) - 1)]
        elif k == 1:
            b.insert(i, r.choice(LETTERS))
        elif k == 2 and b:
            b[min(i, len(b) - 1)] = r.choice(LETTERS + "\u00e9\U0001f600")
        else:
            b.insert(i, r.choice(["\u00e9", "\u4e2d", "\U0001f600", "\0", " ", "_", "\x7f", "\x80"]))
    return "".join(b)


def c21(r, quick):
    ev = [{"e": "default"}, lay("")]
    for n in (1, 2) if quick else (1, 2, 3):
        ev += [lay("".join(s)) for s in itertools.product(LETTERS, repeat=n)]
    # Every specification letter with something short.
    for c in "eESPGApivfaFmn":
        for body in ["", ":", "::", "8", ":8", "8:8", ":8:8", "8:8:8", ":8:8:8", "8:8:8:8", "1:8:8:8", "16:16:8", "16:8:16", "0", "0:0",
                     ":0", ":0:8", ":0:0", "8:0", "16:12", "i8", "n8", "i", "i:1", "i:0", "i:1:0", ":e", ":a", ":o", "64:32:32:64:16",
                     "\u00e9", ":\u00e9", "8:\u00e9", "8\u4e2d", ":8:16:8", "1:32:32:32:0", "8388607", "8388608", "8388607:8",
                     "8388608:8", "64:64:262144", "64:64:524288", ":64:262144", ":64:524288", "64:262144:262144", "64:524288:524288", "64:4611686018427387904:4611686018427387904",
                     "64:8:36893488147419103232", "64:8:9223372036854775808", ":32:64:32:0", ":32:64:32:64", "3:32:64:32:0", ":0:64:32", "5:0:64:32:0", "64:64:32", "1:256:128", ":256:128", ":32768:16384",
                     "64:32768:16384", "1:262144", "1:524288", ":262144", ":524288", "0:64:64", "4294967296:8"]:
            ev.append(lay(c + body))
            ev.append(lay("e-" + c + body + "-S8"))
    # Every other character, too.
    for c in map(chr, range(128)):
        if c not in "eESPGApivfaFmn-+":
            for body in ["", "8", ":e", "8:8", "64:64:64", "V128:128", "i8", " "]:
                ev.append(lay(r.choice(["", "", "e-"]) + c + body + r.choice(["", "", "-S8"])))
    # Endianness, wherever it is and whatever else has the letter.
    for s in itertools.product(["e", "E", "m:e", "S64", "f64:64"], repeat=3 if quick else 4):
        ev.append(lay("-".join(s)))
    for _ in range(700 if quick else 12000):
        n = r.choice([1, 2, 3, 5, 8, 15])
        ev.append(lay("-".join(spec(r, True) for _ in range(n))))
    for _ in range(900 if quick else 20000):
        n = r.choice([1, 2, 3, 5])
        bad = r.randrange(n)
        s = "-".join(spec(r, i != bad) for i in range(n))
        ev.append(lay(mutate(r, s) if r.random() < .3 else s))
    for _ in range(100 if quick else 1500):
        ev.append(lay("".join(chr(r.choice([r.randrange(128), r.randrange(0x800), 0x4e2d])) for _ in range(r.randrange(12)))))
    r.shuffle(ev)
    return [case(b) for b in batches(ev, 40)]


# ---- C22: tables -----------------------------------------------------------------------------------
CLASSES = ["Float", "Integer", "Vector"]
TWIDTHS = [1, 2, 8, 16, 24, 32, 64, 80, 128, 256, 2**23 - 1]


def pair(r, top=16):
    a, b = sorted((r.randrange(top), r.randrange(top)))
    return 2**a, 2**b


def tnew(cls, width, a, b):
    return {"e": "tnew", "ty": [cls] if cls == "Aggregate" else [cls, width], "abi": big(a), "pref": big(b)}


def pnew(s, a, b, size=64, index=64):
    return {"e": "pnew", "as": big(s), "abi": big(a), "pref": big(b), "size": big(size), "index": big(index)}


def random_update(r):
    k = r.randrange(8)
    a, b = pair(r)
    if r.random() < .15:
        a, b = r.choice([(b, a), (a, 2**r.randrange(64)), (2**r.randrange(64),) * 2, (a, 3), (0, b), (a, 2**63)])
    if k < 3:
        c = r.choice(CLASSES + ["Aggregate"])
        w = r.choice(TWIDTHS) if r.random() < .9 else r.choice([0, 2**23, 2**32 - 1, r.randrange(1, 2**23)])
        return tnew(c, w, a, b)
    if k < 6:
        s = r.choice([0, 1, 2, 3, 7, 270, 2**23 - 1] + [2**23, r.randrange(2**23)] * (r.random() < .1))
        return pnew(s, a, b, r.choice([0, 16, 32, 64, 2**64 - 1]), r.choice([0, 16, 32, 64, 2**40]))
    if k == 6:
        c = r.choice("ivfa")
        return {"e": "tparse", "s": list(("%s%s:%d:%d" % (c, "" if c == "a" else r.choice([1, 8, 32, 64, 80]), a * 8, b * 8)).encode())}
    parts = [r.choice(["", "0", "1", "2", "7"]), r.choice(["16", "64"]), str(a * 8), str(b * 8), r.choice(["16", "32"])]
    return {"e": "pparse", "s": list(("p" + ":".join(parts[:r.choice([3, 4, 5])])).encode())}


def c22(r, quick):
    out = []
    keys = [("Aggregate", 0), ("Float", 32), ("Float", 48), ("Integer", 1), ("Integer", 128), ("Vector", 16), ("Vector", 64)]
    # All short histories over a few keys.
    for n in (1, 2, 3):
        hs = list(itertools.product(keys, repeat=n))
        if n == 3 and quick:
            hs = r.sample(hs, 120)
        for h in hs:
            out.append(case([tnew(c, w, *((2**i, 2**(i + 1)) if i % 2 else (2**i, 2**i))) for i, (c, w) in enumerate(h)]))
        ps = list(itertools.product([0, 1, 5, 2**23 - 1], repeat=n))
        for h in ps:
            out.append(case([pnew(s, 2**i, 2**(2 * i), 16 * (i + 1), 8 * (n - i)) for i, s in enumerate(h)]))
    # Any update once (all the values that are or aren't possible).
    vals = [0, 1, 2, 3, 8, 2**14, 2**15, 2**16, 2**60, 2**63, 2**64 - 1]
    ev = [tnew(r.choice(CLASSES + ["Aggregate"]), r.choice(TWIDTHS), a, b) for a in vals for b in vals]
    ev += [pnew(r.choice([0, 1, 2]), a, b, i, 2 * i) for i, (a, b) in enumerate(itertools.product(vals, vals))]
    out += [case(b) for b in batches(ev, 30)]
    for w in (0, 1, 2**23 - 1, 2**23, 2**24, 2**32 - 1):
        out.append(case([tnew(c, w, 1, 1) for c in CLASSES] + [pnew(w, 1, 1)]))
    # The order of the keys.
    kinds = [["Aggregate"]] + [[c, w] for c in CLASSES for w in (1, 32, 64, 2**23 - 1)]
    for of in ("type", "tspec"):
        out.append(case([{"e": "compare", "of": of, "ps": [[a, b] for a in kinds for b in kinds]}]))
    spaces = [big(n) for n in (0, 1, 2, 255, 256, 2**16, 2**23 - 1, 2**23)]
    out.append(case([{"e": "compare", "of": "pspec", "ps": [[a, b] for a in spaces for b in spaces]}]))
    for _ in range(120 if quick else 2500):
        out.append(case([random_update(r) for _ in range(r.choice([5, 20, 40]))]))
    return out


# ---- C23: numbers ------------------------------------------------------------------------------------
def scalars(op, ns):
    return [case([{"e": "scalar", "op": op, "ns": [big(n) for n in b]}]) for b in batches(ns, 100)]


def c23(r, quick):
    n = 300 if quick else 20000
    rnd = [r.randrange(2**r.randrange(1, 65)) for _ in range(n)]
    near = [(2**a + s * 2**b) % 2**64 for a in range(64) for b in (0, 1, 2, 3, a - 1 if a else 0) for s in (1, -1)]
    out = [case([{"e": "consts"}])] + scalars("shift", range(256)) + scalars("maybe", range(256))
    out += scalars("bytes", sorted(set(P2 + list(range(200)) + near)) + rnd)
    out += scalars("bits", sorted(set(P2 + list(range(200)) + near + [8 * x % 2**64 for x in P2])) + rnd)
    small = sorted(set([x for x in P2 if x < 2**32] + list(range(70)) + [2**23 + 2, 2**23 - 2])) + [x % 2**32 for x in rnd]
    out += scalars("width", small) + scalars("space32", small)
    out += scalars("space64", sorted(set(P2 + SPACES + [2**32 + x for x in (0, 1, 5, 2**23 - 1)] + [2**40 + 1])) + rnd)
    als = [2**k for k in range(64)]
    ps = [[big(a), big(b)] for a in als[::3] + als[-2:] for b in als[::2] + als[-2:]]
    out += [case([{"e": "compare", "of": "align", "ps": b}]) for b in batches(ps, 100)]
    vs = [1, 2, 31, 32, 64, 255, 256, 65535, 65536, 2**23 - 2, 2**23 - 1, 0, 2**23]
    for of in ("width", "space"):
        out.append(case([{"e": "compare", "of": of, "ps": [[a, b] for a in vs for b in vs]}]))
    return out


# ---- C24: codes -------------------------------------------------------------------------------------
TABLES = ["Linkage", "Visibility", "DllStorageClass", "ThreadLocalMode", "UnnamedAddr", "RuntimePreemption", "CallingConvention",
          "SelectionKind", "BlockId", "ReservedBlockId", "IrBlockId", "ReservedAbbrevId", "AbbrevOpEnc", "BlockInfoCode",
          "IdentificationCode", "ModuleCode", "TypeCode", "StrtabCode", "SymtabCode", "AttributeCode", "FunctionCode", "UnaryOpcode",
          "BinaryOpcode", "RMWOperation", "AttributeKind", "AttributeId"]


def c24(r, quick):
    out = [case([{"e": "consts"}])]
    for tab in TABLES:
        ns = set(range(300 if quick else 70000)) | set(P2) | {1023, 1024, 65535}
        for k in (8, 16, 31, 32, 63):
            ns |= {2**k + x for x in range(100)}
        ns |= {r.randrange(2**r.randrange(1, 65)) for _ in range(100 if quick else 5000)}
        ns |= {2**64 - 1 - x for x in range(20)}
        for b in batches(sorted(ns), 200):
            out.append(case([{"e": "code", "t": tab, "ns": [big(n) for n in b]}]))
    return out


# ---- C25: operations --------------------------------------------------------------------------------
def c25(r, quick):
    ns = list(range(20)) + [255, 256, 257, 2**16, 2**32, 2**32 + 1, 2**63, 2**64 - 1]
    ops = lambda i: {"e": "binop", "t": i, "ns": [big(n) for n in ns]}
    base = every_kind()
    out = [case(base[:]+ [ops(i) for i in range(s, len(base) + 1, 8)]) for s in range(8)]
    out += [case([{"e": "code", "t": tab, "ns": [big(n) for n in list(range(300)) + P2]}]) for tab in ("UnaryOp", "UnaryOpcode", "BinaryOpcode")]
    for w in (1, 7, 8, 64, 128, 2**24 - 1):
        out.append(case([t("Integer", w=w), t("FixedVector", n=2, t=1), t("ScalableVector", n=2, t=1), t("Array", n=2, t=1),
                         t("Pointer", t=1, **{"as": 0}), struct([1])] + [ops(i) for i in range(1, 7)]))
    for _ in range(30 if quick else 500):
        ev = base[:]
        for _ in range(25):
            ev.append(random_type(r, len(ev) + 1))
        ev += [dict(ops(r.randrange(80)), ns=[big(r.choice(ns)) for _ in range(6)]) for _ in range(40)]
        out.append(case(ev))
    if not quick:
        for b in batches(range(70000), 500):
            out.append(case([t("Integer", w=32), t("Float"), {"e": "binop", "t": 1, "ns": b}, {"e": "binop", "t": 2, "ns": b}]))
    return out


# ---- beyond what small cases reach ------------------------------------------------------------------
def far_layouts(r, n):
    """Layouts of n specifications, and of specifications of n parts."""
    out = ["n" + ":".join(str(1 + i) for i in range(n)), "ni:" + ":".join(str(1 + i) for i in range(n)),
           "-".join("i%d:%d:%d" % (1 + i, 8 << i % 3, 8 << (i % 3 + i % 2)) for i in range(n)),
           "-".join("%s%d:%d" % ("ivf"[i % 3], n - i, 8 << i % 4) for i in range(n)),
           "-".join("p%d:%d:%d:%d" % (1 + i, 8 * (i % 9 + 1), 8 << i % 3, 8 << (i % 3 + i % 2)) for i in range(n)),
           "-".join("p%d:32:32" % (1 + (i * 37) % n) for i in range(n)),
           "-".join(["e"] * n), "-".join("eE"[i % 2] for i in range(n)), "-".join("S%d" % (8 << i % 9) for i in range(n)),
           "-".join(["n8"] * n + ["n%d" % n]), "-".join("ni:%d" % (1 + i) for i in range(n)), "S" + "0" * n + "64", "p:" + "0" * n + "64:64:64",
           "i8:8:8" + ":8" * n, "e-" + "-" * n, "e-" + "x" * n, "n" + ":" * n, "m:e" + "e" * n, "n" + "9" * n]
    last = r.choice(["n8:x", "i8", "q", "ni:0", "p1:8", "p%d:8:8:8" % 2**23, "m:q", "i8:16:8", ""])
    out.append("-".join([spec(r, True) for _ in range(n)] + [last]))
    out.append("-".join(spec(r, True) for _ in range(n)))
    return out


def far_types(r, n):
    """What has n parts, what is n long in its name, what n others precede."""
    flt, dbl = 1, 2
    base = [t("Float"), t("Double"), t("Void"), t("Metadata")]
    fs = [r.choice([1, 2]) for _ in range(n)]
    cuts = sorted({0, n - 1, n // 2, max(0, n - 256), r.randrange(n)})
    bad = [fs[:i] + [3] + fs[i + 1:] for i in cuts] + [fs[:i] + [4] + fs[i + 1:] for i in cuts]
    other = [fs[:i] + [3 - fs[i]] + fs[i + 1:] for i in cuts]
    out = []
    for xs in [fs] + bad + other + [fs[:-1], fs + [1]]:
        out += [struct(xs), struct(xs, True, "s"), fn(flt, xs), fn(3, xs, True)]
    big_ = case(base + out + [{"e": "equal", "t": 5}, {"e": "equal", "t": 6}, {"e": "equal", "t": 7}])
    names = ["x" * n, "x" * (n - 1), "x" * (n - 1) + "y", "y" + "x" * (n - 1), "\u4e2d" * (n // 3), "x" * (n + 256)]
    named = case(base + [struct([1], False, s) for s in names] + [struct([1])] + [{"e": "equal", "t": 5 + i} for i in range(7)])
    out = [big_, named]
    deep = min(n, 100)
    for top in (1, 3):
        for kind in range(4):
            ev = base[:]
            for i in range(deep):
                x = len(ev) if i else top
                ev.append([t("Pointer", t=x, **{"as": 0}), t("Array", n=1, t=x), struct([x]), fn(x, [x] * (i < 3))][kind if r.random() < .9 else r.randrange(4)])
            out.append(case(ev + [{"e": "equal", "t": len(ev)}]))
    pool = [t("Integer", w=1 + i) for i in range(n)]
    out.append(case(pool + [t("Pointer", t=i, **{"as": 0}) for i in (1, n, max(1, n - 256), n // 2)] + [{"e": "equal", "t": n}, {"e": "equal", "t": n + 1}]))
    return out


def far_updates(r, n):
    """n keys, in this order and that."""
    def al(i):
        return 1 << i % 5, 1 << (i % 5 + i % 2)
    up = [("Integer", 1 + i) for i in range(n)]
    orders = [up, up[::-1], [("Vector", 1 + (i * 37) % n) for i in range(n)], [(CLASSES[i % 3], 1 + i // 3) for i in range(n)]]
    out = [case([tnew(c, w, *al(i)) for i, (c, w) in enumerate(o + r.sample(o, 9))]) for o in orders]
    for o in (list(range(1, n)), list(range(n, 0, -1)), [1 + (i * 37) % n for i in range(n)]):
        out.append(case([pnew(s, *al(i), 8 * i, i) for i, s in enumerate(o + r.sample(o, 9))]))
    out.append(case([tnew("Integer", 77, *al(i)) for i in range(n)] + [pnew(77, *al(i)) for i in range(n)]))
    return out


def far(r, quick, prop):
    out = []
    for n in [130, 260] if quick else [120, 128, 255, 256, 257, 300, 520]:
        if prop == "C17":
            out += far_types(r, n)
        if prop == "C22":
            out += far_updates(r, n)
    for n in [130, 260, 1030, 4100] if quick else [127, 128, 129, 255, 256, 257, 511, 512, 520, 1024, 1030, 2060, 4100]:
        if prop == "C21":
            out += [case([lay(s)]) for s in far_layouts(r, n)]
    return out


SCOPE = {"C17": c17, "C21": c21, "C22": c22, "C23": c23, "C24": c24, "C25": c25}
GEN = {p: lambda r, quick, p=p, f=f: f(r, quick) + far(r, quick, p) for p, f in SCOPE.items()}
