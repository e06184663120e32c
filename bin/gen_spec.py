"""Behaviours the specification's models emit (their CASE lines), as inputs for the real code."""
import json

import gen_cursor
import gen_map
import gen_support
from bitw import Writer
from gen_map import Blk, ident, strtab, txt, with_modules
from vlib import ToolError, unlimbs


def emitted(text):
    """What was emitted, without duplicates (TLC's workers may emit in any order)."""
    out = {json.loads(l)[5:] for l in text.splitlines() if l.startswith('"CASE ')}
    return [json.loads(x) for x in sorted(out)]


def some(r, xs, n):
    xs = list(xs)
    return xs if n is None or len(xs) <= n else r.sample(xs, n)


# ---- cursor -----------------------------------------------------------------------------------
def history(h):
    data, win, ops = h
    out = []
    for o in ops:
        if o[0] == "align":
            out.append({"op": "align"})
        elif o[0].startswith("seek"):
            out.append(gen_cursor.op_x(o[0], o[1]))
        else:
            out.append(gen_cursor.op_n(o[0], o[1], **({"t": o[2]} if o[0] == "read_as" else {})))
    return gen_cursor.case(data, out, win)


# ---- entries (unrolling and grouping) -------------------------------------------------------------
TYPES, VALUES = gen_map.min_types(), Blk(14)


def entries(es):
    """A stream of these very entries. Every one of them takes a multiple of 32 bits, so that the stream may end
    anywhere; except if all is well anyway: then top-level blocks have the contents that make them map."""
    w = Writer()
    depth, ok, n = 0, True, 0
    for k, _ in es:
        depth += (k == "block") - (k == "end")
        ok = ok and depth >= 0 and not (k == "rec" and depth == 0)
    ok = ok and depth == 0 and es[-1][0] == "eos"
    depth = 0
    for k, id in es:
        if k == "block":
            id = unlimbs(id)
            w.enter(id, 4)
            depth += 1
            if ok and depth == 1:
                if id == 13:
                    w.unabbrev(1, txt("who%d" % n))
                    w.unabbrev(2, [n])
                elif id == 8:
                    w.unabbrev(1, [2])
                    w.unabbrev(2, txt("triple%d" % n))
                    gen_map.write(w, TYPES)
                    gen_map.write(w, VALUES)
                elif id in (23, 25):
                    w.unabbrev(1, txt("table%d" % n))
        elif k == "rec":
            w.unabbrev(7, [n] + [0] * (7 if depth else 2))
        elif k == "end":
            depth -= 1
            if depth >= 0:
                w.end()
            else:
                w.fixed(0, 2)
                w.align()
        else:
            break
        n += 1
    return gen_map.bytes_case(w.raw())


# ---- module blocks ----------------------------------------------------------------------------------
def record(x):
    return unlimbs(x["code"]), [unlimbs(f) for f in x["f"]]


def type_table(r, recs):
    m = gen_map.type_module([record(x) for x in recs])
    return with_modules(r, [m])


def blk(b):
    out = Blk(unlimbs(b["id"]), *[record(x) for x in b["recs"]])
    for _, bs in b["subs"]:
        for s in bs:
            out.sub(blk(s))
    return out


def module_block(r, x):
    recs, subs = x
    m = Blk(8, *[record(y) for y in recs])
    for _, bs in subs:
        for s in bs:
            # Sub-blocks anywhere, but those of the same kind in their order.
            m.items.append(blk(s))
    order = m.items
    keys = r.sample(range(1000), len(order))
    for kind in {(x[0] if isinstance(x, tuple) else None, 0 if isinstance(x, tuple) else x.id) for x in order}:
        of = [i for i, x in enumerate(order) if ((x[0], 0) if isinstance(x, tuple) else (None, x.id)) == kind]
        for i, k in zip(of, sorted(keys[i] for i in of)):
            keys[i] = k
    m.items = [x for _, x in sorted(zip(keys, order), key=lambda y: y[0])]
    return with_modules(r, [(ident("mm", 3), m, strtab(b"fo"), None)])


def attribute_groups(r, xs):
    m = gen_map.min_module()
    g, p = Blk(10), Blk(9)
    for i, (pos, fields) in enumerate(xs):
        g.rec(3, i, unlimbs(pos), *[unlimbs(f) for f in fields])
        p.rec(2, i)
    p.rec(2, *range(len(xs)))
    m.sub(g)
    m.sub(p)
    return with_modules(r, [(ident(), m, strtab(), None)])


def records(r, fs, look=()):
    """A module with records like MCGlobals' context."""
    m = Blk(8).rec(1, 2)
    t = m.sub(Blk(17).rec(1, 4))
    t.rec(21, 0, 3).rec(7, 8).rec(21, 1, 1, 1).rec(2)
    m.sub(Blk(14))
    m.sub(Blk(10).rec(3, 7, 0, 0, 18))
    m.sub(Blk(9).rec(2).rec(2, 7))
    m.rec(5, *txt("ss")).rec(5, *txt("tt")).rec(11, *txt("gg"))
    for kind, f in fs:
        m.rec({"fn": 8, "alias": 14, "comdat": 12}[kind], *[unlimbs(x) for x in f])
    return with_modules(r, [(ident(), m, strtab("fo\u00e9b".encode()), None)], look=look)


def globals_(r, xs, kinds, bundles, bad):
    xs = [(k, f, ok) for k, f, ok in xs if k in kinds]
    good = [(k, f) for k, f, ok in xs if ok]
    r.shuffle(good)
    # Records with types of index 3 are legal here, but not in the model's context (or the other way round):
    # they stay on their own.
    alone = [x for x in good if unlimbs(x[1][2]) == 3]
    good = [x for x in good if unlimbs(x[1][2]) != 3]
    out = [records(r, good[i:i + 12]) for i in range(0, min(len(good), 12 * bundles), 12)]
    wrong = [(k, f) for k, f, ok in xs if not ok] + alone
    return out + [records(r, [x]) for x in some(r, wrong, bad)]


def lookups(r, xs):
    pairs = sorted({(unlimbs(f[0]), unlimbs(f[1])) for _, f, _ in xs})
    return [records(r, [], look=pairs[i:i + 60]) for i in range(0, len(pairs), 60)]


# ---- support types ----------------------------------------------------------------------------------
def layouts(texts, n=60):
    return [gen_support.case([gen_support.lay(bytes(t)) for t in b]) for b in gen_support.batches(texts, n)]


def updates(hist):
    ev = []
    for h in hist:
        if h[0] == "t":
            ev.append(gen_support.tnew(h[1], unlimbs(h[2]), unlimbs(h[3]), unlimbs(h[4])))
        else:
            ev.append(gen_support.pnew(*[unlimbs(x) for x in h[1:]]))
    return gen_support.case(ev)


def alignments(ns):
    ns = sorted(unlimbs(n) for n in ns)
    out = []
    for op in ("bytes", "bits", "space64"):
        out += gen_support.scalars(op, ns)
    for op in ("width", "space32"):
        out += gen_support.scalars(op, [n for n in ns if n < 2**32])
    ps = [[gen_support.big(a), gen_support.big(b)] for i, a in enumerate(ns) for b in ns[i - 1:i + 2]]
    return out + [gen_support.case([{"e": "compare", "of": "align", "ps": b}]) for b in gen_support.batches(ps, 100)]


class Terms:
    """Constructor calls that build types, every one of them once."""

    def __init__(self):
        self.ev, self.at = [], {}

    def build(self, x):
        key = json.dumps(x, sort_keys=True)
        if key in self.at:
            return self.at[key]
        k, big, t = x["k"], lambda l: gen_support.big(unlimbs(l)), gen_support.t
        if k == "Integer":
            e = t(k, w=unlimbs(x["w"]))
        elif k == "OpaquePointer":
            e = t(k, **{"as": big(x["as"])})
        elif k == "Pointer":
            e = t(k, t=self.build(x["t"]), **{"as": big(x["as"])})
        elif k in ("Array", "FixedVector", "ScalableVector"):
            e = t(k, n=big(x["n"]), t=self.build(x["t"]))
        elif k == "Struct":
            e = gen_support.struct([self.build(f) for f in x["f"]], x["packed"])
            e["name"] = x["name"]
        elif k == "Function":
            ret = self.build(x["ret"])
            e = gen_support.fn(ret, [self.build(p) for p in x["params"]], x["va"])
        else:
            e = t(k)
        self.ev.append(e)
        self.at[key] = len(self.ev)
        return len(self.ev)


CODES = list(range(14)) + [255, 2**32, 2**32 + 1, 2**64 - 1]


def terms(xs, around=False, ops=False, n=25):
    out = []
    for b in gen_support.batches(xs, n):
        z = Terms()
        if around:
            z.build({"k": "Double"})
        ps = [z.build(x) for x in b]
        ev = z.ev
        if ops:
            ev = ev + [{"e": "binop", "t": p, "ns": [gen_support.big(c) for c in CODES]} for p in ps]
        if around:
            fine = z.at['{"k": "Double"}']
            for p in ps:
                ev = ev + [dict(e) for e in gen_support.around(p, fine)]
        out.append(gen_support.case(ev))
    return out


# ---- spellings ----------------------------------------------------------------------------------------
def spellings(xs, n=8):
    """Spellings of the same content, several to a case."""
    out = []
    for what in sorted({x[0] for x in xs}):
        ds = [x[1] for x in xs if x[0] == what]
        for i in range(0, len(ds), n):
            c = gen_map.bytes_case(ds[i], look=[(0, 2), (1, 1), (0, 3)])
            c["alts"] = ds[i + 1:i + n]
            out.append(c)
    return out
