"""Cases for the bitstream parser."""
from bitw import *
from vlib import limbs


def case(data, kind="raw", mode="check", want=None):
    c = {"k": "stream", "kind": kind, "mode": mode, "data": list(data) if mode == "check" else bytes(data).hex()}
    if want is not None:
        c["want"] = [[limbs(a), [limbs(x) for x in f]] for a, f in want]
    return c


def value(r, big=True):
    k = r.random()
    if k < .35:
        return r.randrange(0, 40)
    if k < .55:
        return ord(r.choice(CHAR6))
    if k < .75:
        return r.randrange(256)
    if not big:
        return r.randrange(1 << 20)
    return r.getrandbits(r.choice([8, 16, 31, 32, 33, 47, 48, 63, 64]))


def width_for(r, v):
    lo = max(1, v.bit_length())
    return lo if r.random() < .5 else min(63, lo + r.randrange(0, 6))


def scalar_for(r, v):
    c = []
    if v.bit_length() <= 63:
        c += [("fixed", width_for(r, v))] * 3
    c += [("vbr", r.choice([2, 3, 4, 5, 6, 8, 8, 12, 31, 32]))] * 3
    c.append(("lit", v))
    if v in C6:
        c += [("char6",)] * 3
    if v == 0:
        c.append((r.choice(["fixed", "vbr"]), 0))
    return r.choice(c)


def elem_for(r, vals):
    m = max([v.bit_length() for v in vals] + [1])
    c = [("vbr", r.randrange(2, 33))]
    if m <= 63:
        c += [("fixed", min(63, m + r.choice([0, 0, 1, 3])))] * 2
    if vals and all(v in C6 for v in vals):
        c += [("char6",)] * 3
    return r.choice(c)


def abbrev_for(r, code, fields):
    """An arbitrary abbreviation that can write the record."""
    vals = [code] + fields
    n = len(vals)
    # Where the tail (array or blob) begins, if there is one.
    tails = []
    if r.random() < .65:
        t = r.choice([r.randrange(0, n + 1), n, 1, 0, max(0, n - 1)])
        if t > 0 or vals:
            tails.append(("array", t))
            if all(v < 256 for v in vals[t:]):
                tails.append(("blob", t))
    if not tails or r.random() < .15:
        return [scalar_for(r, v) for v in vals]
    kind, t = r.choice(tails)
    head = [scalar_for(r, v) for v in vals[:t]]
    return head + [("array", elem_for(r, vals[t:])) if kind == "array" else ("blob",)]


def record(r, big=True):
    n = r.choice([0, 0, 1, 1, 2, 3, 4, 6, 9, 17])
    style = r.random()
    if style < .2:
        return value(r, big), [ord(r.choice(CHAR6)) for _ in range(n)]
    if style < .4:
        return value(r, big), [r.randrange(256) for _ in range(n)]
    return value(r, big), [value(r, big) for _ in range(n)]


def fit(r, ops):
    """A record the abbreviation can write."""
    def scal(o):
        if o[0] == "lit":
            return o[1]
        if o[0] == "fixed":
            return r.getrandbits(o[1]) if o[1] else 0
        if o[0] == "vbr":
            return r.getrandbits(r.choice([3, 8, 33, 64])) if o[1] >= 2 else 0
        return ord(r.choice(CHAR6))
    vals = []
    for i, o in enumerate(ops):
        n = r.choice([1, 2, 5, 0 if i else 1, 33])
        if o[0] == "array":
            vals += [scal(o[1]) for _ in range(n)]
        elif o[0] == "blob":
            vals += [r.randrange(256) for _ in range(n)]
        else:
            vals.append(scal(o))
    return vals[0], vals[1:]


def usable(ops):
    return all((o[1] if o[0] == "array" else o)[0] not in ("fixed", "vbr") or
               (2 if (o[1] if o[0] == "array" else o)[0] == "vbr" else 1) <= (o[1] if o[0] == "array" else o)[1] <= (32 if (o[1] if o[0] == "array" else o)[0] == "vbr" else 63)
               or (o[0] != "array" and o[1] == 0) for o in ops)


def room(w, k):
    return k < (1 << w.width)


def put_record(r, w, p_new=.4):
    c = r.random()
    if w.abbrevs and c < .4:
        k = r.randrange(len(w.abbrevs))
        if room(w, 4 + k) and usable(w.abbrevs[k]):
            w.abbreviated(k, *fit(r, w.abbrevs[k]))
            return
    code, f = record(r)
    if c < .4 + p_new and room(w, 4 + len(w.abbrevs)):
        w.define(abbrev_for(r, code, f), pad=r.choice([0, 0, 0, 1]))
        w.abbreviated(len(w.abbrevs) - 1, code, f)
        # The same abbreviation, and others that fit, for the same record.
        for k, a in enumerate(w.abbrevs):
            if room(w, 4 + k) and matches(a, [code] + f) and r.random() < .5:
                w.abbreviated(k, code, f)
        return
    w.unabbrev(code, f, pads=(lambda: r.choice([0, 0, 0, 0, 1, 2])) if r.random() < .3 else None)


def put_blockinfo(r, w, bids, depth=0):
    w.enter(0, r.choice([2, 2, 3, 4, 6]), fill=r.randrange(256))
    w.stack[-1][4] = None
    for _ in range(r.randrange(1, 7)):
        if w.stack[-1][4] is None or r.random() < .35:
            b = r.choice(bids)
            ks = [k for k, a in enumerate(w.abbrevs) if matches(a, [1, b]) and room(w, 4 + k)]
            w.setbid(b, r.choice(ks) if ks and r.random() < .7 else None, r.choice([(), (), (), (0,), (9, 8), (7,) * 3]))
        elif r.random() < .2:
            w.unabbrev(r.choice([2, 3]), [value(r) for _ in range(r.randrange(4))])
        elif depth < 1 and r.random() < .08:
            put_block(r, w, bids, depth + 2)
        else:
            c, f = record(r)
            w.define(abbrev_for(r, c, f) if r.random() < .8 else [("lit", 1), ("vbr", 6)])
            ks = [k for k, a in enumerate(w.abbrevs) if matches(a, [2, 65]) and room(w, 4 + k)]
    w.end(fill=r.randrange(256))


def put_block(r, w, bids, depth=0, width=None):
    bids = [b for b in bids if b] or [8]
    w.enter(r.choice(bids), width or r.choice([2, 3, 3, 4, 4, 5, 7, 8, 13, 32, 33, 63]), fill=r.choice([0, 255, r.randrange(256)]),
            length=r.choice([None] * 6 + [0, 7, 2**32 - 1]))
    for _ in range(r.randrange(0, 7 if depth < 2 else 4)):
        c = r.random()
        if c < .2 and depth < 4:
            put_block(r, w, bids, depth + 1)
        elif c < .28 and depth < 3:
            put_blockinfo(r, w, bids)
        elif c < .4:
            cc, f = record(r)
            w.define(abbrev_for(r, cc, f))
        else:
            put_record(r, w)
    w.end(fill=r.choice([0, 0xFF, r.randrange(256)]))


BIDS = [1, 7, 8, 8, 9, 17, 127, 128, 2**32, 2**64 - 1]


def document(r, w=None):
    w = w or Writer(r.choice([MAGIC, MAGIC, [r.randrange(256) for _ in range(4)]]))
    bids = r.sample(BIDS, 3)
    if r.random() < .2:
        bids.append(0)   # abbreviations for BLOCKINFO itself
    for _ in range(r.randrange(1, 4)):
        if r.random() < .4:
            put_blockinfo(r, w, bids)
        put_block(r, w, [b for b in bids if b] or [8])
    return w


# ---- defects (C10) ---------------------------------------------------------------------------
def arr(e):
    return ("array", e)


def raw_define(w, n, enc):
    """DEFINE_ABBREV with an operand count and operands given as raw bit fields."""
    w.id(2)
    w.vbr(n, 5)
    for v, bits in enc:
        if bits < 0:
            w.vbr(v, -bits)
        else:
            w.fixed(v, bits)


def o_lit(v):
    return [(1, 1), (v, -8)]


def o_enc(e, w=None):
    return [(0, 1), (e, 3)] + ([(w, -5)] if w is not None else [])


def defect(r, w, which=None):
    """Put one defect at the writer's current place (in a block, unless it says otherwise)."""
    F, V, C, B = o_enc(1, r.randrange(1, 9)), o_enc(2, r.randrange(2, 9)), o_enc(4), o_enc(5)
    A = o_enc(3)
    scal = lambda: r.choice([F, V, C, o_lit(r.randrange(200))])
    kinds = dict(
        undefined=lambda: w.id(r.randrange(4 + len(w.abbrevs), 1 << w.width)) if room(w, 4 + len(w.abbrevs)) else w.enter(8, 0),
        zerowidth=lambda: w.enter(r.choice([8, 9, 0]), 0),
        noops=lambda: raw_define(w, 0, []),
        badenc=lambda: raw_define(w, 2, scal() + o_enc(r.choice([0, 6, 7]))),
        badenc1=lambda: raw_define(w, 1, o_enc(r.choice([0, 6, 7]))),
        arrayfirst=lambda: raw_define(w, 3, A + F + F),
        arraylast=lambda: raw_define(w, 2, scal() + A + scal()),
        arrayonly=lambda: raw_define(w, 1, A + scal()),
        arraymid=lambda: raw_define(w, 4, scal() + A + F + scal()),
        literalelem=lambda: raw_define(w, 3, scal() + A + o_lit(r.randrange(300))),
        nestedarr=lambda: raw_define(w, 4, scal() + scal() + A + A + F),
        nestedarr2=lambda: raw_define(w, 3, scal() + A + A + F),
        blobelem=lambda: raw_define(w, 3, scal() + A + B),
        badelem=lambda: raw_define(w, 3, scal() + A + o_enc(r.choice([0, 6, 7]))),
        blobmid=lambda: raw_define(w, 2, B + F),
        blobmid2=lambda: raw_define(w, 3, scal() + B + scal()),
        emptyarr=lambda: use_empty(w, [arr(("vbr", 6))]),
        emptyblob=lambda: use_empty(w, [("blob",)]),
        badfixed=lambda: use_raw(w, [("lit", 3), ("fixed", r.choice([64, 65, 100, 2**32, 2**40]))]),
        badvbr=lambda: use_raw(w, [("lit", 3), ("vbr", r.choice([1, 33, 64, 2**33]))]),
        badfixedelem=lambda: use_raw(w, [("lit", 3), arr(("fixed", r.choice([0, 64, 90])))], 3),
        badvbrelem=lambda: use_raw(w, [("lit", 3), arr(("vbr", r.choice([0, 1, 33, 64])))], 3),
        overflow=lambda: (w.id(3), w.vbr(5, 6), w.vbr(1, 6), w.vbr(r.choice([1 << 64, (1 << 66) + 5, 1 << 70]), 6)),
        overflow2=lambda: (w.id(3), w.vbr(5, 6), w.vbr(1, 6), w.vbr(5, 6, pad=r.randrange(13, 17), force=True)),
        hugecount=lambda: (w.id(3), w.vbr(5, 6), w.vbr(r.choice([10**6, 2**31, 2**32, 2**63, 2**64 - 1]), 6)),
        hugearr=lambda: (use_raw(w, [("lit", 3), r.choice([arr(("char6",)), arr(("fixed", 1)), ("blob",)])], r.choice([10**5, 2**32, 2**60, 2**64 - 1]))),
        hugeops=lambda: raw_define(w, r.choice([2**31, 2**40, 2**64 - 1]), o_lit(1) * 4),
        blockinfo=lambda: bad_blockinfo(r, w),
        top=lambda: bad_top(r, w),
        truncwidth=lambda: w.enter(8, r.choice([64, 65, 128, 2**20, 2**33])),
    )
    which = which or r.choice(list(kinds))
    kinds[which]()
    return which


def use_empty(w, ops):
    w.define(ops)
    k = len(w.abbrevs) - 1
    if not room(w, 4 + k):
        w.enter(8, 0)
        return
    w.id(4 + k)
    w.vbr(0, 6)
    if ops[0][0] == "blob":
        w.align()


def use_raw(w, ops, count=None):
    """Use an abbreviation whose operand can't be read."""
    w.define(ops)
    k = len(w.abbrevs) - 1
    if not room(w, 4 + k):
        w.enter(8, 0)
        return
    w.id(4 + k)
    if count is not None:
        w.vbr(count, 6)
    w.fixed(0x5A5A5A5A, 32)


def bad_blockinfo(r, w):
    w.enter(0, r.choice([2, 3, 3, 5, 9, 14]))
    k = r.randrange(4)
    if k == 0:
        raw_define(w, 1, o_lit(3))             # no SETBID yet
    elif k == 1:
        w.unabbrev(1, [])                      # SETBID without a block id
    elif k == 2:
        w.unabbrev(1, [8])
        w.unabbrev(r.choice([0, 4, 5, 2**32 + 1, 2**64 - 1]), [1])
    else:
        w.unabbrev(1, [8])
        w.end()
        w.enter(0, 3)
        raw_define(w, 1, o_lit(3))             # SETBID was in another BLOCKINFO block


def bad_top(r, w):
    while w.stack:
        w.end()
    k = r.randrange(3)
    if k == 0:
        w.end()
    elif k == 1:
        w.unabbrev(r.randrange(9), [1, 2])
    else:
        raw_define(w, 1, o_lit(3))


def placed(r, which, place):
    """A defect at a given place, in a short stream."""
    w = Writer()
    if place in (2, 5):
        w.enter(0, 3)
        w.setbid(8)
        for _ in range(r.randrange(1, 3)):
            w.define([("lit", 5), ("vbr", 6)])
        w.end()
    if place == 4:
        w.enter(17, 3)
    if place == 10:             # deep inside
        for _ in range(r.randrange(3, 7)):
            w.enter(r.choice([8, 9, 2**32 - 1]), r.choice([2, 3, 5, 8]))
    if place == 9:              # after much else
        w.enter(r.choice([8, 9]), 5)
        for k in range(r.choice([12, 40])):
            w.unabbrev(k % 7, [2**50 + k] * r.randrange(1, 9))
        w.end()
    if place in (3, 4):         # in a BLOCKINFO block
        w.enter(0, r.choice([3, 4, 7, 13, 40]))
        w.setbid(r.choice([8, 0]))
    elif place != 8:
        w.enter(8, r.choice([3, 4, 7, 13, 40]))
    if place == 5:              # in a block of the same number, or after it
        w.enter(8, 5)
        w.unabbrev(3, [1])
        if r.random() < .5:
            w.end()
    if place == 6:              # after another block
        w.enter(r.choice([8, 9]), 5)
        w.define([("lit", 5), ("vbr", 6)])
        w.end()
    if place == 7:              # after block info in the same block
        w.enter(0, 4)
        w.setbid(8)
        w.define([("lit", 5), ("vbr", 6)])
        w.end()
    if place not in (3, 4, 8):
        for _ in range(r.choice([0, 0, 1, 3])):
            w.define([("lit", 6), ("vbr", 6)])
    if place != 8 and r.random() < .5:
        w.unabbrev(1, [8])
    defect(r, w, which)
    for _ in range(r.randrange(0, 6)):
        w.fixed(r.choice([0, 0, 0xFFFF, r.getrandbits(16)]), 16)
    return w.raw()


def broken(r, which=None):
    """A well-formed prefix, a defect, then whatever follows."""
    w = Writer()
    bids = r.sample(BIDS, 3)
    for _ in range(r.randrange(0, 3)):
        if r.random() < .3:
            put_blockinfo(r, w, bids)
        put_block(r, w, bids)
    for _ in range(r.randrange(1, 4)):
        w.enter(r.choice(bids), r.choice([3, 4, 5, 8, 2 if r.random() < .2 else 6]))
        for _ in range(r.randrange(0, 3)):
            put_record(r, w)
    defect(r, w, which)
    for _ in range(r.randrange(0, 20)):
        w.fixed(r.getrandbits(16), 16)
    return w.raw()


def truncated(r):
    b = document(r).bytes()
    n = 4 * r.randrange(1, len(b) // 4 + 1)
    return b[:n]


def mutated(r):
    b = bytearray(document(r).bytes())
    for _ in range(r.choice([1, 1, 2, 4, 10])):
        k = r.random()
        i = r.randrange(len(b))
        if k < .6:
            b[i] ^= 1 << r.randrange(8)
        elif k < .8:
            b[i] = r.choice([0, 255, r.randrange(256)])
        elif k < .9:
            j = 4 * (i // 4)
            b[j:j] = bytes(r.randrange(256) for _ in range(4))
        else:
            j = 4 * (i // 4)
            del b[j:j + 4]
        if not b:
            b = bytearray(4)
    return bytes(b)


def noise(r):
    n = r.choice([0, 1, 3, 4, 5, 8, 12, 20, 24, 40, 64, 100])
    if r.random() < .9:
        n -= n % 4
    b = bytearray(r.randrange(256) for _ in range(n))
    if r.random() < .3:
        b = bytearray(r.choice([0, 255, 1, 0x21, 0x55]) for _ in range(n))
    if r.random() < .6 and n > 8:
        # Begin with a block, so that the rest is parsed inside of it.
        w = Writer()
        w.enter(r.choice([0, 8]), r.choice([2, 3, 4]))
        b = bytearray(w.raw()) + b
    return bytes(b)


# ---- per property -------------------------------------------------------------------------------
def c06(r, quick):
    out = []
    for _ in range(220 if quick else 3000):
        s = document(r).bytes()
        k = r.random()
        off = r.choice([20, 20, 24, 28, 32, 64, 256])
        # Padding that looks like more bitstream must not be parsed.
        pad = r.choice([b"", bytes(4), bytes([255]) * 4, bytes(r.randrange(256) for _ in range(r.randrange(17))),
                        document(r).bytes(), bytes([0x21, 0, 0, 0])])
        kw = dict(offset=off, pad=pad, version=r.choice([0, 1, r.getrandbits(32)]), cpu=r.choice([7, 0x01000007, r.getrandbits(32)]),
                  filler=r.choice([0, 255, 0x35]))
        kinds = ["wrapped", "auto"]
        if k < .2:      # header describes something else
            n = len(s)
            kw["size"] = r.choice([0, 1, 2, 3, 4, n - 1, n + 1, n - 4, n + 4, n + len(pad), n + len(pad) + 1, n + len(pad) + 4,
                                   2**31, 2**32 - 1, 2**32 - 20, 2**32 - off, 2**32 - 4])
            kw["size"] = max(0, min(kw["size"], 2**32 - 1))
        b = wrap(s, **kw)
        if k > .92:
            b = bytearray(b)
            b[8:12] = r.choice([len(b) - len(b) % 4, len(b) + 4, len(b) - 4 & ~3, 2**31, 2**32 - 4, 2**32 - 16]).to_bytes(4, "little")
            b = bytes(b)
        if .85 < k <= .92:
            b = b[:r.randrange(0, len(b) + 1)]
        if k > .98:
            kinds = ["raw"]
        out.append(case(b, r.choice(kinds)))
        out.append(case(s, r.choice(["raw", "auto"])))
    for n in range(0, 26):
        h = wrap(bytes(MAGIC), pad=bytes(8))[:n]
        for kind in ("auto", "wrapped", "raw"):
            out.append(case(h, kind))
            out.append(case(bytes([0x42, 0x43, 0xC0, 0xDE] + [0] * 40)[:n], kind))
    # Whatever the magic of what's inside, be it that of a wrapper.
    for magic in ([0, 0, 0, 0], [255] * 4, [0xDE, 0xC0, 0x17, 0x0B], [0x0B, 0x17, 0xC0, 0xDE], [0x42, 0x43, 0xC0, 0xDF], [0x42, 0x42, 0x43, 0xC0], [ord(c) for c in "CPCH"]):
        for body in (b"", document(r).bytes()[4:]):
            s = bytes(magic) + body
            for b in (s, wrap(s), wrap(wrap(s)), wrap(wrap(s), 24, bytes(4))):
                out += [case(b, kind) for kind in ("raw", "auto", "wrapped")]
    # A BOUNDARY: the bitstream ends exactly where the header says, whatever follows.
    s = document(r).bytes()
    for pad in (b"", s, bytes([0xFF] * 8), b"\x21\x0c\0\0"):
        for off in (20, 24, 40):
            out.append(case(wrap(s, off, pad), "auto"))
    return [c for c in out if well_placed(c["data"], c["kind"])]


def well_placed(d, kind):
    d = bytes(d)
    if kind == "raw" or len(d) < 20 or (kind == "auto" and d[:4] != bytes.fromhex("dec0170b")):
        return True
    off = int.from_bytes(d[8:12], "little")
    return off >= 20 and off % 4 == 0


def c07(r, quick):
    out = []
    # Every record in several encodings, in one block per record; random blocks besides.
    for _ in range(260 if quick else 4000):
        w = Writer()
        w.enter(8, r.choice([4, 5, 6, 9]))
        for _ in range(r.randrange(1, 4)):
            code, f = record(r)
            w.unabbrev(code, f)
            for _ in range(r.randrange(1, 5)):
                if not room(w, 4 + len(w.abbrevs)):
                    break
                w.define(abbrev_for(r, code, f))
                w.abbreviated(len(w.abbrevs) - 1, code, f)
        b = w.bytes()
        out.append(case(b, want=w.want))
    for _ in range(160 if quick else 3000):
        w = document(r)
        out.append(case(w.bytes(), want=w.want))
    # Every width.
    for n in range(0, 64):
        w = Writer()
        w.enter(8, 4)
        for skew in range(1 if quick else 5):
            v = r.getrandbits(n) if n else 0
            top = (1 << n) - 1
            w.define([("fixed", 4), ("fixed", n), ("fixed", r.randrange(1, 9))])
            w.abbreviated(len(w.abbrevs) - 1, r.randrange(16), [v, 1])
            w.abbreviated(len(w.abbrevs) - 1, r.randrange(16), [top, 0])
            if n:
                w.define([("lit", 5), ("array", ("fixed", n))])
                w.abbreviated(len(w.abbrevs) - 1, 5, [v, top, 0, 1][:r.randrange(5)])
        b = w.bytes()
        out.append(case(b, want=w.want))
    for n in range(2, 33):
        w = Writer()
        w.enter(8, 4)
        w.define([("vbr", n), ("vbr", n)])
        w.define([("lit", 2**64 - 1), ("array", ("vbr", n))])
        for v in (0, 1, 2**63, 2**64 - 1, r.getrandbits(64), r.getrandbits(32)):
            w.abbreviated(0, r.getrandbits(64), [v])
            w.abbreviated(1, 2**64 - 1, [v, 0, 2**64 - 1])
        b = w.bytes()
        out.append(case(b, want=w.want))
    # Every character.
    w = Writer()
    w.enter(8, 4)
    w.define([("char6",), ("array", ("char6",))])
    w.define([("char6",), ("char6",)])
    w.abbreviated(0, ord("_"), [ord(c) for c in CHAR6])
    for c in CHAR6:
        w.abbreviated(1, ord(c), [ord(c)])
    b = w.bytes()
    out.append(case(b, want=w.want))
    # Blobs and arrays of every length, each followed by another record, at changing positions.
    for n in range(0, 150 if quick else 400):
        w = Writer()
        w.enter(8, 4)
        lead = r.randrange(0, 40)
        w.define([("lit", 9)] + ([("fixed", lead)] if lead else []) + [("blob",)])
        w.define([("lit", 9), ("array", r.choice([("fixed", r.choice([1, 7, 8, 16])), ("vbr", r.choice([2, 6, 8])), ("char6",)]))])
        el = w.abbrevs[1][1][1]
        top = {"char6": 0, "fixed": (1 << el[-1]) - 1 if el[0] == "fixed" else 0, "vbr": 300}[el[0]]
        w.abbreviated(0, 9, ([r.getrandbits(lead)] if lead else []) + [r.randrange(256) for _ in range(n)])
        w.unabbrev(7, [n, 1])
        w.abbreviated(1, 9, [ord(r.choice(CHAR6)) if el[0] == "char6" else r.randrange(top + 1) for _ in range(n)])
        w.unabbrev(7, [n, 2])
        w.unabbrev(9, [r.randrange(64) for _ in range(n)])
        w.unabbrev(7, [n, 3])
        b = w.bytes()
        out.append(case(b, want=w.want))
    # Blobs of every length modulo a word at every alignment.
    for n in range(0, 10 if quick else 40):
        w = Writer()
        w.enter(8, 4)
        for k in range(0, 34, 3 if quick else 1):
            w.define([("lit", 9), ("fixed", k), ("blob",)] if k else [("lit", 9), ("blob",)])
            if room(w, 3 + len(w.abbrevs)):
                w.abbreviated(len(w.abbrevs) - 1, 9, ([r.getrandbits(k)] if k else []) + [r.randrange(256) for _ in range(n)])
        b = w.bytes()
        out.append(case(b, want=w.want))
    return out


def c08(r, quick):
    out = []
    for _ in range(350 if quick else 5000):
        w = Writer()
        bids = r.sample(BIDS, 2)
        for _ in range(r.randrange(1, 4)):
            nest(r, w, bids, 0)
        if r.random() < .3:
            b = w.raw()     # ends inside of blocks
        else:
            b = w.bytes()
        out.append(case(b))
    return out


def nest(r, w, bids, depth):
    """Blocks that alternate widths and use abbreviations before and after their sub-blocks."""
    w.enter(r.choice(bids), r.choice([2, 3, 4, 5, 6, 9, 17, 40, 63]), length=r.choice([None, None, None, 0, 2**32 - 1, r.getrandbits(32)]),
            fill=r.choice([0, 255]))
    for _ in range(r.randrange(1, 6)):
        c = r.random()
        if c < .3 and depth < 5:
            nest(r, w, bids, depth + 1)
        elif c < .5:
            ops = r.choice([[("lit", r.randrange(50)), ("fixed", r.randrange(1, 20))], [("vbr", 6)], [("fixed", 3), ("array", ("char6",))],
                            [("lit", 3), ("blob",)]])
            w.define(ops)
        elif c < .6:
            put_blockinfo(r, w, bids)
        else:
            put_record(r, w, .1)
    if r.random() < .06:
        # An abbreviation that's only defined elsewhere.
        if room(w, 4 + len(w.abbrevs)):
            w.id(r.choice([4 + len(w.abbrevs), min((1 << w.width) - 1, 5 + len(w.abbrevs))]))
            w.fixed(0x1234, 16)
    if r.random() < .9:
        w.end(fill=r.choice([0, 255]))


def registered(r, steps, probe):
    """A history of block info, and whether and how a later block sees it."""
    w = Writer()
    for _ in range(r.choice([0, 0, 1, 2, 3])):
        w.enter(r.choice([11, 12]), r.choice([2, 3, 6]))
    width = r.choice([4, 5, 10] if probe == "self" else [2, 3, 3, 4, 9, 13])
    w.enter(0, width)
    count, now, bad = {}, None, False
    for i, what in enumerate(steps):
        if what in (8, 9, 0):
            w.setbid(what)
            now = what
        elif what == "define":
            w.define([("lit", 2 if now == 0 else 20 + i), ("vbr", 6)])
            count[now] = count.get(now, 0) + 1
            bad = bad or now is None
        elif what == "name":
            w.unabbrev(r.choice([2, 3]), [r.choice([8, 9]), 65, 66])
        elif what == "code":
            w.unabbrev(r.choice([0, 4, 5, 9, 300, 2**32 + 1, 2**64 - 1]), [r.choice([8, 9, 65])])
        elif what == "no id":
            w.unabbrev(1, [])
        elif what == "again":
            w.end()
            w.enter(0, width)
            now = None
        elif what == "block":       # block info around, and in, another block
            w.enter(r.choice([8, 9]), 4)
            w.define([("lit", 19), ("vbr", 6)])
            w.unabbrev(1, [9])
            w.end()
    if probe != "self":
        w.end()
        w.enter(probe, r.choice([5, 5, 4, 9, 12]))
    for k in range(r.choice([0, 1, 1]) if probe == "self" else count.get(probe, 0) + r.choice([0, 1])):
        w.id(4 + k)
        w.vbr(k + 1, 6)
    w.unabbrev(3, [1])
    w.end()
    return w.bytes()


def c09(r, quick):
    out = []
    steps = [8, 9, 0, "define", "define", "name", "again", "block"]
    for _ in range(200 if quick else 4000):
        s = [r.choice(steps) for _ in range(r.choice([2, 3, 4, 5, 7]))]
        if r.random() < .8:
            s = [r.choice([8, 9])] + s
        if r.random() < .25:
            s.insert(r.randrange(len(s) + 1), r.choice(["code", "no id"]))
        out.append(case(registered(r, s, r.choice([8, 8, 9, 9, 10, 0]))))
        if r.random() < .2:
            out.append(case(registered(r, s + [0, "define"], "self")))
    for _ in range(400 if quick else 5000):
        w = Writer()
        bids = r.sample([7, 8, 9, 10, 2**32 + 8], r.randrange(1, 4)) + ([0] if r.random() < .25 else [])
        for _ in range(r.randrange(2, 5)):
            c = r.random()
            if c < .55:
                put_blockinfo(r, w, bids)
            else:
                b = r.choice([x for x in bids if x])
                w.enter(b, r.choice([3, 4, 5]))
                if r.random() < .3:
                    w.define([("lit", 77), ("vbr", 6)])
                for k, a in enumerate(w.abbrevs):
                    if room(w, 4 + k) and usable(a):
                        w.abbreviated(k, *fit(r, a))
                if r.random() < .3:
                    put_blockinfo(r, w, bids)      # applies to later blocks only
                    if w.abbrevs and room(w, 3 + len(w.abbrevs)) and usable(w.abbrevs[-1]):
                        w.abbreviated(len(w.abbrevs) - 1, *fit(r, w.abbrevs[-1]))
                if r.random() < .4:
                    put_block(r, w, [x for x in bids if x], 2)
                if r.random() < .1 and room(w, 4 + len(w.abbrevs)):
                    w.id(4 + len(w.abbrevs))
                    w.fixed(r.getrandbits(30), 30)
                w.end()
        if r.random() < .15:
            for _ in range(r.choice([1, 1, 2, 3, 4])):
                w.enter(8, 4)
            bad_blockinfo(r, w)
            b = w.raw()
        else:
            b = w.bytes()
        out.append(case(b))
    return out


def c10(r, quick):
    out = []
    names = ["undefined", "zerowidth", "noops", "badenc", "badenc1", "arrayfirst", "arraylast", "arrayonly", "arraymid", "literalelem",
             "nestedarr", "nestedarr2", "blobelem", "badelem", "blobmid", "blobmid2", "emptyarr", "emptyblob", "badfixed", "badvbr",
             "badfixedelem", "badvbrelem", "overflow", "overflow2", "hugecount", "hugearr", "hugeops", "blockinfo", "top", "truncwidth"]
    for n in names:
        for _ in range(8 if quick else 150):
            out.append(case(broken(r, n)))
        for place in range(11):
            for _ in range((4 if n == "top" else 1) if quick else 20):
                out.append(case(placed(r, n, place)))
    for prefix in range(6):
        for what in range(8):
            w = Writer()
            if prefix in (1, 4, 5):     # a block, with abbreviations of its own
                w.enter(r.choice(BIDS[1:]), 4)
                w.define([("lit", 5), ("vbr", 6)])
                if prefix == 4:
                    w.enter(9, 3)
                    w.end()
                w.end()
            if prefix in (2, 3, 5):     # block info, with or without effect
                w.enter(0, 3)
                if prefix != 2:
                    w.setbid(8)
                    w.define([("lit", 5), ("vbr", 6)])
                w.end()
            if what == 0:
                w.end()
            elif what < 5:
                w.unabbrev(r.choice([1, 3, 8, 63, 2**40]), [7] * (what - 1))
            elif what == 5:
                raw_define(w, 1, o_lit(3))
            elif what == 6:
                raw_define(w, 2, o_lit(3) * 2)
            else:
                w.enter(0, 3)
                w.unabbrev(1, [])       # no number
            w.align() if r.random() < .5 else None
            for _ in range(r.choice([0, 1, 4])):
                w.fixed(r.choice([0, 0, 3, 0xFFFF]), 32)
            out.append(case(w.raw()))
    for _ in range(200 if quick else 3000):
        out.append(case(truncated(r)))
    for _ in range(5 if quick else 50):     # every prefix
        b = document(r).bytes()[:400]
        for n in range(4, len(b) + 1, 4):
            out.append(case(b[:n]))
    return out


def hostile(r, quick):
    """Large inputs that only have to end properly."""
    out = []
    n = 4000 if quick else 200000
    w = Writer()
    for i in range(n):
        w.enter(8, 2 + i % 3)
    out.append(w.raw())
    out.append(w.bytes())
    w = Writer()
    for i in range(n):
        w.enter(0, 3)
    out.append(w.raw())
    for inside in (8, 0):
        w = Writer()
        w.enter(inside, 3)
        if inside == 0:
            w.setbid(8)
        for i in range(n):
            w.define([("lit", 1)])
        out.append(w.bytes())
    w = Writer()
    w.enter(0, 3)
    for i in range(n):
        w.setbid(i)
    out.append(w.bytes())
    w = Writer()
    for i in range(n):
        w.enter(0, 3)
        w.end()
    out.append(w.bytes())
    out.append(bytes(4 * n))
    out.append(bytes([255]) * (4 * n))
    for fill in ([0x21, 0x0C, 0, 0], [0x55] * 4, [0x49] * 4, [0xb6, 0x6d, 0xdb, 0x36]):
        out.append(bytes(fill) * n)
    for count in (2**20, 2**31, 2**32, 2**40, 2**60, 2**63, 2**64 - 1):
        for ops in ([("lit", 3), arr(("char6",))], [("lit", 3), arr(("fixed", 1))], [("lit", 3), arr(("vbr", 2))], [("lit", 3), ("blob",)],
                    [arr(("fixed", 63))], [("blob",)], [("lit", 3), arr(("fixed", 0))]):
            w = Writer()
            w.enter(8, 4)
            use_raw(w, ops, count)
            for _ in range(300):
                w.fixed(r.getrandbits(32), 32)
            out.append(w.raw())
        w = Writer()
        w.enter(8, 4)
        w.id(3)
        w.vbr(count, 6)
        w.vbr(count, 6)
        for _ in range(300):
            w.fixed(r.getrandbits(32), 32)
        out.append(w.raw())
        w = Writer()
        w.enter(8, 4)
        w.id(2)
        w.vbr(count, 5)
        for _ in range(300):
            w.fixed(r.getrandbits(32), 32)
        out.append(w.raw())
        w = Writer()
        w.id(1)
        w.vbr(8, 8)
        w.vbr(count, 4)
        w.align()
        w.fixed(2**32 - 1, 32)
        for _ in range(20):
            w.fixed(r.getrandbits(32), 32)
        out.append(w.raw())
    return [case(b, r.choice(["auto", "raw"]), "crash") for b in out]


def c11(r, quick):
    out = []
    for _ in range(500 if quick else 8000):
        out.append(case(mutated(r), r.choice(["raw", "raw", "auto"])))
    for _ in range(400 if quick else 8000):
        out.append(case(noise(r), r.choice(["raw", "raw", "auto", "wrapped"])))
    for _ in range(100 if quick else 2000):
        out.append(case(broken(r), "raw"))
    for _ in range(60 if quick else 1000):
        b = bytearray(wrap(document(r).bytes(), pad=bytes(r.randrange(9))))
        i = r.randrange(24)
        b[i] = r.choice([0, 255, r.randrange(256)])
        out.append(case(b, r.choice(["wrapped", "auto"])))
    out = [c for c in out if well_placed(c["data"], c["kind"])]
    out += hostile(r, quick)
    # Wrappers whose offset makes no sense: no specified result, but no crash either.
    for off in list(range(0, 24)) + [2**31 + 1, 2**32 - 1, 2**32 - 4]:
        for size in (0, 4, 8, 24, 40, 2**32 - 1, (2**32 - off) % 2**32):
            b = bytearray(wrap(document(r).bytes()[:60], pad=bytes(12)))
            b[8:12] = off.to_bytes(4, "little")
            b[12:16] = size.to_bytes(4, "little")
            out.append(case(b, r.choice(["wrapped", "auto"]), "crash"))
    return out


# ---- beyond what small cases reach ---------------------------------------------------------------
def elements(r, e, n):
    if e[0] == "char6":
        return [ord(r.choice(CHAR6)) for _ in range(n)]
    return [r.getrandbits(e[1] if e[0] == "fixed" else r.choice([1, 5, 20])) for _ in range(n)]


def long_record(r, w, n, kind):
    """A record of about n values, written in a given way."""
    after = lambda: w.unabbrev(r.randrange(64), [n % 64, r.randrange(64)])
    if kind == "ops":
        w.unabbrev(r.randrange(99), [r.getrandbits(r.choice([2, 5, 5, 9])) for _ in range(n)])
    elif kind == "blob":
        w.define([("fixed", 5), ("blob",)])
        w.abbreviated(len(w.abbrevs) - 1, r.randrange(32), [r.randrange(256) for _ in range(n)])
    elif kind == "scalars":      # an abbreviation of that many operands
        ops = [r.choice([("fixed", r.randrange(1, 9)), ("vbr", 6), ("lit", r.randrange(300)), ("char6",)]) for _ in range(n)]
        w.define(ops + ([arr(("fixed", 3))] if r.random() < .5 else []))
        w.abbreviated(len(w.abbrevs) - 1, *fit(r, w.abbrevs[-1]))
    else:
        e = r.choice([("char6",), ("fixed", r.randrange(1, 20)), ("vbr", r.randrange(2, 9))])
        w.define([r.choice([("lit", 9), ("vbr", 6), ("fixed", 7)]), arr(e)])
        w.abbreviated(len(w.abbrevs) - 1, 9, elements(r, e, n))
    after()


def long_block(r, w, n, kind):
    """A block with about n of something."""
    if kind == "records":
        w.define([("lit", 8), arr(("fixed", 4))])
        for i in range(n):
            if i % 3:
                w.unabbrev(i, [i % 50])
            else:
                w.abbreviated(len(w.abbrevs) - 1, 8, [i & 15] * (i % 4))
    elif kind == "abbrevs":
        for i in range(n):
            w.define([("lit", i), ("fixed", 1 + i % 9), ("vbr", 4)])
        for i in {0, n - 1, n // 2} | {x - 4 + d for x in (128, 256, 512, 1024, 4096) for d in (-1, 0, 1) if 4 <= x + d < n + 4 + d and x - 4 + d < n} | {r.randrange(n) for _ in range(20)}:
            k = len(w.abbrevs) - n + i
            w.abbreviated(k, i, [r.getrandbits(1 + i % 9), r.getrandbits(9)])
    elif kind == "blocks":
        for i in range(n):
            w.enter(r.choice([i, 8, i + 1]) or 8, r.choice([2, 3, 4]))
            if i % 5 == 0:
                w.unabbrev(i, [i])
            w.end()
    elif kind == "nested":
        d = len(w.stack)
        for i in range(n):
            w.enter(i + 1, 3 + i % 3)
            w.define([("lit", i), ("vbr", 5)])
            if i % 4 == 0:
                w.abbreviated(0, i, [i])
        while len(w.stack) > d:
            if len(w.stack) % 4 == 0:
                w.abbreviated(0, len(w.stack) - d - 1, [9])
            w.end()
    else:       # words
        w.define([("blob",)])
        for _ in range(n):
            w.abbreviated(len(w.abbrevs) - 1, 7, [r.randrange(256) for _ in range(63)])


def far_blockinfo(r, n):
    """Registrations for n block ids, and n for one of them."""
    w = Writer()
    first = r.choice([1, 8, 250, 2**32 - 20])
    w.enter(0, 3)
    for i in range(n):
        w.setbid(first + i)
        w.define([("lit", i), ("fixed", 2 + i % 5)])
        if i % 7 == 0:
            w.setbid(first + n - 1 - i)
            w.define([("lit", 5000 + i), ("vbr", 3)])
    w.setbid(first + n)
    for i in range(n):
        w.define([("lit", i), ("fixed", 1 + i % 7)])
    w.end()
    for i in sorted({0, n - 1, n // 2} | {r.randrange(n) for _ in range(12)}):
        w.enter(first + i, 4)
        for k in range(min(4, len(w.abbrevs))):
            w.abbreviated(k, *fit(r, w.abbrevs[k]))
        w.end()
    w.enter(first + n, 14)
    w.define([("lit", 77777), ("fixed", 3)])
    for i in sorted({0, n - 1, n, n // 2} | {r.randrange(n) for _ in range(12)} | {x for x in range(118, 130) if x < n} | {x for x in range(249, 258) if x < n}):
        w.abbreviated(i, *fit(r, w.abbrevs[i]))
    w.end()
    return w


def far(r, quick, prop):
    out, docs = [], []
    sizes = [127, 130, 257, 1030, 4100] if quick else [120, 127, 130, 255, 256, 257, 511, 520, 1023, 1030, 2050, 4095, 4100, 8200, 16390, 33000, 66000]
    near = lambda n: max(1, n + r.randrange(-4, 5))

    def doc(f, *a, width=14):
        w = Writer()
        w.enter(r.choice(BIDS), width)
        if r.random() < .5:
            w.define([("lit", 3), ("blob",)])
        f(r, w, *a)
        w.unabbrev(3, [1, 2, 3])
        w.end()
        put_block(r, w, [8], 2)
        docs.append(w)

    if prop in ("C06", "C07", "C10", "C11"):
        for n in sizes:
            for kind in ("ops", "array", "array", "blob", "scalars"):
                if prop == "C07" or n < 600:
                    doc(long_record, near(n), kind)
        doc(long_record, 5000, "blob")
        for n in [66000] if quick else [16400, 33000, 66000, 132000]:
            doc(long_record, near(n), "blob")
    if prop in ("C07", "C08", "C10", "C11"):
        for n in sizes:
            for kind in ("records", "abbrevs", "blocks"):
                if n < (1500 if quick or kind == "abbrevs" else 5000):
                    doc(long_block, near(n), kind, width=r.choice([13, 14, 20, 33, 63]))
            if n < 300 or not quick and n < 2000:
                doc(long_block, near(n), "nested")
        doc(long_block, 300, "words")
    if prop in ("C09", "C10", "C11"):
        for n in [20, 70, 130, 260] if quick else [20, 70, 130, 260, 300, 520, 1030]:
            docs.append(far_blockinfo(r, n))
    if prop == "C06":
        big = max(docs, key=lambda w: len(w.out)).bytes()
        for off in (4096, 65532, 65536, 65540, 70000) + (() if quick else (2**18, 2**19 + 4)):
            for s in (document(r).bytes(), big):
                out.append(case(wrap(s, offset=off, pad=document(r).bytes(), filler=r.choice([0, 0x35])), r.choice(["wrapped", "auto"])))
                out.append(case(wrap(s, offset=off, size=len(s) - 4), r.choice(["wrapped", "auto"])))
                out.append(case(wrap(s, offset=off, size=len(s) + r.choice([1, 4, 65536])), r.choice(["wrapped", "auto"])))
        for w in docs:
            out.append(case(wrap(w.bytes(), pad=document(r).bytes()), r.choice(["wrapped", "auto"])))
        return out
    for w in docs:
        b = w.bytes()
        if prop in ("C07", "C08", "C09"):
            out.append(case(b, want=w.want))
        elif prop == "C10":
            out.append(case(b[:4 * r.randrange(1, len(b) // 4)]))
            out.append(case(b[:-4 * r.randrange(1, 20)]))
        else:
            b = bytearray(b)
            b[r.randrange(len(b))] ^= 1 << r.randrange(8)
            out.append(case(b))
    return out


SCOPE = dict(C06=c06, C07=c07, C08=c08, C09=c09, C10=c10, C11=c11)
GEN = {p: lambda r, quick, p=p, f=f: f(r, quick) + far(r, quick, p) for p, f in SCOPE.items()}


def trace(case, obs):
    data = case["data"]
    crash = case["mode"] == "crash"
    t = {"mode": case["mode"], "kind": case["kind"], "len": len(data) // 2 if crash else len(data),
         "data": [] if crash else data, "want": case.get("want", []), "wanted": "want" in case}
    t.update(obs)
    return t, len(obs.get("ev", []))
