"""Cases for the bit cursor: sequences of operations on small buffers."""
from vlib import limbs

TYPES = ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64"]
BIG = [2**31, 2**32 - 1, 2**32, 2**61 - 1, 2**61, 2**61 + 8, 2**62, 2**63 - 1, 2**63, 2**64 - 8, 2**64 - 1]


def op_n(op, n, **kw):
    return dict(op=op, ns=str(n), n=min(n, 10**6), **kw)


def op_x(op, x):
    return dict(op=op, xs=str(x), x=limbs(abs(x)), neg=x < 0)


def case(data, ops, win=None):
    return {"k": "cursor", "data": list(data), "ops": ops, "win": None if win is None else str(win)}


def buf(r, n=None):
    n = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 15, 16, 17, 20, 23, 24, 25, 31, 32, 40]) if n is None else n
    style = r.random()
    if style < 0.1:
        return [255] * n
    if style < 0.15:
        return [0] * n
    return [r.randrange(256) for _ in range(n)]


def rand_op(r, L, w):
    """A random operation on a window of L bytes, by weights w (kind -> weight)."""
    kind = r.choices(list(w), list(w.values()))[0]
    if kind == "read":
        n = r.choice([r.randrange(1, 64), r.randrange(1, 64), r.randrange(1, 12), 1, 8, 32, 63, 0, 64, r.choice([65, 100, 2**32, 2**63, 2**64 - 1])])
        return op_n("read", n)
    if kind == "read_as":
        t = r.choice(TYPES)
        return op_n("read_as", r.choice([r.randrange(1, 64), r.randrange(1, 20), 0, 64, 2**64 - 1]), t=t)
    if kind == "exact":
        return dict(op="exact", t=r.choice(TYPES))
    if kind in ("vbr", "svbr"):
        return op_n(kind, r.choice([r.randrange(2, 33), r.randrange(2, 33), 4, 6, 8, r.choice([0, 1, 33, 64, 2**64 - 1])]))
    if kind == "align":
        return dict(op="align")
    if kind == "rewind":
        return dict(op="rewind")
    near = r.random() < 0.85
    if kind == "seek_bit":
        x = r.randrange(0, 8 * L + 1) if near else r.choice([8 * L + 1, 8 * L + 7, 8 * L + 8, 8 * L + 64, 8 * L - 1] + BIG)
        return op_x("seek_bit", max(0, x))
    if kind == "seek_start":
        x = r.randrange(0, L + 1) if near else r.choice([L + 1, L + 8, max(0, L - 1)] + BIG)
        return op_x("seek_start", x)
    ext = [2**31, -2**31, 2**63 - 1, -2**63, -2**63 + 1, 2**62, -2**62, 2**32, -2**32]
    if kind == "seek_end":
        x = -r.randrange(0, L + 1) if near else r.choice([1, 2, 8, -L - 1, -L - 8] + ext)
        return op_x("seek_end", x)
    if kind == "seek_cur":
        x = r.randrange(-L, L + 1) // r.choice([1, 1, 2, 4]) if near else r.choice([L + 1, -L - 1] + ext)
        return op_x("seek_cur", x)
    raise ValueError(kind)


def encode_vbr(v, w, pad=0):
    """Bits (LSB first) of v as VBR-w, with `pad` extra zero chunks."""
    chunks = []
    while True:
        chunks.append(v & ((1 << (w - 1)) - 1))
        v >>= w - 1
        if not v:
            break
    chunks += [0] * pad
    bits = []
    for i, ch in enumerate(chunks):
        bits += [(ch >> k) & 1 for k in range(w - 1)] + [1 if i + 1 < len(chunks) else 0]
    return bits


def pack(bits, fill=0):
    bits = bits + [fill] * (-len(bits) % 8)
    return [sum(bits[i + k] << k for k in range(8)) for i in range(0, len(bits), 8)]


W_READ = dict(read=10, read_as=4, exact=3, align=1, seek_bit=2, seek_start=1, seek_cur=1, vbr=1, seek_end=1)
W_ALIGN = dict(align=6, read=6, seek_bit=3, seek_start=3, seek_cur=1, seek_end=1, vbr=1, exact=2)
W_SEEK = dict(seek_bit=5, seek_start=4, seek_end=4, seek_cur=5, rewind=1, read=6, align=1, exact=1, vbr=1)
W_WIN = dict(read=8, exact=3, vbr=2, svbr=1, align=2, seek_bit=3, seek_start=2, seek_end=2, seek_cur=2, read_as=1)
W_VBR = dict(vbr=8, svbr=6, read=2, seek_bit=1, align=1)


def mixed(r, weights, nops, **kw):
    data = buf(r)
    L = len(data)
    win = None
    if kw.get("window") and r.random() < 0.8:
        win = r.choice([r.randrange(0, L + 1), L, max(0, L - 1), L + 1, L + r.randrange(1, 20), r.choice(BIG)])
    W = L if win is None else min(L, win)
    ops = [rand_op(r, W, weights) for _ in range(r.randrange(1, nops))]
    return case(data, ops, win)


def c01(r, quick):
    out = [mixed(r, W_READ, 24) for _ in range(500 if quick else 8000)]
    # Every position and width (up to 2 blocks and a bit), each from a fresh history.
    for rep in range(1 if quick else 4):
        n = r.choice([17, 20, 23])
        data = [r.randrange(256) for _ in range(n)]
        step = 1 if not quick else 3
        for p in range(r.randrange(step), 8 * n, step):
            ops = []
            for w in range(1, 64, 1 if not quick else 2):
                ops += [op_x("seek_bit", p), op_n("read", min(63, w + r.randrange(2) if quick else w))]
            out.append(case(data, ops))
    # Same-size reads from start to end.
    for n in range(1, 64):
        data = [r.randrange(256) for _ in range(r.choice([16, 19, 24, 33]))]
        out.append(case(data, [op_n("read", n) for _ in range(8 * len(data) // n + 2)]))
    return out


def c02(r, quick):
    out = []
    vals = sorted({0, 1, 2, 3, 2**64 - 1, 2**63, 2**63 - 1, 2**32, 2**32 - 1, 2**31, 2**33 - 1}
                  | {2**k for k in range(0, 64)} | {2**k - 1 for k in range(1, 65)})
    for w in range(2, 33):
        pick = vals if not quick else r.sample(vals, 24) + [0, 2**64 - 1, 2**63, 1]
        bits, ops = [], []
        skew = r.randrange(0, 40)
        bits += [r.randrange(2) for _ in range(skew)]
        if skew:
            ops.append(op_n("read", skew))
        for v in pick + [r.getrandbits(r.randrange(1, 65)) for _ in range(6)]:
            base = len(encode_vbr(v, w)) // w
            room = max(0, (63 // (w - 1)) + 1 - base)
            pad = r.choice([0, 0, 0, r.randrange(0, room + 1), room])
            bits += encode_vbr(v, w, pad)
            ops.append(op_n(r.choice(["vbr", "svbr"]), w))
        out.append(case(pack(bits), ops))
        # Beyond 64 bits, in value or in length; truncations.
        for _ in range(6 if quick else 60):
            v = r.choice([2**64, 2**64 + r.getrandbits(60), r.getrandbits(r.randrange(60, 75)), 2**r.randrange(58, 76)])
            room = max(0, (63 // (w - 1)) + 1 - len(encode_vbr(v, w)) // w)
            pad = r.choice([0, 0, room, room + 1, room + r.randrange(1, 6)])
            b = encode_vbr(v, w, pad)
            if r.random() < 0.4:
                v = r.choice(vals)
                b = encode_vbr(v, w, r.choice([0, room + 1, room + 2]))
            skew = r.randrange(0, 70)
            pre = [r.randrange(2) for _ in range(skew)]
            ops = [op_x("seek_bit", skew), op_n(r.choice(["vbr", "svbr"]), w), op_n("read", 1)]
            data = pack(pre + b, r.randrange(2))
            if r.random() < 0.3:
                data = data[:r.randrange(0, len(data) + 1)]
            out.append(case(data, ops))
    for _ in range(300 if quick else 8000):
        out.append(mixed(r, W_VBR, 14))
    for w in [0, 1, 33, 34, 63, 64, 65, 2**32, 2**64 - 1]:
        out.append(case([255, 127, 0, 0, 0], [op_n("vbr", w)]))
        out.append(case([255, 127, 0, 0, 0], [op_n("svbr", w)]))
    for w in range(2, 33):  # long runs of continuation chunks
        for fill in ([0xff] * 40, [0x80] * 40, pack(([0] * (w - 1) + [1]) * 70)):
            out.append(case(fill, [op_n("vbr", w)]))
            out.append(case(fill, [op_n("svbr", w)]))
    return out


def c03(r, quick):
    out = [mixed(r, W_ALIGN, 30, window=r.random() < .4) for _ in range(700 if quick else 10000)]
    # Alignment from every position reached in several ways, in every length modulo a block.
    for n in range(0, 18 if quick else 34):
        data = [r.randrange(256) for _ in range(n)]
        ops = []
        for p in range(0, 8 * n + 1):
            how = r.randrange(3)
            if how == 0:
                ops.append(op_x("seek_bit", p))
            elif how == 1:
                ops += [op_x("seek_start", p // 8)] + ([op_n("read", p % 8)] if p % 8 else [])
            else:
                q = r.randrange(max(0, p - 63), p + 1)
                ops += [op_x("seek_bit", q)] + ([op_n("read", p - q)] if p > q else [])
            ops += [dict(op="align")]
            if r.random() < .3:
                ops.append(dict(op="align"))
            ops.append(op_n("read", r.choice([1, 8, 17, 32, 33, 63])))
            if r.random() < .3:
                ops.append(dict(op="align"))
        out.append(case(data, ops))
    return out


def c04(r, quick):
    out = [mixed(r, W_SEEK, 30, window=r.random() < .5) for _ in range(700 if quick else 10000)]
    for n in range(0, 12 if quick else 26):
        data = [r.randrange(256) for _ in range(n)]
        ops = []
        for p in range(0, 8 * n + 3):
            ops += [op_x("seek_bit", p), op_n("read", r.randrange(1, 64))]
        for p in range(0, n + 2):
            ops += [op_x("seek_start", p), op_n("read", r.randrange(1, 64))]
            ops += [op_x("seek_end", -p), op_n("read", r.randrange(1, 64))]
            for q in range(0, n + 2):
                ops += [op_x("seek_bit", min(8 * n, 8 * p + r.randrange(8))), op_x("seek_cur", q - p), op_n("read", 5)]
        out.append(case(data, ops))
    for x in BIG:
        out.append(case([1, 2, 3, 4, 5], [op_n("read", 9), op_x("seek_bit", x), op_n("read", 5),
                                          op_x("seek_start", x), op_n("read", 3)]))
    for x in [2**63 - 1, -2**63, -2**63 + 1, 2**62, -2**62, 2**31, -2**31, 1 << 61, -(1 << 61), 1, 5, -5, -6]:
        out.append(case([1, 2, 3, 4, 5], [op_n("read", 9), op_x("seek_end", x), op_n("read", 5)]))
        out.append(case([1, 2, 3, 4, 5], [op_n("read", 9), op_x("seek_cur", x), op_n("read", 5)]))
    return out


def c05(r, quick):
    out = [mixed(r, W_WIN, 30, window=True) for _ in range(800 if quick else 10000)]
    # Every window of a buffer: read it out completely, over-read, and twins of exactly that length.
    for n in ([12, 19] if quick else [9, 12, 16, 19, 27, 33]):
        data = [r.randrange(256) for _ in range(n)]
        for L in range(0, n + 3):
            ops, left = [], 8 * L
            while left > 0:
                k = min(r.randrange(1, 64), 63)
                ops.append(op_n("read", k))
                left -= k
            ops += [op_n("read", 1), op_x("seek_end", 0), op_n("read", 1)]
            if L:
                ops += [op_x("seek_end", -1), op_n("read", 8), op_n("read", 1), op_x("seek_bit", 8 * L - 1),
                        op_n("read", 2), op_x("seek_bit", 8 * L - 1), op_n("read", 1), dict(op="align"),
                        op_x("seek_bit", 8 * L), op_x("seek_bit", 8 * L + 1)]
            out.append(case(data, ops, L))
            if L <= n:
                out.append(case(data[:L], ops, None))
    for b in BIG:
        out.append(case([1, 2, 3, 4], [op_n("read", 3)], b))
    return out


def far(r, quick, prop):
    """Buffers, positions and histories beyond what small cases reach: around every power of two."""
    out = []
    for L in [255, 256, 257, 1030, 4099, 8200, 66003] + ([] if quick else [16390, 32771, 131080, 262150]):
        for _ in range((1 if L > 10000 else 2) * (1 if quick else 4)):
            data = [r.randrange(256) for _ in range(L)]
            win, W = None, L
            if prop == "C05" or r.random() < .2:
                k = r.choice([x for x in range(3, 19) if 1 << x <= L])
                win = W = min(L, max(0, (1 << k) + r.randrange(-3, 4)))
            ops = []
            spots = [8 * W] + [1 << k for k in range(6, 22) if 1 << k <= 8 * W]
            r.shuffle(spots)
            for b in spots[:16 if quick else None]:
                p = min(8 * W, max(0, b + r.choice([0, 0, -1, 1, -8, 8, r.randrange(-70, 71)])))
                how = r.randrange(4)
                if how == 0:
                    ops += [op_x("seek_bit", p)]
                elif how == 1:
                    ops += [op_x("seek_start", p // 8)] + ([op_n("read", p % 8)] if p % 8 else [])
                elif how == 2:
                    ops += [op_x("seek_end", p // 8 - W)]
                else:
                    q = r.randrange(0, W + 1)
                    ops += [op_x("seek_start", q), op_x("seek_cur", p // 8 - q)]
                tail = dict(C01=["read", "read", "read_as", "exact"], C02=["vbr", "svbr", "vbr"], C03=["align", "read", "align"],
                            C04=["read", "seek_cur", "read"], C05=["read", "exact", "vbr"])[prop]
                for kind in tail:
                    ops.append(rand_op(r, W, {kind: 1}))
                if r.random() < .3:
                    ops += [dict(op="align"), op_n("read", r.randrange(1, 64))]
            ops += [op_x("seek_bit", 8 * W + r.choice([0, 1])), op_x("seek_end", 0), op_n("read", 1)]
            out.append(case(data, ops, win))
    # Histories so long that something could wear out.
    for n in ([1500] if quick else [1500, 5000, 9000]):
        data = buf(r, 4 * n)
        out.append(case(data, [op_n("read", r.randrange(1, 22)) for _ in range(n)] + [dict(op="align"), op_n("read", 9)]))
        w = dict(C01=W_READ, C02=W_VBR, C03=W_ALIGN, C04=W_SEEK, C05=W_WIN)[prop]
        out.append(case(data, [rand_op(r, 4 * n, w) for _ in range(n)], 4 * n))
    return out


SCOPE = dict(C01=c01, C02=c02, C03=c03, C04=c04, C05=c05)
GEN = {p: lambda r, quick, p=p, f=f: f(r, quick) + far(r, quick, p) for p, f in SCOPE.items()}


def trace(case, obs):
    """Merge a case and its observation into a line of the trace file."""
    data = case["data"]
    ops = []
    for o, b in zip(case["ops"], obs.get("ops", [])):
        e = {k: v for k, v in o.items() if k not in ("ns", "xs")}
        e.update(b)
        ops.append(e)
    win = len(data) if case["win"] is None else min(int(case["win"]), 10**6)
    t = {"data": data, "win": win, "new": obs.get("new", obs["out"]), "lens": obs.get("lens", []), "ops": ops}
    return t, len(case["ops"]) if t["new"] == "ok" else len(ops)
