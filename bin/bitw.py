"""A bitstream writer: every way the format has of writing things, legal or not."""
CHAR6 = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._"
C6 = {ord(c): i for i, c in enumerate(CHAR6)}
MAGIC = [0x42, 0x43, 0xC0, 0xDE]


class Writer:
    def __init__(self, magic=MAGIC):
        self.acc, self.n, self.out = 0, 0, bytearray(magic)
        self.stack = []          # (width, local abbrevs, block id, length position, setbid)
        self.binfo = {}
        self.want = []           # records written, as (code, fields)

    # -- bits
    def fixed(self, v, n):
        assert 0 <= v < (1 << n), (v, n)
        self.acc |= v << self.n
        self.n += n
        while self.n >= 8:
            self.out.append(self.acc & 0xFF)
            self.acc >>= 8
            self.n -= 8

    def vbr(self, v, w, pad=0, force=False):
        if not force:   # padding chunks may not begin beyond 64 bits
            pad = max(0, min(pad, 63 // (w - 1) - max(0, v.bit_length() - 1) // (w - 1)))
        while True:
            c, v = v & ((1 << (w - 1)) - 1), v >> (w - 1)
            more = v or pad > 0
            self.fixed(c | ((1 << (w - 1)) if more else 0), w)
            if not v:
                if pad <= 0:
                    break
                pad -= 1

    def align(self, fill=0):
        if self.n:
            self.fixed(fill & ((1 << (8 - self.n)) - 1), 8 - self.n)
        while len(self.out) % 4:
            self.fixed(fill & 0xFF, 8)

    def bitpos(self):
        return len(self.out) * 8 + self.n

    # -- structure
    @property
    def width(self):
        return self.stack[-1][0] if self.stack else 2

    @property
    def abbrevs(self):
        return self.stack[-1][1] if self.stack else []

    @property
    def in_blockinfo(self):
        return bool(self.stack) and self.stack[-1][2] == 0

    def id(self, i):
        self.fixed(i, self.width)

    def enter(self, bid, width, length=None, fill=0):
        self.id(1)
        self.vbr(bid, 8)
        self.vbr(width, 4)
        self.align(fill)
        at = len(self.out)
        self.fixed(length or 0, 32)
        self.stack.append([width, list(self.binfo.get(bid, [])), bid, None if length is not None else at, None])

    def end(self, fill=0):
        self.id(0)
        self.align(fill)
        if self.stack:
            at = self.stack.pop()[3]
            if at is not None:
                n = (len(self.out) - at - 4) // 4
                self.out[at:at + 4] = n.to_bytes(4, "little")

    def define(self, ops, pad=0):
        """Emit DEFINE_ABBREV for operands like ("fixed", 3), ("array", ("char6",)), ..."""
        self.id(2)
        n = sum(2 if o[0] == "array" else 1 for o in ops)
        self.vbr(n, 5, pad)
        for o in ops:
            self.operand(o)
        if self.in_blockinfo:
            self.binfo.setdefault(self.stack[-1][4], []).append(ops)
        elif self.stack:
            self.stack[-1][1].append(ops)

    def operand(self, o):
        if o[0] == "lit":
            self.fixed(1, 1)
            self.vbr(o[1], 8)
            return
        self.fixed(0, 1)
        self.fixed({"fixed": 1, "vbr": 2, "array": 3, "char6": 4, "blob": 5}[o[0]], 3)
        if o[0] in ("fixed", "vbr"):
            self.vbr(o[1], 5)
        elif o[0] == "array":
            self.operand(o[1])

    def setbid(self, bid, how=None, more=()):
        if how is None:
            self.unabbrev(1, [bid] + list(more))
        else:
            self.abbreviated(how, 1, [bid])
        self.stack[-1][4] = bid

    def unabbrev(self, code, fields, pads=None):
        p = pads or (lambda: 0)
        self.id(3)
        self.vbr(code, 6, p())
        self.vbr(len(fields), 6, p())
        for f in fields:
            self.vbr(f, 6, p())
        if not self.in_blockinfo:
            self.want.append((code, list(fields)))

    def scalar(self, o, v):
        if o[0] == "lit" or (o[0] in ("fixed", "vbr") and o[1] == 0):
            return
        if o[0] == "fixed":
            self.fixed(v, o[1])
        elif o[0] == "vbr":
            self.vbr(v, o[1])
        elif o[0] == "char6":
            self.fixed(C6[v], 6)

    def abbreviated(self, k, code, fields):
        """Write a record with the k-th abbreviation (from 0) of the current scope."""
        ops = self.abbrevs[k]
        vals = [code] + list(fields)
        assert matches(ops, vals), (ops, vals)
        self.id(4 + k)
        for i, o in enumerate(ops):
            if o[0] == "array":
                self.vbr(len(vals) - i, 6)
                for v in vals[i:]:
                    self.scalar(o[1], v)
            elif o[0] == "blob":
                self.vbr(len(vals) - i, 6)
                self.align()
                for v in vals[i:]:
                    self.fixed(v, 8)
                self.align()
            else:
                self.scalar(o, vals[i])
        if not self.in_blockinfo:
            self.want.append((code, list(fields)))

    def bytes(self):
        while self.stack:
            self.end()
        return bytes(self.out)

    def raw(self):
        """The bytes so far, padded to a word."""
        self.align()
        return bytes(self.out)


def scalar_ok(o, v):
    if o[0] == "lit":
        return v == o[1]
    if o[0] == "fixed":
        return v < (1 << o[1])
    if o[0] == "vbr":
        return v < (1 << 64) and (o[1] >= 2 or v == 0)
    if o[0] == "char6":
        return v in C6
    return False


def matches(ops, vals):
    """Can an abbreviation write these values?"""
    for i, o in enumerate(ops):
        if o[0] == "array":
            return (i > 0 or vals) and all(scalar_ok(o[1], v) for v in vals[i:])
        if o[0] == "blob":
            return (i > 0 or vals) and all(v < 256 for v in vals[i:])
        if i >= len(vals) or not scalar_ok(o, vals[i]):
            return False
    return len(ops) == len(vals)


def wrap(stream, offset=20, pad=b"", version=0, cpu=7, size=None, filler=0):
    hdr = b"".join(x.to_bytes(4, "little") for x in
                   (0x0B17C0DE, version, offset, len(stream) if size is None else size, cpu))
    return hdr + bytes([filler]) * max(0, offset - 20) + stream + pad
