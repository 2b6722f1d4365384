"""Domains shared by the RAID checks."""


# what a read of a stream amounts to: whole units of the stream's alignment are fetched and cut
PULL = '''

def pull(s, offset, length):
    if length <= 0:
        return b""
    unit = s.align
    low = offset // unit * unit
    high = (offset + length + unit - 1) // unit * unit
    return s._read(low, high - low)[offset - low : offset - low + length]
'''


def stripe(rng, w):
    """Stripe size of this world."""
    return w.keyed("stripe").choice((4, 8, 8, 16, 512, 65536))


def units(lo, hi, jitter=True):
    """Around lo..hi stripes."""
    def f(rng, w):
        s = stripe(None, w)
        v = rng.randint(lo, hi) * s
        if jitter and rng.random() < 0.6:
            v += rng.choice((1, s // 2, s - 1, rng.randrange(s)))
        return v
    return f


def num_disks(rng, w):
    return w.keyed("nd").choice((1, 2, 2, 3, 3, 4, 4, 5, 6, 8))


def disk_map(missing):
    """Members by role, in any order, some missing."""
    def f(rng, w):
        n = num_disks(None, w)
        roles = list(range(n))
        rng.shuffle(roles)
        r = rng.random()
        if r < missing:
            roles = roles[: max(len(roles) - rng.choice((1, 1, 2, 3)), 1)]
        elif r < missing + 0.05:
            roles.append(n)
        ety = w.cur_ty[2][1][1]
        out = {}
        for x in roles:
            out[x] = (rng.choice((0, 0, 4, 1024, 7)), w.of_type(ety, ("disk", x)))
        return out
    return f


RAID = {"num_disks": num_disks, "disk_map": disk_map(0.15), "stripe_size": stripe, "offset": units(0, 24), "length": units(0, 5),
        ".offset": [0, 0, 512, 2048, 12], ".size": units(1, 6)}


class Img:
    """Writes structures into the bytes a world gives to a stream."""

    def __init__(self, w, name="fh", endian="little"):
        from vfa.evalr import HVal
        self.w, self.h, self.endian = w, HVal(("sym", name)), endian

    def put(self, at, value, n, endian=None):
        self.blob(at, (value % (1 << 8 * n)).to_bytes(n, endian or self.endian))

    def blob(self, at, data):
        mem, key = self.w.mem, self.h.key
        for i, x in enumerate(data):
            mem[(key, at + i)] = x

    def zero(self, at, n):
        self.blob(at, bytes(n))

    def fill(self, at, n, rng):
        self.blob(at, rng.randbytes(n))


def num(rng, bits=32):
    """A number of up to so many bits, of any magnitude."""
    r = rng.random()
    if r < 0.15:
        return 0
    return rng.getrandbits(rng.randint(1, bits))


def boot(img, rng, at, entries, serial=None):
    """A boot sector with up to four (type, first, count, flags) entries."""
    img.zero(at, 440)
    img.put(at + 440, num(rng) if serial is None else serial, 4)
    img.put(at + 510, 0xAA55, 2)
    for i in range(4):
        kind, first, count, flags = entries[i] if i < len(entries) else (0, 0, 0, 0)
        e = at + 446 + 16 * i
        img.put(e, flags, 1)
        img.fill(e + 1, 3, rng)
        img.put(e + 4, kind, 1)
        img.fill(e + 5, 3, rng)
        img.put(e + 8, first, 4)
        img.put(e + 12, count, 4)
