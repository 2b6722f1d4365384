"""C25: reading blocks of VSS snapshots."""
EXPLAIN = ("The value graphs of reading a block of a snapshot and of reading its stream are compared with a specification of the lookup: own copy, forwarder, "
           "later snapshots, bitmaps, live volume, and the overlay of changed sectors. The snapshots are built from the volume, by the constructors of the code.")

from checks.c23 import ID, PLACES, _put  # noqa: E402
from checks.common import PULL  # noqa: E402

HARNESS = '''
from __future__ import annotations
from typing import BinaryIO
from dissect.volume.vss import Catalog, Store, StoreStream, c_vss
from vfa import u, raw, newobj


def make(fh, cat, at):
    return Store(cat, [c_vss.catalog_entry_2(raw(fh, at, 128)), c_vss.catalog_entry_3(raw(fh, at + 128, 128))])


def code_block(fh: BinaryIO, cat: Catalog, later: int, block: int):
    cat.fh = fh
    s = make(fh, cat, 0)
    if later > 0:
        t = make(fh, cat, 256)
        s.next_store = t
        t.previous_store = s
        if later > 1:
            v = make(fh, cat, 512)
            t.next_store = v
            v.previous_store = t
    return s.read_block(block)


def fold(fh, at):
    """Records of the blocks of a snapshot, in a list so that they can be looked up by position."""
    blocks = {}
    reverse = {}
    for i in range(12):
        e = at + 128 + i * 32
        if raw(fh, e, 32) == bytes(32):
            break
        flags = u(fh, e + 24, 4)
        if flags & 4:
            continue
        d = {"original": u(fh, e, 8), "relative": u(fh, e + 8, 8), "store": u(fh, e + 16, 8), "bitmap": u(fh, e + 28, 4),
             "is_overlay": flags & 2 != 0, "is_forwarder": flags & 1 != 0, "overlay": None}
        block = u(fh, e, 8) // 16384
        target = u(fh, e + 8, 8) // 16384
        if not flags & 2 and target in reverse:
            d["original"] = reverse[target]["relative"]
            reverse = {k: v for k, v in reverse.items() if k != target}
        if flags & 1 and d["original"] == d["relative"]:
            continue
        if flags & 2 and block in blocks:
            old = blocks[block]
            if old["is_overlay"]:
                old["bitmap"] = old["bitmap"] | d["bitmap"]
            elif old["overlay"] is not None:
                over = old["overlay"]
                over["bitmap"] = over["bitmap"] | d["bitmap"]
            else:
                old["overlay"] = d
            continue
        if block in blocks:
            old = blocks[block]
            d["overlay"] = old if old["is_overlay"] else old["overlay"]
        blocks[block] = d
        if flags & 1:
            reverse[target] = d
    return (blocks, reverse)


def bit(fh, at, block):
    return u(fh, at + 128 + block // 8, 1) >> block % 8 & 1


def live(fh, at, block):
    buf = raw(fh, at, 16384)
    if not buf:
        raise ValueError()
    return buf


def fallback(fh, at, later, block, reverse):
    if later > 0:
        return content(fh, at + 256, later - 1, block, False)
    if block in reverse:
        return live(fh, block * 16384, block)
    before = u(fh, at + 128 + 72, 8)
    if bit(fh, u(fh, at + 128 + 48, 8), block) == 0 and (before == 0 or bit(fh, before, block) == 0):
        return bytes(16384)
    return live(fh, block * 16384, block)


def content(fh, at, later, block, top):
    blocks, reverse = fold(fh, u(fh, at + 128 + 8, 8))
    if block not in blocks:
        return fallback(fh, at, later, block, reverse)
    d = blocks[block]
    over = d if d["is_overlay"] else d["overlay"]
    if d["is_forwarder"]:
        if later > 0:
            buf = content(fh, at + 256, later - 1, d["relative"] // 16384, False)
        else:
            buf = live(fh, d["relative"], block)
        if d["is_overlay"]:
            buf = fallback(fh, at, later, block, reverse)
    elif d["is_overlay"]:
        buf = fallback(fh, at, later, block, reverse)
    else:
        buf = live(fh, d["store"], block)
    if top and over is not None:
        out = b""
        for i in range(32):
            if over["bitmap"] >> i & 1:
                out += raw(fh, over["store"] + i * 512, 512)
            else:
                out += buf[i * 512 : i * 512 + 512]
        return out
    return buf


def ref_block(fh: BinaryIO, cat: Catalog, later: int, block: int):
    return content(fh, 0, later, block, True)


def code_stream(fh: BinaryIO, store: Store, vsize: int, block: int, within: int, length: int):
    store.size = vsize
    s = StoreStream(store)
    return {"data": pull(s, block * 16384 + within, length), "size": s.size}


def ref_stream(fh: BinaryIO, store: Store, vsize: int, block: int, within: int, length: int):
    out = b""
    at = block * 16384 + within
    end = at + length
    while at < end:
        inside = at % 16384
        n = min(end - at, 16384 - inside)
        out += store.read_block(at // 16384)[inside : inside + n]
        at += n
    return {"data": out, "size": vsize}
''' + PULL


def _fh(rng, w):
    from vfa.evalr import HVal
    room = rng.choice((2, 3, 4))
    for k in range(3):
        at = k * 256
        base = 0x100000 * (k + 1)
        _put(w, at + 128 + 32, base)
        _put(w, base, ID)
        _put(w, base + 192, 0, 2)
        _put(w, base + 194, 0, 2)
        for o, d, t in ((8, 0x10000, 3), (48, 0x20000, 6), (72, 0x30000, 6)):
            if o == 72 and rng.random() < 0.4:
                _put(w, at + 128 + 72, 0)
                continue
            _put(w, at + 128 + o, base + d)
            _put(w, base + d, ID)
            _put(w, base + d + 20, t, 4)
            _put(w, base + d + 40, 0)
            if t == 6:
                _put(w, base + d + 128, rng.getrandbits(16), 2)
        e = base + 0x10000 + 128
        for i in range(rng.choice((0, 1, 2, 3, 5))):
            _put(w, e, rng.randrange(room) * 16384)
            _put(w, e + 8, rng.randrange(room) * 16384)
            _put(w, e + 16, rng.randrange(64, 1 << 20) * 16384)
            _put(w, e + 24, rng.choice((0, 0, 0, 1, 1, 1, 2, 2, 2, 2, 3, 4)), 4)
            _put(w, e + 28, rng.getrandbits(32), 4)
            e += 32
        _put(w, e, bytes(32))
    return HVal(("sym", "fh"))


def _block(rng, w):
    """The content of one block."""
    a = bytes(rng.randrange(256) for _ in range(64))
    return b"".join(bytes([i]) + a[:63] for i in range(256))


M = "dissect.volume.vss."
DOMAINS = {"@ssize": lambda rng: 1 << 60, "later": [0, 0, 1, 2], "block": [0, 0, 1, 1, 2, 3, 7, 8, 14], "within": [0, 0, 1, 512, 16383], "length": [0, 1, 512, 16384, 16385, 32768, 49152], "vsize": [0, 16384, 1 << 40, 16384 * 5]}
PAIRS = {
    "block": {"samples": 1500, "heap": True, "hobj": [M + "BlockDescriptor"], "domains": DOMAINS | {"fh": _fh}},
    "stream": {"samples": 200, "opaque": [M + "Store.read_block"], "domains": {"read_block()": _block}},
}
