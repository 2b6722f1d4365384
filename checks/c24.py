"""C24: folding of VSS block descriptors."""
EXPLAIN = ("The value graph of adding a sequence of descriptors to a block map, with descriptors and maps as objects of an explicit heap so that "
           "sharing between them is exact, is compared with a specification of the folding that keeps plain records.")

HARNESS = '''
from __future__ import annotations
from typing import BinaryIO
from dissect.volume.vss import BlockDescriptor, BlockMap
from vfa import u, raw, deep


def code_descriptor(fh: BinaryIO):
    d = BlockDescriptor(raw(fh, 0, 32))
    return {"original": d.original_offset, "relative": d.relative_offset, "store": d.store_offset, "bitmap": d.bitmap, "used": d.is_used,
            "overlay": d.is_overlay, "forwarder": d.is_forwarder, "no overlay": d.overlay}


def ref_descriptor(fh: BinaryIO):
    flags = u(fh, 24, 4)
    return {"original": u(fh, 0, 8), "relative": u(fh, 8, 8), "store": u(fh, 16, 8), "bitmap": u(fh, 28, 4), "used": flags & 4 == 0,
            "overlay": flags & 2 != 0, "forwarder": flags & 1 != 0, "no overlay": None}


def code_equal(fh: BinaryIO):
    a = BlockDescriptor(raw(fh, 0, 32))
    b = BlockDescriptor(raw(fh, 32, 32))
    return {"equal": a == b, "differ": a != b}


def ref_equal(fh: BinaryIO):
    same = u(fh, 0, 8) == u(fh, 32, 8) and u(fh, 8, 8) == u(fh, 40, 8) and u(fh, 16, 8) == u(fh, 48, 8)
    same = same and u(fh, 24, 4) == u(fh, 56, 4) and u(fh, 28, 4) == u(fh, 60, 4)
    return {"equal": same, "differ": not same}


def code_fold(fh: BinaryIO, n: int):
    m = BlockMap()
    for i in range(n):
        m.add(BlockDescriptor(raw(fh, i * 32, 32)))
    return {
        "blocks": deep({k: (d.relative_offset, d.store_offset, d.bitmap, d.is_overlay, d.is_forwarder) for k, d in m.map.items()}),
        "origins": deep({k: d.original_offset for k, d in m.map.items()}),
        "overlays": deep({k: (d.overlay.store_offset, d.overlay.bitmap) for k, d in m.map.items() if d.overlay}),
        "reverse": deep({k: (d.original_offset, d.relative_offset, d.store_offset) for k, d in m.reverse.items()}),
    }


def ref_fold(fh: BinaryIO, n: int):
    blocks = {}
    reverse = {}
    for i in range(n):
        at = i * 32
        flags = u(fh, at + 24, 4)
        if flags & 4:
            continue
        d = {"original": u(fh, at, 8), "relative": u(fh, at + 8, 8), "store": u(fh, at + 16, 8), "bitmap": u(fh, at + 28, 4),
             "is_overlay": flags & 2 != 0, "is_forwarder": flags & 1 != 0, "overlay": None}
        block = u(fh, at, 8) // 16384
        target = u(fh, at + 8, 8) // 16384
        if not flags & 2 and target in reverse:
            d["original"] = reverse[target]["relative"]
            reverse = {k: v for k, v in reverse.items() if k != target}
        if flags & 1 and d["original"] == d["relative"]:
            continue
        if flags & 2 and block in blocks:
            old = blocks[block]
            if old["is_overlay"]:
                old["bitmap"] = old["bitmap"] | d["bitmap"]
            elif old["overlay"] is not None:
                over = old["overlay"]
                over["bitmap"] = over["bitmap"] | d["bitmap"]
            else:
                old["overlay"] = d
            continue
        if block in blocks:
            old = blocks[block]
            d["overlay"] = old if old["is_overlay"] else old["overlay"]
        blocks[block] = d
        if flags & 1:
            reverse[target] = d
    return {
        "blocks": deep({k: (d["relative"], d["store"], d["bitmap"], d["is_overlay"], d["is_forwarder"]) for k, d in blocks.items()}),
        "origins": deep({k: d["original"] for k, d in blocks.items()}),
        "overlays": deep({k: (d["overlay"]["store"], d["overlay"]["bitmap"]) for k, d in blocks.items() if d["overlay"] is not None}),
        "reverse": deep({k: (d["original"], d["relative"], d["store"]) for k, d in reverse.items()}),
    }
'''


def _fh(rng, w):
    from vfa.evalr import HVal
    h = HVal(("sym", "fh"))

    def put(at, v, n=8):
        for i, x in enumerate(v.to_bytes(n, "little")):
            w.mem[(h.key, at + i)] = x

    room = rng.choice((1, 2, 3, 3, 5))
    for i in range(8):
        put(i * 32, rng.randrange(room) * 16384 + rng.choice((0, 0, 0, 5)))
        put(i * 32 + 8, rng.randrange(room) * 16384 + rng.choice((0, 0, 0, 5)))
        put(i * 32 + 16, rng.randrange(1, 1 << 20) * 16384)
        put(i * 32 + 24, rng.choice((0, 0, 0, 1, 1, 1, 2, 2, 2, 3, 4, 5, 6)) | rng.choice((0, 0, 0, 8)), 4)
        put(i * 32 + 28, rng.getrandbits(32), 4)
    return h


DOMAINS = {"fh": _fh, "n": [1, 2, 3, 4, 5, 6, 7, 8], "@ssize": lambda rng: 1 << 40}
def _twins(rng, w):
    """Two descriptors that differ in at most one field most of the time."""
    from vfa.evalr import HVal
    fields = ((0, 8), (8, 8), (16, 8), (24, 4), (28, 4))
    other = {rng.choice(fields)} if rng.random() < 0.7 else set()
    for at, n in fields:
        v = rng.getrandbits(3) if at == 24 else rng.getrandbits(20)
        for k in (0, 32):
            x = v if k == 0 or (at, n) not in other else v + rng.choice((1, 2, 4))
            for i, y in enumerate(x.to_bytes(n, "little")):
                w.mem[(("sym", "fh"), k + at + i)] = y
    return HVal(("sym", "fh"))


PAIRS = {"equal": {"samples": 200, "domains": {"fh": _twins}}, "descriptor": {"samples": 200}, "fold": {"samples": 2000, "heap": True, "hobj": ["dissect.volume.vss.BlockDescriptor"]}}
