"""C29: refusal of wrong signatures."""
EXPLAIN = ("For each format the value graph of the outcome of opening it, accepted or refused with which error, is compared with a specification that "
           "looks at the signature fields alone; the rest of the content is open, apart from values that are refused for another reason.")

HARNESS = '''
from __future__ import annotations
from typing import BinaryIO
from dissect.volume.ddf.ddf import DDFPhysicalDisk
from dissect.volume.disk.schemes.apm import APM
from dissect.volume.disk.schemes.bsd import BSD
from dissect.volume.disk.schemes.gpt import GPT
from dissect.volume.disk.schemes.mbr import MBR
from dissect.volume.dm.thin import Metadata
from dissect.volume.exceptions import DDFError, DiskError, DMError, Error, LVM2Error
from dissect.volume.lvm.physical import LVM2Device
from dissect.volume.md.md import MDPhysicalDisk
from dissect.volume.vinum.vinum import VinumPhysicalDisk
from dissect.volume.vss import VSS, BlockList, Catalog, RangeList, Store, StoreBitmap, c_vss
from vfa import u, raw, ssize

ID = bytes.fromhex("6b87083876c1484eb7ae04046e6cc752")


def code_mbr(fh: BinaryIO):
    return MBR(fh) is not None


def ref_mbr(fh: BinaryIO):
    if u(fh, 510, 2) != 0xAA55:
        raise DiskError()
    return True


def code_gpt(fh: BinaryIO):
    return GPT(fh) is not None


def ref_gpt(fh: BinaryIO):
    if u(fh, 510, 2) != 0xAA55:
        raise DiskError()
    if u(fh, 446 + 4, 1) != 0xEE:
        raise DiskError()
    if raw(fh, u(fh, 446 + 8, 4) * 512, 8) != b"EFI PART":
        raise DiskError()
    return True


def code_apm(fh: BinaryIO):
    return APM(fh) is not None


def ref_apm(fh: BinaryIO):
    at = 0
    if raw(fh, 0, 2) == b"ER":
        at = u(fh, 2, 2, ">")
    if raw(fh, at, 2) != b"PM":
        raise DiskError()
    return True


def code_bsd(fh: BinaryIO):
    return BSD(fh) is not None


def ref_bsd(fh: BinaryIO):
    magic = u(fh, 512, 4)
    if magic == 0xC4464C59:
        return True
    if magic != 0x82564557:
        raise DiskError()
    if u(fh, 512 + 132, 4) != 0x82564557:
        raise DiskError()
    return True


def code_lvm(fh: BinaryIO):
    return LVM2Device(fh).label_offset


def ref_lvm(fh: BinaryIO):
    for i in range(4):
        if raw(fh, i * 512, 8) == b"LABELONE":
            return i * 512
    raise LVM2Error()


def code_md(fh: BinaryIO):
    return MDPhysicalDisk(fh) is not None


def ref_md(fh: BinaryIO):
    n = ssize(fh) // 512
    for at in (n // 128 * 128 - 128, (n - 16) // 8 * 8, 0, 8):
        if at >= 0 and u(fh, at * 512, 4) == 0xA92B4EFC:
            return True
    raise ValueError()


def code_ddf(fh: BinaryIO):
    return DDFPhysicalDisk(fh) is not None


def ref_ddf(fh: BinaryIO):
    a = ssize(fh) - 512
    if u(fh, a, 4, ">") != 0xDE11DE11:
        raise DDFError()
    first = u(fh, a + 96, 8, ">") * 512
    for field, signature in ((192, 0xAD111111), (200, 0x22222222), (208, 0xDDDDDDDD), (224, 0x33333333)):
        if u(fh, first + u(fh, a + field, 4, ">") * 512, 4, ">") != signature:
            raise DDFError()
    return True


def code_records(fh: BinaryIO):
    return len(DDFPhysicalDisk(fh).virtual_disk_configuration_records)


def ref_records(fh: BinaryIO):
    a = ssize(fh) - 512
    ref_ddf(fh)
    at = u(fh, a + 96, 8, ">") * 512 + u(fh, a + 216, 4, ">") * 512
    n = 0
    for i in range(u(fh, a + 220, 4, ">")):
        if u(fh, at + i * 512, 4, ">") == 0xEEEEEEEE:
            n += 1
    return n


def code_vinum(fh: BinaryIO):
    return VinumPhysicalDisk(fh).active


def ref_vinum(fh: BinaryIO):
    magic = u(fh, 4096, 8, ">")
    if magic in (0x494E2056494E4F00, 0x56494E554D2D3100):
        return True
    if magic in (0x4E4F2056494E4F00, 0x56494E554D2D2D00):
        return False
    raise ValueError()


def code_thin(fh: BinaryIO):
    return Metadata(fh) is not None


def ref_thin(fh: BinaryIO):
    if u(fh, 32, 8) != 27022010:
        raise DMError()
    return True


def code_volume(fh: BinaryIO):
    return VSS(fh) is not None


def ref_volume(fh: BinaryIO):
    if raw(fh, 0x1E00, 16) != ID:
        raise Error()
    chain(fh, u(fh, 0x1E00 + 48, 8))
    return True


def code_store(fh: BinaryIO, cat: Catalog):
    cat.fh = fh
    return Store(cat, [c_vss.catalog_entry_2(raw(fh, 0, 128)), c_vss.catalog_entry_3(raw(fh, 128, 128))]) is not None


def ref_store(fh: BinaryIO, cat: Catalog):
    if raw(fh, u(fh, 128 + 32, 8), 16) != ID:
        raise Error()
    return True


def chain(fh, offset):
    while offset != 0:
        if raw(fh, offset, 16) != ID:
            raise Error()
        offset = u(fh, offset + 40, 8)


def code_blocks(fh: BinaryIO, store: Store, offset: int):
    store.fh = fh
    return BlockList(store, offset) is not None


def ref_blocks(fh: BinaryIO, store: Store, offset: int):
    chain(fh, offset)
    if u(fh, offset + 20, 4) != 3:
        raise Error()
    return True


def code_ranges(fh: BinaryIO, store: Store, offset: int):
    store.fh = fh
    return RangeList(store, offset) is not None


def ref_ranges(fh: BinaryIO, store: Store, offset: int):
    chain(fh, offset)
    if u(fh, offset + 20, 4) != 5:
        raise Error()
    return True


def code_bitmap(fh: BinaryIO, store: Store, offset: int):
    store.fh = fh
    return StoreBitmap(store, offset) is not None


def ref_bitmap(fh: BinaryIO, store: Store, offset: int):
    chain(fh, offset)
    if u(fh, offset + 20, 4) != 6:
        raise Error()
    return True
'''

ID = bytes.fromhex("6b87083876c1484eb7ae04046e6cc752")


class Image:
    """Writes fields of a stream; signatures are right, almost right, or something else."""

    def __init__(self, rng, w):
        from vfa.evalr import HVal
        self.rng, self.w, self.h = rng, w, HVal(("sym", "fh"))

    def put(self, at, v, n=8, order="little"):
        for i, x in enumerate(v.to_bytes(n, order) if isinstance(v, int) else v):
            self.w.mem[(self.h.key, at + i)] = x

    def sig(self, at, v, n=8, order="little", p=0.75):
        rng = self.rng
        b = v.to_bytes(n, order) if isinstance(v, int) else v
        if rng.random() >= p:
            i = rng.randrange(len(b))
            b = rng.choice((bytes(len(b)), b[::-1], b[:i] + bytes([b[i] ^ 1 << rng.randrange(8)]) + b[i + 1:], b[:-1] + bytes([b[-1] ^ 0xFF]),
                            bytes([b[0] ^ 0xFF]) + b[1:], b.swapcase(), bytes(rng.randrange(256) for _ in b)))
        self.put(at, b)
        return b


def fmt(f):
    def make(rng, w):
        im = Image(rng, w)
        f(im, rng)
        return im.h
    return make


def mbr(im, rng):
    im.put(0, bytes(200))
    for i in range(4):
        im.put(446 + 16 * i + 4, rng.choice((0, 0, 7, 0x83)), 1)
    im.sig(510, 0xAA55, 2)


def gpt(im, rng):
    mbr(im, rng)
    im.sig(510, 0xAA55, 2, p=0.95)
    if rng.random() < 0.95:
        im.put(446 + 4, 0xEE, 1)
    at = rng.choice((1, 1, 2, 8))
    im.put(446 + 8, at, 4)
    im.sig(at * 512, b"EFI PART")
    im.put(at * 512 + 80, 0, 4)


def apm(im, rng):
    at = 0
    if rng.random() < 0.5:
        im.sig(0, b"ER", p=0.9)
        at = 512
        im.put(2, at, 2, "big")
    im.sig(at, b"PM")
    for x in (0, 512):
        im.put(x + 4, 0, 4)


def bsd(im, rng):
    if rng.random() < 0.4:
        im.sig(512, 0xC4464C59, 4)
    else:
        im.sig(512, 0x82564557, 4, p=0.85)
        im.sig(512 + 132, 0x82564557, 4, p=0.85)
    im.put(512 + 138, 0, 2)
    im.put(512 + 12, 0, 4)


def lvm(im, rng):
    where = rng.sample(range(4), rng.choice((1, 1, 2)))
    for i in range(4):
        im.sig(i * 512, b"LABELONE", p=0.7 if i in where else 0)
        im.put(i * 512 + 20, 32, 4)
        im.put(i * 512 + 32, b"a" * 32)
        im.put(i * 512 + 32 + 40, b"\1" * 16 + bytes(32))


def md(im, rng):
    n = im.w.ssize(im.h) // 512
    places = (n // 128 * 128 - 128, (n - 16) // 8 * 8, 0, 8)
    where = rng.sample(places, rng.choice((1, 1, 2)))
    for at in places:
        im.sig(at * 512, 0xA92B4EFC, 4, p=0.7 if at in where else 0)
        im.put(at * 512 + 4, rng.choice((0, 1)), 4)
        im.put(at * 512 + 160, 0, 4)
        im.put(at * 512 + 220, 1, 4)
        im.put(at * 512 + 3968, 0, 4)


def ddf(im, rng, records=False):
    a = im.w.ssize(im.h) - 512
    im.sig(a, 0xDE11DE11, 4, "big", p=0.93)
    im.put(a + 96, rng.choice((0, 5)), 8, "big")
    first = 5 if im.w.mem[(im.h.key, a + 103)] else 0
    im.put(a + 104, 2 ** 64 - 1, 8, "big")
    im.put(a + 134, 1, 2, "big")
    im.put(a + 136, 1, 2, "big")
    im.put(a + 220, 3 if records else 0, 4, "big")
    at = 1
    for off, s in ((192, 0xAD111111), (200, 0x22222222), (208, 0xDDDDDDDD), (224, 0x33333333)):
        at += rng.choice((1, 2, 9))
        im.put(a + off, at, 4, "big")
        p = (first + at) * 512
        im.sig(p, s, 4, "big", p=0.9)
        if off in (200, 208):
            im.put(p + 8, 1 if off == 200 else 0, 2, "big")
        if off == 200:
            im.put(p + 64 + 24, 77, 4, "big")
        if off == 224:
            im.put(p + 32, 77, 4, "big")
        at += 3
    im.put(a + 216, 60, 4, "big")
    for i in range(3):
        im.sig((first + 60 + i) * 512, 0xEEEEEEEE, 4, "big", p=0.6)


def vinum(im, rng):
    im.sig(4096, rng.choice((0x494E2056494E4F00, 0x56494E554D2D3100, 0x4E4F2056494E4F00, 0x56494E554D2D2D00)), 8, "big")


def thin(im, rng):
    im.sig(32, 27022010)


def volume(im, rng):
    im.sig(0x1E00, ID, p=0.85)
    im.put(0x1E00 + 48, 0x8000)
    vchain(im, rng, 2)


def store(im, rng):
    im.put(128 + 32, 0x8000)
    im.sig(0x8000, ID)
    im.put(0x8000 + 192, 0, 4)


def vchain(im, rng, record):
    n = rng.choice((1, 2, 3))
    places = (0x8000, 0x20000, 0x14000)[:n]
    for i, at in enumerate(places):
        im.sig(at, ID, p=1 - 0.3 / n)
        im.put(at + 20, record if i or rng.random() < 0.85 else rng.randrange(8), 4)
        im.put(at + 40, places[i + 1] if i + 1 < n else 0)
        im.put(at + 128, bytes(32))


M = "dissect.volume."
DOMAINS = {"offset": [0x8000], "@pos0": lambda rng: 0, "@ssize": lambda rng: 1 << 40}
MDSIZE = lambda rng: rng.choice((512 * 128 * rng.randint(2, 40) + rng.randrange(65536), 65536 * rng.randint(2, 9), 512 * 1000 + rng.randrange(5000)))


def chain_of(record):
    return fmt(lambda im, rng: vchain(im, rng, record))


PAIRS = {
    "mbr": {"domains": DOMAINS | {"fh": fmt(mbr)}},
    "gpt": {"samples": 400, "domains": DOMAINS | {"fh": fmt(gpt)}},
    "apm": {"domains": DOMAINS | {"fh": fmt(apm)}},
    "bsd": {"samples": 400, "domains": DOMAINS | {"fh": fmt(bsd)}},
    "lvm": {"samples": 300, "domains": DOMAINS | {"fh": fmt(lvm)}},
    "md": {"samples": 400, "domains": DOMAINS | {"fh": fmt(md), "@ssize": MDSIZE}},
    "ddf": {"samples": 500, "domains": DOMAINS | {"fh": fmt(ddf), "@ssize": lambda rng: 1 << 25}},
    "records": {"samples": 300, "domains": DOMAINS | {"fh": fmt(lambda im, rng: ddf(im, rng, True)), "@ssize": lambda rng: 1 << 25}},
    "vinum": {"samples": 400, "domains": DOMAINS | {"fh": fmt(vinum)}},
    "thin": {"domains": DOMAINS | {"fh": fmt(thin)}},
    "volume": {"samples": 300, "cut": [M + "vss.Store"], "domains": DOMAINS | {"fh": fmt(volume)}},
    "store": {"domains": DOMAINS | {"fh": fmt(store)}},
    "blocks": {"samples": 300, "heap": True, "hobj": [M + "vss.BlockDescriptor"], "domains": DOMAINS | {"fh": chain_of(3)}},
    "ranges": {"samples": 300, "domains": DOMAINS | {"fh": chain_of(5)}},
    "bitmap": {"samples": 300, "domains": DOMAINS | {"fh": chain_of(6)}},
}
