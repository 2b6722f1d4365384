"""C14: DDF metadata."""
EXPLAIN = ("The value graph of locating and decoding the DDF sections of a member is compared with the graph of a specification "
           "that names every section and field by its byte offset.")

HARNESS = '''
from __future__ import annotations
from typing import BinaryIO
from dissect.util import ts
from dissect.volume.ddf.ddf import DDFPhysicalDisk
from dissect.volume.exceptions import DDFError
from vfa import u, raw, ssize, runs


def code_member(fh: BinaryIO, sector_size: int):
    d = DDFPhysicalDisk(fh, sector_size)
    return {
        "set": d.anchor.DDF_Header_GUID,
        "controller": (d.controller_data.guid, d.controller_data.type),
        "pdrs": [(p.guid, p.reference, p.type, p.state, p.size, p.path_information, p.block_size) for p in d.physical_disk_records],
        "vdrs": [(v.guid, v.number, v.type, v.state, v.init_state) for v in d.virtual_disk_records],
        "vdr_names": [v.name for v in d.virtual_disk_records],
        "vdcrs": [(c.guid, c.sequence_number, c.primary_element_count, c.strip_size, c.primary_raid_level, c.raid_level_qualifier,
                   c.secondary_element_count, c.secondary_element_seq, c.secondary_raid_level, c.size, c.block_size,
                   c.rotate_parity_count) for c in d.virtual_disk_configuration_records],
        "times": [(c.timestamp, c.guid_timestamp) for c in d.virtual_disk_configuration_records],
        "members": [[(c.physical_disk_sequence[i], c.starting_block[i]) for i in range(len(c.physical_disk_sequence))]
                    for c in d.virtual_disk_configuration_records],
        "guid": d.guid, "reference": d.reference, "type": d.type, "state": d.state, "path": d.path_information,
        "block_size": d.block_size, "sector_size": d.sector_size, "fh": d.fh, "offset": d.offset, "size": d.size,
        "window": runs(d.open()),
        "headers": (d.primary_header.Sequence_Number, d.primary_header_offset, d.secondary_header_offset, d.active_header_offset),
        "secondary": d.secondary_header.Sequence_Number if d.secondary_header is not None else None,
    }


def be(fh, at, n):
    return u(fh, at, n, ">")


def section(fh, at, signature):
    if be(fh, at, 4) != signature:
        raise DDFError()
    return at


def name(fh, at):
    text = raw(fh, at + 48, 16).split(b"\\x00")[0]
    return text.decode("utf-8") if be(fh, at + 28, 4) // 4 % 2 == 1 else text.decode("ascii")


def ref_member(fh: BinaryIO, sector_size: int):
    a = ssize(fh) - sector_size
    if be(fh, a, 4) != 0xDE11DE11:
        raise DDFError()
    first = be(fh, a + 96, 8) * sector_size
    second = None
    second_no = None
    if be(fh, a + 104, 8) != 2**64 - 1:
        second = be(fh, a + 104, 8) * sector_size
        second_no = be(fh, second + 40, 4)
    ctl = section(fh, first + be(fh, a + 192, 4) * sector_size, 0xAD111111)
    pdr = section(fh, first + be(fh, a + 200, 4) * sector_size, 0x22222222)
    vdr = section(fh, first + be(fh, a + 208, 4) * sector_size, 0xDDDDDDDD)
    cfg = first + be(fh, a + 216, 4) * sector_size
    record = be(fh, a + 134, 2)
    slots = be(fh, a + 136, 2)
    vdcrs = []
    times = []
    members = []
    for i in range(be(fh, a + 220, 4) // record):
        p = cfg + i * record * sector_size
        if be(fh, p, 4) != 0xEEEEEEEE:
            continue
        n = be(fh, p + 64, 2)
        vdcrs.append((raw(fh, p + 8, 24), be(fh, p + 36, 4), n, be(fh, p + 66, 1), be(fh, p + 67, 1), be(fh, p + 68, 1),
                      be(fh, p + 69, 1), be(fh, p + 70, 1), be(fh, p + 71, 1), be(fh, p + 80, 8), be(fh, p + 88, 2), be(fh, p + 90, 1)))
        epoch = 315532800
        times.append((ts.from_unix(epoch + be(fh, p + 32, 4)), ts.from_unix(epoch + u(fh, p + 24, 4))))
        members.append([(be(fh, p + 512 + 4 * j, 4), be(fh, p + 512 + 4 * slots + 8 * j, 8)) for j in range(min(n, slots))])
    pdd = section(fh, first + be(fh, a + 224, 4) * sector_size, 0x33333333)
    me = be(fh, pdd + 32, 4)
    mine = None
    pdrs = []
    for i in range(be(fh, pdr + 8, 2)):
        p = pdr + 64 + 64 * i
        pdrs.append((raw(fh, p, 24), be(fh, p + 24, 4), be(fh, p + 28, 2), be(fh, p + 30, 2), be(fh, p + 32, 8), raw(fh, p + 40, 18),
                     be(fh, p + 58, 2)))
        if mine is None and be(fh, p + 24, 4) == me:
            mine = p
    if mine is None:
        raise DDFError()
    vdrs = [(raw(fh, vdr + 64 + 64 * i, 24), be(fh, vdr + 88 + 64 * i, 2), be(fh, vdr + 92 + 64 * i, 4), be(fh, vdr + 96 + 64 * i, 1),
             be(fh, vdr + 97 + 64 * i, 1)) for i in range(be(fh, vdr + 8, 2))]
    block = be(fh, mine + 58, 2)
    if block == 65535:
        block = sector_size
    size = be(fh, mine + 32, 8) * block
    return {
        "set": raw(fh, a + 8, 24),
        "controller": (raw(fh, ctl + 8, 24), raw(fh, ctl + 32, 8)),
        "pdrs": pdrs, "vdrs": vdrs,
        "vdr_names": [name(fh, vdr + 64 + 64 * i) for i in range(be(fh, vdr + 8, 2))],
        "vdcrs": vdcrs, "times": times, "members": members,
        "guid": raw(fh, pdd + 8, 24), "reference": me, "type": be(fh, mine + 28, 2), "state": be(fh, mine + 30, 2),
        "path": raw(fh, mine + 40, 18), "block_size": block, "sector_size": sector_size, "fh": fh, "offset": 0, "size": size,
        "window": runs([(0, size, fh, 0)]),
        "headers": (be(fh, first + 40, 4), first, second, first),
        "secondary": second_no,
    }
'''


SIG = {192: 0xAD111111, 200: 0x22222222, 208: 0xDDDDDDDD, 224: 0x33333333}


NAMES = [b"", b"vd0", b"Virtual Disk 0", b"sixteen bytes ok", b"a\0b", b" x ", "sch\u00f6n".encode(), "\u4e2d\u6587\U0001f4be".encode(), "\u00e9\0z".encode()]


def _fh(rng, w):
    """Members whose sections do not overlap (most worlds); everything else is left open."""
    h = w.of_type(w.cur_ty, ("sym", "fh"))
    if rng.random() < 0.1:
        return h
    ss = w.sym("sector_size", ("int",))
    a = w.ssize(h) - ss

    def put(at, n, v):
        for i, x in enumerate(v.to_bytes(n, "big")):
            w.mem[(h.key, at + i)] = x

    pdr = mine = None
    if rng.random() < 0.95:
        put(a, 4, 0xDE11DE11)
    first = rng.choice((0, 7, 40, 300))
    put(a + 96, 8, first)
    put(a + 104, 8, rng.choice((2 ** 64 - 1, 2000, 3000)))
    at = 1
    for off in rng.sample((192, 200, 208, 216, 224), 5):
        at += rng.choice((1, 2, 9))
        put(a + off, 4, at)
        p = (first + at) * ss
        if off in SIG and rng.random() < 0.94:
            put(p, 4, SIG[off])
        if off in (200, 208) and rng.random() < 0.9:
            n = rng.choice((0, 1, 2, 3, 4)) if off == 208 else rng.choice((1, 2, 3, 4))
            n = n if rng.random() < 0.97 else rng.choice((17, 65, 90, 130))
            put(p + 8, 2, n)
            for i in range(n if off == 208 and rng.random() < 0.9 else 0):
                text = rng.choice(NAMES)
                put(p + 64 + 64 * i + 28, 4, rng.choice((0, 1, 2, 3, 4, 4, 5, 6, 7, 0x104, 1 << 31)) if text.isascii() else rng.choice((4, 5, 6, 7, 0x104, 4, 6)))
                put(p + 64 + 64 * i + 48, 16, int.from_bytes(text.ljust(16, b"\0"), "big"))
        if off == 200:
            pdr = p
        if off == 224 and rng.random() < 0.8:
            mine = p
        at += 60
    record = rng.choice((1, 2, 2, 3))
    put(a + 134, 2, record)
    put(a + 136, 2, rng.choice((0, 1, 2, 3, 4, 6)))
    put(a + 220, 4, (rng.randrange(0, 5) if rng.random() < 0.97 else rng.choice((20, 70))) * record + rng.choice((0, 0, 1)))
    if mine is not None:
        v = rng.randrange(1 << 32)
        put(mine + 32, 4, v)
        put(pdr + 64 + 64 * rng.choice((0, 0, 1, 2)) + 24, 4, v)
    return h


DOMAINS = {"fh": _fh, "sector_size": [512, 512, 4096], "@ssize": lambda rng: rng.choice((1 << 25, 1 << 26, (1 << 25) + 512))}
PAIRS = {"member": {"samples": 1500, "budget": 90, "maxit": 300}}
