"""C13: MD assembly."""
import uuid

EXPLAIN = ("The value graph of assembling MD sets from members with arbitrary superblock values is compared with a specification "
           "of grouping, reference member, member map and size.")

HARNESS = '''
from __future__ import annotations
from typing import BinaryIO
from dissect.volume.md.md import MD, MDConfiguration, MDPhysicalDisk, MDVirtualDisk
from vfa import u, raw


def view(c):
    v = c.virtual_disks[0]
    return (len(c.virtual_disks), [d for d in c.physical_disks], v.name, v.uuid, v.size, v.level, v.layout, v.stripe_size, v.num_disks,
            [(k, x[0], x[1]) for k, x in v.disk_map.items()])


def code_md(disks: list[MDPhysicalDisk]):
    return [view(c) for c in MD(disks).configurations]


def assemble(g):
    members = sorted([d for d in g if d.raid_disk is not None], key=lambda d: d.raid_disk)
    best = None
    for d in members + [d for d in g if d.raid_disk is None]:
        if best is None or d.events > best.events:
            best = d
    if best.level == -1:
        size = 0
        for d in members:
            size += d.size
    elif best.level == 0:
        size = 0
        for d in members:
            size += d.size // best.chunk_size * best.chunk_size
    elif best.level in (1, 4, 5, 6, 10):
        size = best.sb.size * 512
    else:
        raise ValueError()
    return (1, members + [d for d in g if d.raid_disk is None], best.set_name, str(best.set_uuid), size, best.level, best.layout,
            best.chunk_size, best.raid_disks, [(d.raid_disk, 0, d) for d in members])


def ref_md(disks: list[MDPhysicalDisk]):
    ids = []
    for d in disks:
        if d.set_uuid not in ids:
            ids.append(d.set_uuid)
    return [assemble([d for d in disks if d.set_uuid == i]) for i in ids]


def code_config(disks: list[MDPhysicalDisk]):
    return view(MDConfiguration(disks))


def ref_config(disks: list[MDPhysicalDisk]):
    for d in disks:
        if d.set_uuid != disks[0].set_uuid:
            raise ValueError()
    return assemble(disks)


def code_wrap(fh1: BinaryIO, fh2: BinaryIO):
    m = MD([fh1, fh2])
    return [d for c in m.configurations for d in c.physical_disks]


def ref_wrap(fh1: BinaryIO, fh2: BinaryIO):
    a = MDPhysicalDisk(fh1)
    b = MDPhysicalDisk(fh2)
    return [d for c in MD([a, b]).configurations for d in c.physical_disks]


def code_single(fh: BinaryIO):
    m = MD(fh)
    return [d for c in m.configurations for d in c.physical_disks]


def ref_single(fh: BinaryIO):
    a = MDPhysicalDisk(fh)
    return [d for c in MD([a]).configurations for d in c.physical_disks]
'''

IDS = [uuid.UUID(int=i * 7 + 1) for i in range(3)]


def _disks(rng, w):
    ety = w.cur_ty[1]
    n = rng.choice((1, 2, 3, 3, 4, 5, 6))
    one = rng.random() < 0.5
    chunk = rng.choice((512, 4096, 65536))
    level = {}
    used = set()
    out = []
    for i in range(n):
        key = ("disk", i)
        o = w.of_type(ety, key)
        sid = IDS[0] if one else rng.choice(IDS)
        role = rng.choice((None, 0, 1, 2, 3, 4, 5, 6, 7, 8))
        while role is not None and (sid, role) in used:
            role = rng.randrange(20)
        used.add((sid, role))
        if sid not in level:
            level[sid] = rng.choice((-1, 0, 0, 1, 4, 5, 6, 10, 2, -4))
        for a, v in (("set_uuid", sid), ("raid_disk", role), ("events", rng.randrange(4)), ("chunk_size", chunk if rng.random() < 0.8 else 512),
                     ("level", level[sid] if rng.random() < 0.8 else rng.choice((0, 1, 5, 7))), ("size", rng.randrange(10 ** 6)),
                     ("chunk_sectors", chunk // 512), ("data_offset", rng.choice((0, 8, 2048))), ("data_size", rng.randrange(2000)),
                     ("set_name", rng.choice((None, "a", "b"))), ("layout", rng.randrange(5)), ("raid_disks", rng.randrange(1, 8))):
            w.vals[("attr", key, a)] = v
        out.append(o)
    return out


DOMAINS = {"disks": _disks, ".set_uuid": IDS, ".raid_disk": [None, 0, 1, 2], ".events": [1, 2], ".chunk_size": [512, 4096], ".level": [0, 1, 5],
           ".size": [1000, 5000], ".set_name": [None, "x"], ".layout": [0, 2], ".raid_disks": [1, 2]}
CUT = ["dissect.volume.md.md.MDPhysicalDisk"]
PAIRS = {"md": {"samples": 400}, "config": {"samples": 200}, "wrap": {"samples": 60, "cut": CUT}, "single": {"samples": 30, "cut": CUT}}
