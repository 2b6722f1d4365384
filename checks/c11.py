"""C11: level dispatch."""
from checks.common import RAID

EXPLAIN = ("The value graph of opening a volume is compared with a specification of the scheme per level, of the mirror's window "
           "and of the number of members that may be missing.")

HARNESS = '''
from __future__ import annotations
from typing import BinaryIO
from dissect.volume.raid.raid import PhysicalDisk, VirtualDisk
from dissect.volume.raid.stream import LinearStream, RAID0Stream, RAID10Stream, RAID456Stream
from dissect.volume.exceptions import RAIDError
from vfa import u, raw, window


def code_open(size: int, level: int, layout: int, stripe_size: int, num_disks: int, disk_map: dict[int, tuple[int, PhysicalDisk]]):
    s = VirtualDisk("n", "u", size, level, layout, stripe_size, num_disks, disk_map).open()
    return {
        "linear": isinstance(s, LinearStream),
        "raid0": isinstance(s, RAID0Stream),
        "raid456": isinstance(s, RAID456Stream),
        "raid10": isinstance(s, RAID10Stream),
        "mirror": s if level == 1 else None,
    }


def ref_open(size: int, level: int, layout: int, stripe_size: int, num_disks: int, disk_map: dict[int, tuple[int, PhysicalDisk]]):
    have = len(disk_map)
    if level == -1 or level == 0:
        if have != num_disks:
            raise RAIDError()
    elif level == 4 or level == 5:
        if have + 1 < num_disks:
            raise RAIDError()
    elif level == 6:
        if have + 2 < num_disks:
            raise RAIDError()
    elif level == 10:
        if layout >> 17 > 2 or layout >> 17 < 0:
            raise ValueError()
    elif level != 1:
        raise NotImplementedError()
    mirror = None
    if level == 1:
        start, d = list(disk_map.values())[0]
        mirror = window(d.fh, d.offset + start, d.size - start)
    return {
        "linear": level == -1,
        "raid0": level == 0,
        "raid456": level in (4, 5, 6),
        "raid10": level == 10,
        "mirror": mirror,
    }


def code_fields(name: str, uuid: str, size: int, level: int, layout: int, stripe_size: int, num_disks: int, disk_map: dict[int, tuple[int, PhysicalDisk]]):
    v = VirtualDisk(name, uuid, size, level, layout, stripe_size, num_disks, disk_map)
    return {"name": v.name, "uuid": v.uuid, "size": v.size, "level": v.level, "layout": v.layout, "stripe": v.stripe_size,
            "num": v.num_disks, "map": [x for x in v.disk_map.items()]}


def ref_fields(name: str, uuid: str, size: int, level: int, layout: int, stripe_size: int, num_disks: int, disk_map: dict[int, tuple[int, PhysicalDisk]]):
    return {"name": name, "uuid": uuid, "size": size, "level": level, "layout": layout, "stripe": stripe_size,
            "num": num_disks, "map": [x for x in disk_map.items()]}
'''


def nd(rng, w):
    return w.keyed("nd").choice((1, 2, 3, 3, 4, 4, 5, 6))


def _map(rng, w):
    n = nd(None, w)
    roles = list(range(n))
    rng.shuffle(roles)
    if rng.random() < 0.6:
        roles = roles[: max(n - rng.choice((1, 1, 2, 2, 3)), 1)]
    elif rng.random() < 0.1:
        roles.append(n)
    ety = w.cur_ty[2][1][1]
    return {x: (rng.choice((0, 0, 4, 1024, 7)), w.of_type(ety, ("disk", x))) for x in roles}


def _layout(rng, w):
    return rng.choice((0, 2, 0x102, 0x10102, 0x20102, 0x30202, 0x40102, 0x50102, 0x60102, 0x80102, 0x1000102, 5))


DOMAINS = dict(RAID, level=[-1, 0, 1, 1, 4, 5, 6, 6, 10, 10, 2, 3, -2, -4, 7, 11, 100], layout=_layout, num_disks=nd, disk_map=_map)
DOMAINS["name"] = ["n", "md"]
DOMAINS["uuid"] = ["u", "v"]
PAIRS = {"open": {"samples": 600}, "fields": {"samples": 40}}
