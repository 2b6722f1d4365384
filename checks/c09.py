"""C09: RAID4/5/6."""
from checks.common import PULL, RAID

EXPLAIN = ("The recurrence of RAID4/5/6 reads, with the parity rotation of every layout, is compared with a specification that "
           "places parity first and deals the data members from what is left of each row.")

HARNESS = '''
from __future__ import annotations
from typing import BinaryIO
from dissect.volume.raid.raid import PhysicalDisk, VirtualDisk
from dissect.volume.exceptions import RAIDError
from vfa import u, raw


def code_read(size: int, level: int, layout: int, stripe_size: int, num_disks: int, disk_map: dict[int, tuple[int, PhysicalDisk]], offset: int, length: int):
    s = VirtualDisk("n", "u", size, level, layout, stripe_size, num_disks, disk_map).open()
    return {"size": s.size, "bytes": pull(s, offset, length)}


def skip(i, a, b):
    # the i-th member that is neither a nor b
    if i >= min(a, b):
        i += 1
    if i >= max(a, b):
        i += 1
    return i


def skip1(i, a):
    return i + 1 if i >= a else i


def member(level, layout, n, row, i):
    """The member that holds data piece i of a row."""
    if level == 4:
        return i
    if level == 5:
        left = n - 1 - row % n
        right = row % n
        if layout == 0:
            return skip1(i, left)
        if layout == 1:
            return skip1(i, right)
        if layout == 2:
            return (left + 1 + i) % n
        if layout == 3:
            return (right + 1 + i) % n
        if layout == 4:
            return i + 1
        if layout == 5:
            return i
        raise RAIDError()
    left = n - 1 - row % n
    right = row % n
    if layout == 0:
        return skip(i, left, (left + 1) % n)
    if layout == 1 or layout == 8:
        return skip(i, right, (right + 1) % n)
    if layout == 2:
        return (left + 2 + i) % n
    if layout == 3:
        return (right + 2 + i) % n
    if layout == 4:
        return i + 2
    if layout == 5:
        return i
    if layout == 9:
        p = n - 1 - (row + 1) % n
        return skip(i, p, (p + 1) % n)
    if layout == 10:
        return (left + 1 + i) % n
    # RAID5 on all but the last member, which holds Q
    m = n - 1
    left = m - 1 - row % m
    right = row % m
    if layout == 16:
        return skip1(i, left)
    if layout == 17:
        return skip1(i, right)
    if layout == 18:
        return (left + 1 + i) % m
    if layout == 19:
        return (right + 1 + i) % m
    if layout == 20:
        return i + 1
    raise RAIDError()


def ref_read(size: int, level: int, layout: int, stripe_size: int, num_disks: int, disk_map: dict[int, tuple[int, PhysicalDisk]], offset: int, length: int):
    parity = 2 if level == 6 else 1
    if num_disks - len(disk_map) > parity:
        raise RAIDError()
    out = []
    while length > 0:
        n = min(length, stripe_size - offset % stripe_size)
        piece = offset // stripe_size
        row = piece // (num_disks - parity)
        start, d = disk_map[member(level, layout, num_disks, row, piece % (num_disks - parity))]
        out.append(raw(d.fh, d.offset + start + row * stripe_size + offset % stripe_size, n))
        offset += n
        length -= n
    return {"size": size, "bytes": b"".join(out)}
''' + PULL


def nd(rng, w):
    return w.keyed("nd").choice((3, 3, 4, 4, 5, 6, 7))


DOMAINS = dict(RAID, level=[4, 5, 5, 5, 6, 6, 6, 6], layout=[*range(-1, 6), *range(7, 12), *range(15, 22), 0, 1, 2, 3, 100], num_disks=nd)


def _map(rng, w):
    n = nd(None, w)
    roles = list(range(n))
    rng.shuffle(roles)
    if rng.random() < 0.3:
        roles = roles[: n - rng.choice((1, 1, 2, 3))]
    ety = w.cur_ty[2][1][1]
    return {x: (rng.choice((0, 0, 4, 1024, 7)), w.of_type(ety, ("disk", x))) for x in roles}


DOMAINS["disk_map"] = _map
PAIRS = {"read": {"samples": 700, "budget": 60}}
