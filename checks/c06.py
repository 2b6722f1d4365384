"""C06: opened partitions and members."""
EXPLAIN = ("The windows that opening a partition, a RAID member, an LVM device or an LVM physical volume yields are compared with "
           "the extents the objects declare.")

HARNESS = '''
from __future__ import annotations
from typing import BinaryIO
from uuid import UUID
from dissect.volume.disk.partition import Partition
from dissect.volume.disk.schemes import MBR
from dissect.volume.raid.raid import PhysicalDisk
from dissect.volume.lvm.physical import LVM2Device
from dissect.volume.lvm.metadata import PhysicalVolume, VolumeGroup
from dissect.volume.exceptions import LVM2Error
from vfa import u, raw, window, runs, newobj


def code_partition(disk: MBR, number: int, offset: int, size: int, type: int, name: str, flags: int, guid: UUID, raw_: bytes):
    p = Partition(disk, number, offset, size, type, name, flags, guid, raw=raw_)
    q = Partition(disk, number, offset, size, type)
    return {"stream": runs(p.open()), "plain": runs(q.open()), "disk": p.disk, "number": p.number, "offset": p.offset, "size": p.size,
            "type": p.type, "name": p.name, "flags": p.flags, "guid": p.guid, "raw": p.raw,
            "none": (q.name, q.flags, q.guid, q.raw)}


def ref_partition(disk: MBR, number: int, offset: int, size: int, type: int, name: str, flags: int, guid: UUID, raw_: bytes):
    w = runs([(0, size, disk.fh, offset)])
    return {"stream": w, "plain": w, "disk": disk, "number": number, "offset": offset, "size": size,
            "type": type, "name": name, "flags": flags, "guid": guid, "raw": raw_, "none": (None, None, None, None)}


def code_member(fh: BinaryIO, offset: int, size: int):
    d = PhysicalDisk(fh, offset, size)
    return {"stream": runs(d.open()), "fh": d.fh, "offset": d.offset, "size": d.size}


def ref_member(fh: BinaryIO, offset: int, size: int):
    return {"stream": runs([(0, size, fh, offset)]), "fh": fh, "offset": offset, "size": size}


def code_device(fh: BinaryIO):
    s = LVM2Device(fh).open()
    return {"stream": runs(s), "size": s.size}


def header(fh):
    for i in (0, 512, 1024, 1536):
        if raw(fh, i, 8) == b"LABELONE":
            return i + u(fh, i + 20, 4)
    raise LVM2Error()


def check(fh):
    at = header(fh)
    if raw(fh, at + 40, 16) == bytes(16) or raw(fh, at + 56, 16) != bytes(16):
        raise RuntimeError()
    return u(fh, at + 32, 8), u(fh, at + 40, 8)


def ref_device(fh: BinaryIO):
    size, at = check(fh)
    return {"stream": runs([(0, size // 512 * 512, fh, at // 512 * 512)]), "size": size}


def code_pv(fh: BinaryIO, vg: VolumeGroup, have: int, dev_size: int, pe_start: int, pe_count: int):
    pv = newobj(PhysicalVolume)
    pv._dev = LVM2Device(fh) if have else None
    pv._volume_group = vg
    pv._name = "pv0"
    pv.id = "id"
    pv.device = "/dev/x"
    pv.dev_size = dev_size
    pv.pe_start = pe_start
    pv.pe_count = pe_count
    s = pv.open()
    return {"stream": runs(s), "size": s.size}


def ref_pv(fh: BinaryIO, vg: VolumeGroup, have: int, dev_size: int, pe_start: int, pe_count: int):
    if not have:
        raise LVM2Error()
    have_size, at = check(fh)
    if dev_size:
        size = dev_size * vg.extent_size
    else:
        size = (pe_start + pe_count * vg.extent_size) * 512
    size = max(size, have_size)
    return {"stream": runs([(0, size // 512 * 512, fh, at // 512 * 512)]), "size": size}
'''

DOMAINS = {"number": [1, 2, 5, 128], "offset": [0, 512, 1048576, 7, 10**12], "size": [512, 10240, 5 * 10**11, 1, 0], "type": [0, 7, 0x83, 0xEE, 0xA5],
           "name": ["", "EFI", "b"], "flags": [0, 1, 128], "have": [1, 1, 1, 0], "dev_size": [0, 0, 8, 2048, 100001], "pe_start": [2048, 0, 384],
           "pe_count": [0, 1, 10, 1000], ".extent_size": [1, 8, 8192], ".size": [1048576, 5120, 1000, 5 * 10**9, 8 * 2048], ".offset": [1048576, 512, 0, 1000]}
PAIRS = {"partition": {"samples": 60}, "member": {"samples": 60}, "device": {"samples": 600}, "pv": {"samples": 800}}
