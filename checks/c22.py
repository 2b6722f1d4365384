"""C22: mapping of LVM logical volumes."""
EXPLAIN = ("The byte maps and objects that opening logical volumes and segments yields are compared with a specification of the mapping by "
           "extents; opening what lies below (a segment, a physical volume, a volume) is an uninterpreted stream that may fail, so that each "
           "level is compared on its own and the whole follows by composition.")

from checks.c20 import _fh

HARNESS = '''
from __future__ import annotations
from typing import BinaryIO
from dissect.volume.dm.thin import ThinDevice, ThinPool
from dissect.volume.exceptions import LVM2Error
from dissect.volume.lvm.lvm2 import LVM2
from dissect.volume.lvm.metadata import (
    CachePoolSegment, CacheSegment, ErrorSegment, FreeSegment, IntegritySegment, LogicalVolume, MirrorSegment, PhysicalVolume,
    RAIDSegment, Segment, SnapshotSegment, StripedSegment, ThinPoolSegment, ThinSegment, VdoPoolSegment, VdoSegment, VolumeGroup,
    WriteCacheSegment, ZeroSegment,
)
from dissect.volume.lvm.physical import LVM2Device
from vfa import runs


def code_volume(lv: LogicalVolume):
    return runs(lv.open())


def ref_volume(lv: LogicalVolume):
    extent = lv._volume_group.extent_size * 512
    return runs([(s.start_extent * extent, s.extent_count * extent, s.open(), 0) for s in lv._segments])


def code_striped(seg: StripedSegment):
    return runs(seg.open())


def ref_striped(seg: StripedSegment):
    group = seg._logical_volume._volume_group
    extent = group.extent_size * 512
    size = seg.extent_count * extent
    if len(seg.stripes) == 1:
        name, first = seg.stripes[0]
        return runs([(0, size, group.physical_volumes[name].open(), first * extent)])
    chunk = seg.stripe_size * 512
    rows = []
    for i in range(size // chunk):
        name, first = seg.stripes[i % len(seg.stripes)]
        rows.append((i * chunk, chunk, group.physical_volumes[name].open(), first * extent + i // len(seg.stripes) * chunk))
    return runs(rows)


def stripes_one_after_the_other(seg: StripedSegment):
    group = seg._logical_volume._volume_group
    extent = group.extent_size * 512
    size = seg.extent_count * extent
    if len(seg.stripes) == 1:
        name, first = seg.stripes[0]
        return runs([(0, size, group.physical_volumes[name].open(), first * extent)])
    chunk = seg.stripe_size * extent
    return runs([(i * chunk, chunk, group.physical_volumes[seg.stripes[i][0]].open(), seg.stripes[i][1] * extent) for i in range(len(seg.stripes))])


def code_mirror(seg: MirrorSegment):
    return seg.open()


def ref_mirror(seg: MirrorSegment):
    volumes = seg._logical_volume._volume_group.logical_volumes
    i = 0
    while i < len(seg.mirrors):
        name = seg.mirrors[i][0]
        i += 1
        if name in volumes:
            try:
                return volumes[name].open()
            except Exception:
                continue
    raise LVM2Error()


def code_thin(seg: ThinSegment):
    return seg.open()


def ref_thin(seg: ThinSegment):
    group = seg._logical_volume._volume_group
    pool: ThinPoolSegment = group.logical_volumes[seg.thin_pool]._segments[0]
    return ThinDevice(pool.open_pool(), seg.device_id, seg.extent_count * group.extent_size * 512)


def code_pool(seg: ThinPoolSegment):
    p = seg.open_pool()
    return (p.metadata_fh, p.data_fh)


def ref_pool(seg: ThinPoolSegment):
    volumes = seg._logical_volume._volume_group.logical_volumes
    p = ThinPool(volumes[seg.metadata].open(), volumes[seg.pool].open())
    return (p.metadata_fh, p.data_fh)


def attempt(s):
    try:
        s.open()
    except NotImplementedError:
        return "not supported"
    except RuntimeError:
        return "wrong way"
    return "data"


def code_refused(a: SnapshotSegment, b: CacheSegment, c: CachePoolSegment, d: WriteCacheSegment, e: IntegritySegment, f: ErrorSegment,
                 g: FreeSegment, h: ZeroSegment, i: VdoSegment, j: VdoPoolSegment, k: RAIDSegment, l: Segment, m: ThinPoolSegment):
    return [attempt(x) for x in (a, b, c, d, e, f, g, h, i, j, k, l)] + [attempt(m)]


def ref_refused(a: SnapshotSegment, b: CacheSegment, c: CachePoolSegment, d: WriteCacheSegment, e: IntegritySegment, f: ErrorSegment,
                g: FreeSegment, h: ZeroSegment, i: VdoSegment, j: VdoPoolSegment, k: RAIDSegment, l: Segment, m: ThinPoolSegment):
    return ["not supported", "not supported", "not supported", "not supported", "not supported", "not supported", "not supported", "not supported",
            "not supported", "not supported", "not supported", "not supported", "wrong way"]


def code_attach(vg: VolumeGroup, devices: dict[str, LVM2Device]):
    vg.attach(devices)
    return [(p.id, p.dev) for p in vg.physical_volumes.values()]


def ref_attach(vg: VolumeGroup, devices: dict[str, LVM2Device]):
    return [(p.id, devices.get(p.id.replace("-", ""))) for p in vg.physical_volumes.values()]


def code_device(pv: PhysicalVolume, fh: BinaryIO):
    pv._dev = LVM2Device(fh)
    return runs(pv.open())


def ref_device(pv: PhysicalVolume, fh: BinaryIO):
    dev = LVM2Device(fh)
    size = pv.size if dev.size < pv.size else dev.size
    return runs([(0, size, dev.fh, dev._data_area_descriptors[0].offset)])


def code_missing(pv: PhysicalVolume):
    return pv.open()


def ref_missing(pv: PhysicalVolume):
    raise LVM2Error()
'''

NAMES = ["pv0", "pv1", "pv2"]
VOLUMES = ["a", "b", "c"]


def _stripes(rng, w):
    n = rng.choice((1, 1, 1, 2, 3))
    return [(rng.choice(NAMES), rng.choice((0, 1, 7, 100))) for _ in range(n)]


def _stripe_size(rng, w):
    st = w.vals.get(("attr", ("sym", "seg"), "stripes"))
    if st is None:
        st = w.vals[("attr", ("sym", "seg"), "stripes")] = _stripes(w.keyed("stripes"), w)
    return rng.choice((None, None, 0)) if len(st) == 1 else rng.choice((1, 2, 4))


def _stripes_of(rng, w):
    _stripe_size(rng, w)
    return w.vals[("attr", ("sym", "seg"), "stripes")]


def _extents(rng, w):
    st = _stripes_of(rng, w)
    return rng.choice((1, 2, 3)) * len(st)


def _pvs(rng, w):
    ety = w.cur_ty[2]
    names = NAMES if rng.random() < 0.9 else NAMES[:2]
    return {n: w.of_type(ety, ("pv", n)) for n in names}


def _lvs(rng, w):
    ety = w.cur_ty[2]
    return {n: w.of_type(ety, ("lv", n)) for n in rng.sample(VOLUMES, rng.choice((2, 3)))}


def _ids(rng, w):
    return rng.choice(("abcdef-0000-1111", "abcdef-0000-2222", "xyz"))


def _devices(rng, w):
    ety = w.cur_ty[2]
    return {k: w.of_type(ety, ("dev", k)) for k in rng.sample(["abcdef00001111", "abcdef00002222", "xyz", "other"], rng.choice((0, 1, 2, 3)))}


SIZES = [512 * 8, 512 * 2048, 512 * 100000, 512 * 9]
M = "dissect.volume.lvm.metadata."
DOMAINS = {".stripes": _stripes_of, ".stripe_size": _stripe_size, ".extent_size": [4, 8, 16], ".physical_volumes": _pvs, ".logical_volumes": _lvs,
           ".mirrors": lambda rng, w: [(rng.choice(VOLUMES), rng.randrange(9)) for _ in range(rng.choice((0, 1, 2, 2, 3)))],
           ".thin_pool": VOLUMES, ".metadata": VOLUMES, ".pool": VOLUMES, ".id": _ids, "devices": _devices,
           ".start_extent": [0, 1, 2, 5, 100], "._dev": [None],
           "._segments": lambda rng, w: [w.of_type(w.cur_ty[1], ("seg", rng.randrange(10**9), i)) for i in range(rng.choice((1, 1, 2, 3)))]}
PAIRS = {
    "volume": {"samples": 200, "opaque": [M + "Segment.open"]},
    "striped": {"samples": 400, "opaque": [M + "PhysicalVolume.open"], "domains": DOMAINS | {".extent_count": _extents},
                "known": {"stripes_one_after_the_other": ("lvm-striped-not-interleaved", "StripedSegment.open: stripes of a segment with several "
                          "are mapped one after the other and a stripe size counts extents, instead of interleaved units of sectors")}},
    "mirror": {"samples": 300, "raising": [M + "LogicalVolume.open"]},
    "thin": {"samples": 400, "opaque": [M + "LogicalVolume.open"], "cut": ["dissect.volume.dm.thin.ThinPool", "dissect.volume.dm.thin.ThinDevice"]},
    "pool": {"samples": 100, "opaque": [M + "LogicalVolume.open"], "cut": ["dissect.volume.dm.thin.Metadata"]},
    "refused": {"samples": 20},
    "attach": {"samples": 200},
    "device": {"samples": 200, "opaque": [M + "PhysicalVolume.size"], "domains": DOMAINS | {"fh": _fh, "size()": SIZES}},
    "missing": {"samples": 20},
}
