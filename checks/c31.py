"""C31: values of LVM metadata objects."""
EXPLAIN = ("The value graphs of building metadata objects from a parsed section are compared, field by field, with a table of the fields LVM "
           "defines for each kind of section: which ones a section has to carry, which it may leave out, and what is made of them.")

# kind of segment: (class, names of the type, required fields, optional fields)
SEGMENTS = {
    "striped": ("StripedSegment", ["linear", "striped"], "stripe_count", "stripe_size"),
    "mirror": ("MirrorSegment", ["mirror"], "mirror_count", "extents_moved region_size mirror_log"),
    "snapshot": ("SnapshotSegment", ["snapshot"], "chunk_size", "merging_store cow_store origin"),
    "thin": ("ThinSegment", ["thin"], "thin_pool transaction_id", "origin merge device_id external_origin"),
    "thinpool": ("ThinPoolSegment", ["thin-pool"], "metadata pool transaction_id chunk_size", "discards zero_new_blocks crop_metadata"),
    "cache": ("CacheSegment", ["cache"], "cache_pool origin", "cleaner chunk_size cache_mode policy policy_settings metadata_format "
              "metadata_start metadata_len data_start data_len metadata_id data_id"),
    "cachepool": ("CachePoolSegment", ["cache-pool"], "data metadata", "metadata_format chunk_size cache_mode policy policy_settings"),
    "writecache": ("WriteCacheSegment", ["writecache"], "origin writecache writecache_block_size", "high_watermark low_watermark "
                   "writeback_jobs autocommit_blocks autocommit_time fua nofua cleaner max_age metadata_only pause_writeback "
                   "writecache_setting_key writecache_setting_val"),
    "integrity": ("IntegritySegment", ["integrity"], "origin data_sectors mode tag_size block_size internal_hash", "meta_dev recalculate "
                  "journal_sectors interleave_sectors buffer_sectors journal_watermark commit_time bitmap_flush_interval sectors_per_bit"),
    "error": ("ErrorSegment", ["error"], "", ""),
    "free": ("FreeSegment", ["free"], "", ""),
    "zero": ("ZeroSegment", ["zero"], "", ""),
    "vdo": ("VdoSegment", ["vdo"], "vdo_pool vdo_offset", ""),
    "vdopool": ("VdoPoolSegment", ["vdo-pool"], "data header_size virtual_extents use_compression use_deduplication use_metadata_hints "
                "minimum_io_size block_map_cache_size_mb block_map_era_length use_sparse_index index_memory_size_mb max_discard "
                "slab_size_mb ack_threads bio_threads bio_rotation cpu_threads hash_zone_threads logical_threads physical_threads", "write_policy"),
    "raid": ("RAIDSegment", ["raid", "raid0", "raid0_meta", "raid1", "raid10", "raid10_near", "raid4", "raid5", "raid5_n", "raid5_la", "raid5_ls",
             "raid5_ra", "raid5_rs", "raid6", "raid6_nc", "raid6_nr", "raid6_zr", "raid6_la_6", "raid6_ls_6", "raid6_ra_6", "raid6_rs_6", "raid6_n_6"],
             "", "device_count stripe_count region_size stripe_size writebehind min_recovery_rate max_recovery_rate data_offset"),
}


COMMON = "start_extent extent_count", "reshape_count data_copies tags"
SECTIONS = {
    "group": ("id seqno status flags extent_size max_lv max_pv",
              "system_id allocation_policy profile metadata_copies tags format lock_type lock_args"),
    "physical": ("id status pe_start pe_count", "dev_size device device_id device_id_type ba_start ba_size tags"),
    "logical": ("id status flags segment_count", "creation_host lock_args allocation_policy profile read_ahead tags"),
    "historical": ("id", "origin descendants"),
}

HEAD = """
from __future__ import annotations
from datetime import datetime
from typing import BinaryIO
from dissect.util import ts
from dissect.volume.exceptions import LVM2Error
from dissect.volume.lvm.lvm2 import LVM2
from dissect.volume.lvm.metadata import (
    CachePoolSegment, CacheSegment, ErrorSegment, FreeSegment, HistoricalLogicalVolume, IntegritySegment, LogicalVolume, MirrorSegment,
    PhysicalVolume, RAIDSegment, Segment, SnapshotSegment, StripedSegment, ThinPoolSegment, ThinSegment, VdoPoolSegment, VdoSegment,
    VolumeGroup, WriteCacheSegment, ZeroSegment,
)
from dissect.volume.lvm.physical import LVM2Device


def two(xs):
    return [(xs[2 * i], xs[2 * i + 1]) for i in range(len(xs) // 2)]


def maybe_two(xs):
    return two(xs) if xs else xs


def time(x):
    return ts.from_unix(x) if x else x


def code_device_size(pv: PhysicalVolume):
    return pv.size


def ref_device_size(pv: PhysicalVolume):
    if pv.dev_size:
        return pv.dev_size * 512
    return (pv.pe_start + pv.pe_count * pv._volume_group.extent_size) * 512


def sectors_taken_as_extents(pv: PhysicalVolume):
    if pv.dev_size:
        return pv.dev_size * pv._volume_group.extent_size
    return (pv.pe_start + pv.pe_count * pv._volume_group.extent_size) * 512


def code_setup(devices: list[LVM2Device]):
    x = LVM2(devices)
    return {"contents": x.contents, "version": x.version, "description": x.description, "host": x.creation_host, "time": x.creation_time,
            "group": x.vg.name, "id": x.volume_group.id, "devices": list(x.devices.items()),
            "attached": [(p.id, p.dev) for p in x.vg.pv]}


def ref_setup(devices: list[LVM2Device]):
    if len(devices) == 0:
        raise ValueError()
    top = devices[0].metadata
    groups = [(k, v) for k, v in top.items() if isinstance(v, dict)]
    if len(groups) != 1:
        raise LVM2Error()
    name, group = groups[0]
    return {"contents": top["contents"], "version": top["version"], "description": top.get("description"), "host": top.get("creation_host"),
            "time": ts.from_unix(top["creation_time"]) if top.get("creation_time") else None, "group": name, "id": group["id"],
            "devices": list({d.id: d for d in devices}.items()),
            "attached": [(p["id"], {d.id: d for d in devices}.get(p["id"].replace("-", ""))) for p in group["physical_volumes"].values()]}


def code_single(fh: BinaryIO):
    return LVM2(fh).contents


def ref_single(fh: BinaryIO):
    return LVM2([LVM2Device(fh)]).contents


def code_kind(lv: LogicalVolume):
    return {"type": lv.type, "visible": lv.is_visible}


def ref_kind(lv: LogicalVolume):
    return {"type": lv._segments[0].type if lv._segments else None, "visible": "VISIBLE" in lv.status}


def code_members(vg: VolumeGroup):
    return {"pv": vg.pv, "lv": vg.lv}


def ref_members(vg: VolumeGroup):
    return {"pv": list(vg.physical_volumes.values()), "lv": list(vg.logical_volumes.values())}
"""

CLASS = """

def code_class(obj: dict, lv: LogicalVolume):
    x = Segment.from_dict(obj, "segment1", lv)
    return {"class": x.__class__.__name__, "type": x.type, "flags": x.flags, "start": x.start_extent, "count": x.extent_count}


def ref_class(obj: dict, lv: LogicalVolume):
    table = %r
    words = obj["type"].split("+")
    return {"class": table.get(words[0], "Segment"), "type": words[0], "flags": words[1:], "start": obj["start_extent"],
            "count": obj["extent_count"]}
"""

LISTS = {"striped": [("stripes", "two({v}[\"stripes\"])")], "mirror": [("mirrors", "maybe_two({v}.get(\"mirrors\"))")],
         "raid": [("raids", "maybe_two({v}.get(\"raids\"))"), ("raid0_lvs", "{v}.get(\"raid0_lvs\")")]}
NAMED = {
    "group": [("x.name", "name"), ("[(k, v.name, v.id, v.vg is x) for k, v in x.physical_volumes.items()]",
              '[(k, k, v["id"], True) for k, v in obj["physical_volumes"].items()]'),
              ("[(k, v.name, v.id, v.vg is x) for k, v in x.logical_volumes.items()]",
               '[(k, k, v["id"], True) for k, v in obj["logical_volumes"].items()]'),
              ("[(k, v.name, v.id, v.vg is x) for k, v in x.historical_logical_volumes.items()]",
               '[(k, v.get("name") or k, v["id"], True) for k, v in (obj.get("historical_logical_volumes") or {}).items()]')],
    "physical": [("x.name", "name"), ("x.vg", "vg"), ("x.volume_group", "vg")],
    "logical": [("x.name", "name"), ("x.vg", "vg"), ("x.volume_group", "vg"), ("x.creation_time", 'time(obj.get("creation_time"))'),
                ("[(s.name, s.lv is x, s.type, s.start_extent) for s in x.segments]",
                 '[(k, True, v["type"].split("+")[0], v["start_extent"]) for k, v in obj.items() if isinstance(v, dict)]')],
    "historical": [("x.name", 'obj.get("name") or name'), ("x.vg", "vg"), ("x.volume_group", "vg"),
                   ("x.creation_time", 'time(obj.get("creation_time"))'), ("x.removal_time", 'time(obj.get("removal_time"))')],
}
CLASSES = {"group": "VolumeGroup", "physical": "PhysicalVolume", "logical": "LogicalVolume", "historical": "HistoricalLogicalVolume"}


def _section(name, params, build, required, optional, extra):
    """A pair that compares every field of an object with what the section gives for it."""
    labels = [(n, f"x.{n}", f'obj["{n}"]') for n in required.split()] + [(n, f"x.{n}", f'obj.get("{n}")') for n in optional.split()] + extra
    code = ", ".join(f'"{n}": {c}' for n, c, _ in labels)
    ref = ", ".join(f'"{n}": {r}' for n, _, r in labels)
    return f"\n\ndef code_{name}({params}):\n    x = {build}\n    return {{{code}}}\n\n\ndef ref_{name}({params}):\n    return {{{ref}}}\n"


def _harness():
    out = HEAD + CLASS % {k: v[0] for v in SEGMENTS.values() for k in v[1]}
    for name, (cls, kinds, required, optional) in SEGMENTS.items():
        extra = [("class", f"isinstance(x, {cls})", "True"), ("name", "x.name", "name"), ("volume", "x.logical_volume", "lv"), ("lv", "x.lv", "lv")]
        extra += [(n, f"x.{n}", r.format(v="obj")) for n, r in LISTS.get(name, [])]
        for i, kind in enumerate(kinds):
            out += _section(f"{name}{i or ''}", "obj: dict, lv: LogicalVolume, name: str", f"Segment.from_dict({{**obj, 'type': '{kind}'}}, name, lv)",
                            COMMON[0] + " " + required, COMMON[1] + " " + optional, extra)
    for name, (required, optional) in SECTIONS.items():
        extra = [(f"also{i}", c, r) for i, (c, r) in enumerate(NAMED[name])]
        out += _section(name, "obj: dict, vg: VolumeGroup, name: str", f"{CLASSES[name]}.from_dict(obj, name, vg)", required, optional, extra)
    return out


HARNESS = _harness()
KINDS = [k for v in SEGMENTS.values() for k in v[1]]


FLAGS = ("READ", "WRITE", "VISIBLE", "RESIZEABLE", "ALLOCATABLE", "EXPORTED", "MISSING", "HIDDEN", "LOCKED", "PVMOVE", "NOTSYNCED", "PARTIAL",
         "CLUSTERED", "FIXED_MINOR")


def _some(rng, required, optional, p=0.02):
    d = {}
    fields = required.split() + [x for x in optional.split() if rng.random() < 0.7]
    rng.shuffle(fields)
    for f in fields:
        if rng.random() >= p:
            d[f] = rng.choice((0, 1, 7, 8192, "", "abc", "x-y", None)) if f in optional.split() else rng.choice((0, 1, 7, 8192, "abc", "x-y"))
    for f in ("status", "flags"):
        if f in d:
            d[f] = rng.sample(FLAGS, rng.choice((0, 1, 2, 3, 5)))
    return d


def _segment(rng, kind):
    cls, kinds, required, optional = next((v for v in SEGMENTS.values() if kind in v[1]), ("", [kind], "", ""))
    d = _some(rng, COMMON[0] + " " + required, COMMON[1] + " " + optional)
    for n, r in LISTS.get(next((k for k, v in SEGMENTS.items() if kind in v[1]), ""), ()):
        if rng.random() < 0.8 or "maybe" not in r:
            d[n] = [x for i in range(rng.choice((0, 1, 1, 2, 3))) for x in (f"pv{i}", rng.choice((0, 5, 100)))]
    d["type"] = kind + rng.choice(("", "", "", "+CACHE_MODE", "+A+B"))
    return d


def _seg_of(kinds):
    return lambda rng, w: _segment(rng, rng.choice(kinds))


def _volume(rng, w=None):
    d = _some(rng, *SECTIONS["logical"])
    names = ["segment1", "segment2", "segment3", "segment10"][: rng.choice((0, 1, 1, 2, 4))]
    if rng.random() < 0.4:
        rng.shuffle(names)
    for name in names:
        d[name] = _segment(rng, rng.choice(("striped", "linear", "error", "zero", "odd")))
    if rng.random() < 0.6:
        d["creation_time"] = rng.choice((0, 1, 1650000000))
    keys = list(d)
    if rng.random() < 0.3:
        rng.shuffle(keys)
    return {k: d[k] for k in keys}


def _historical(rng, w=None):
    d = _some(rng, *SECTIONS["historical"])
    for n in ("creation_time", "removal_time"):
        if rng.random() < 0.6:
            d[n] = rng.choice((0, 1, 1650000000))
    if rng.random() < 0.5:
        d["name"] = rng.choice(("", "old"))
    return d


def _group(rng, w=None):
    d = _some(rng, *SECTIONS["group"])
    d["physical_volumes"] = {f"pv{i}": _some(rng, *SECTIONS["physical"]) for i in range(rng.choice((0, 1, 2)))}
    d["logical_volumes"] = {f"lv{i}": _volume(rng) for i in range(rng.choice((0, 1, 2)))}
    if rng.random() < 0.5:
        d["historical_logical_volumes"] = {f"old{i}": _historical(rng) for i in range(rng.choice((0, 1, 2)))}
    return d


def _ids(rng, w=None):
    return rng.choice(("abcdef-0000-1111", "abcdef-0000-2222", "xyz", "abcdef00001111", "eDTe0T-1nGk-Yxyz-0000-1111-2222-abcdef",
                       "eDTe0T-1nGk-Yxyz-0000-1111-2222-abcdeg"))


def _devices(rng, w):
    return [w.of_type(w.cur_ty[1], ("dev", i)) for i in range(rng.choice((0, 1, 1, 2, 3)))]


def _top(rng, w):
    d = _some(rng, "contents version", "description creation_host")
    if rng.random() < 0.6:
        d["creation_time"] = rng.choice((0, 1, 1650000000))
    for i in range(rng.choice((0, 1, 1, 1, 1, 1, 1, 2))):
        g = d[f"vg{i}"] = _group(rng)
        for p in g["physical_volumes"].values():
            p["id"] = _ids(rng)
    return d


MAKE = {"group": _group, "physical": lambda rng, w: _some(rng, *SECTIONS["physical"]), "logical": _volume, "historical": _historical}
DOMAINS = {"name": ["segment1", "pv0", "x"], ".dev_size": [None, 0, 1, 2048, 10**9], ".status": lambda rng, w: rng.sample(FLAGS, rng.choice((0, 1, 2, 5, 9))),
           ".flags": lambda rng, w: rng.sample(FLAGS, rng.choice((0, 1, 2, 5, 9)))}
PAIRS = {f"{n}{i or ''}": {"samples": 60 if len(v[1]) > 2 else 200, "domains": DOMAINS | {"obj": _seg_of([k])}}
         for n, v in SEGMENTS.items() for i, k in enumerate(v[1])}
PAIRS |= {n: {"samples": 250, "domains": DOMAINS | {"obj": MAKE[n]}} for n in SECTIONS}
PAIRS |= {"class": {"samples": 600, "domains": DOMAINS | {"obj": _seg_of(KINDS + ["unheard", "thick", "Raid1", ""])}},
          "device_size": {"samples": 100, "known": {"sectors_taken_as_extents": ("lvm-device-size-scale", "PhysicalVolume.size: the size of the "
                          "device, which LVM records in sectors of 512 bytes, is multiplied by the extent size (in sectors) instead")}},
          "kind": {"samples": 200}, "members": {"samples": 100}}
SETUP = DOMAINS | {"devices": _devices, ".id": lambda rng, w: _ids(rng).replace("-", ""), "metadata()": _top}
PAIRS |= {"setup": {"samples": 400, "domains": SETUP, "opaque": ["dissect.volume.lvm.physical.LVM2Device.metadata"]},
          "single": {"samples": 200, "domains": SETUP, "opaque": ["dissect.volume.lvm.physical.LVM2Device.metadata"],
                     "cut": ["dissect.volume.lvm.physical.LVM2Device"]}}
