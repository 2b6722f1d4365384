"""C15: DDF assembly."""
EXPLAIN = ("The value graph of assembling DDF groups from members with arbitrary records is compared with a specification of grouping, "
           "member placement, geometry and the translation of levels.")

HARNESS = '''
from __future__ import annotations
from typing import BinaryIO
from dissect.volume.ddf.ddf import DDF, DDFConfiguration, DDFPhysicalDisk, DDFVirtualDisk, VirtualDiskRecord, VirtualDiskConfigurationRecord
from vfa import u, raw


def volume(v):
    return (v.name, v.uuid, v.size, v.level, v.layout, v.stripe_size, v.num_disks, sorted([(k, x[0], x[1].reference) for k, x in v.disk_map.items()]))


def code_config(disks: list[DDFPhysicalDisk]):
    c = DDFConfiguration(disks)
    return {"disks": c.physical_disks, "volumes": [volume(v) for v in c.virtual_disks],
            "records": [(v.virtual_disk_configuration_record, v.virtual_disk_record) for v in c.virtual_disks]}


def convert(prl, rlq, srl, pec, sec):
    if sec > 1:
        if prl != 1 or srl not in (0, 3):
            raise ValueError()
        if pec == 2 and rlq == 0:
            return (10, 0x102, 2 * sec)
        if pec == 3 and rlq == 1:
            return (10, 0x103, 3 * sec)
        raise ValueError()
    if prl == 0x1F:
        return (-1, None, pec)
    if (prl, rlq) == (0, 0):
        return (0, None, pec)
    if (prl, rlq, pec) in ((1, 0, 2), (1, 1, 3)):
        return (1, None, pec)
    if (prl, rlq) == (0x11, 0):
        return (10, 0x102, pec)
    if (prl, rlq) == (0x11, 1):
        return (10, 0x201, pec)
    if (prl, rlq) == (4, 1):
        return (4, None, pec)
    if (prl, rlq) == (5, 0):
        return (5, 1, pec)
    if (prl, rlq) == (5, 2):
        return (5, 0, pec)
    if (prl, rlq) == (5, 3):
        return (5, 2, pec)
    if (prl, rlq) == (6, 1):
        return (6, 8, pec)
    if (prl, rlq) == (6, 2):
        return (6, 9, pec)
    if (prl, rlq) == (6, 3):
        return (6, 10, pec)
    raise ValueError()


def last(items):
    return items[len(items) - 1]


def place(c, disks):
    out = []
    at = 0
    for j in range(min(len(c.starting_block), len(c.physical_disk_sequence))):
        who = c.physical_disk_sequence[j]
        if who == 0xFFFFFFFF:
            continue
        found = [d for d in disks if d.reference == who]
        if len(found) > 0:
            d = last(found)
            base = 0 if c.secondary_element_count == 1 else c.secondary_element_seq * c.primary_element_count
            out.append((base + at, c.starting_block[j] * d.block_size, d))
        at += 1
    return out


def build(g, mine, vdr, disks):
    seqs = []
    for c in mine:
        if c.secondary_element_seq not in seqs:
            seqs.append(c.secondary_element_seq)
    rows = []
    for s in seqs:
        rows += place(last([c for c in mine if c.secondary_element_seq == s]), disks)
    main = last(mine)
    block = main.block_size
    if block == 0xFFFF:
        block = rows[0][2].block_size
    level, layout, count = convert(main.primary_raid_level, main.raid_level_qualifier, main.secondary_raid_level,
                                   main.primary_element_count, main.secondary_element_count)
    return (vdr.name, g.hex(), main.size * block, level, layout, 2 ** main.strip_size * block, count,
            sorted([(r[0], r[1], r[2].reference) for r in rows]))


def ref_config(disks: list[DDFPhysicalDisk]):
    records = [c for d in disks for c in d.virtual_disk_configuration_records]
    vdrs = [v for d in disks for v in d.virtual_disk_records]
    guids = []
    for c in records:
        if c.guid not in guids:
            guids.append(c.guid)
    return {"disks": disks,
            "volumes": [build(g, [c for c in records if c.guid == g], last([v for v in vdrs if v.guid == g]), disks) for g in guids],
            "records": [(last([c for c in records if c.guid == g]), last([v for v in vdrs if v.guid == g])) for g in guids]}


def code_group(disks: list[DDFPhysicalDisk]):
    return [c.physical_disks for c in DDF(disks).configurations]


def ref_group(disks: list[DDFPhysicalDisk]):
    ids = []
    for d in disks:
        if d.anchor.DDF_Header_GUID not in ids:
            ids.append(d.anchor.DDF_Header_GUID)
    return [DDFConfiguration([d for d in disks if d.anchor.DDF_Header_GUID == i]).physical_disks for i in ids]


def code_wrap(fh1: BinaryIO, fh2: BinaryIO, sector_size: int):
    m = DDF([fh1, fh2], sector_size)
    return [d for c in m.configurations for d in c.physical_disks]


def ref_wrap(fh1: BinaryIO, fh2: BinaryIO, sector_size: int):
    a = DDFPhysicalDisk(fh1, sector_size)
    b = DDFPhysicalDisk(fh2, sector_size)
    return [d for c in DDF([a, b]).configurations for d in c.physical_disks]


def code_single(fh: BinaryIO):
    m = DDF(fh)
    return [d for c in m.configurations for d in c.physical_disks]


def ref_single(fh: BinaryIO):
    a = DDFPhysicalDisk(fh, 512)
    return [d for c in DDF([a]).configurations for d in c.physical_disks]


def code_layout(prl: int, rlq: int, srl: int, pec: int, sec: int, vdcr: VirtualDiskConfigurationRecord, vdr: VirtualDiskRecord,
                disks: dict[int, tuple[int, DDFPhysicalDisk]]):
    vdcr.primary_raid_level = prl
    vdcr.raid_level_qualifier = rlq
    vdcr.secondary_raid_level = srl
    vdcr.primary_element_count = pec
    vdcr.secondary_element_count = sec
    v = DDFVirtualDisk(vdcr, vdr, disks)
    return (v.level, v.layout, v.num_disks)


def ref_layout(prl: int, rlq: int, srl: int, pec: int, sec: int, vdcr: VirtualDiskConfigurationRecord, vdr: VirtualDiskRecord,
               disks: dict[int, tuple[int, DDFPhysicalDisk]]):
    return convert(prl, rlq, srl, pec, sec)
'''

GUIDS = [bytes([i * 16 + 3]) * 24 for i in range(3)]
IDS = [bytes([i + 200]) * 24 for i in range(3)]
COMBOS = [(0x1F, 0, 3), (0, 0, 3), (1, 0, 2), (1, 1, 3), (0x11, 0, 3), (0x11, 1, 3), (4, 1, 3), (5, 0, 3), (5, 2, 3), (5, 3, 4), (6, 1, 4), (6, 2, 4),
          (6, 3, 4)]


def _disks(rng, w):
    from vfa.evalr import Opaque
    ety = w.cur_ty[1]
    n = rng.choice((1, 2, 3, 4))
    refs = [rng.randrange(1, 50) for _ in range(5)]
    recs = {}
    lone = {g: rng.choice((0, 0, 0, 1)) for g in GUIDS}
    for g in GUIDS:
        prl, rlq, pec = rng.choice(COMBOS)
        sec = 1
        if prl == 1 and rng.random() < 0.6:
            sec = rng.choice((2, 3))
        recs[g] = (prl, rlq, pec, sec, rng.choice((0, 3, 0, 3, 1)))
    out = []
    for i in range(n):
        key = ("disk", i)
        o = w.of_type(ety, key)
        vdrs = []
        for j in range(rng.choice((2, 3, 3, 4)) if rng.random() < 0.9 else 1):
            k = ("vdr", i, j)
            w.vals[("attr", k, "guid")] = GUIDS[j % 3]
            w.vals[("attr", k, "name")] = rng.choice(("a", "b", "vol%d" % i))
            vdrs.append(Opaque(k))
        vdcrs = []
        for j in range(rng.choice((0, 1, 1, 2, 3))):
            k = ("vdcr", i, j)
            g = rng.choice(GUIDS)
            prl, rlq, pec, sec, srl = recs[g]
            if rng.random() < 0.04:
                rlq = rng.randrange(5)
            m = pec
            seq = [rng.choice(refs + [0xFFFFFFFF, 77]) for _ in range(m)]
            for a, v in (("guid", g), ("primary_raid_level", prl), ("raid_level_qualifier", rlq), ("primary_element_count", pec),
                         ("secondary_element_count", sec), ("secondary_element_seq", rng.randrange(sec) if sec > 1 else lone[g]), ("secondary_raid_level", srl),
                         ("strip_size", rng.randrange(1, 12)), ("size", rng.randrange(10 ** 6)), ("block_size", rng.choice((512, 4096, 0xFFFF))),
                         ("physical_disk_sequence", seq), ("starting_block", [rng.randrange(1000) for _ in range(m)])):
                w.vals[("attr", k, a)] = v
            vdcrs.append(Opaque(k))
        for a, v in (("reference", rng.choice(refs)), ("block_size", rng.choice((512, 520, 4096))), ("virtual_disk_records", vdrs),
                     ("virtual_disk_configuration_records", vdcrs)):
            w.vals[("attr", key, a)] = v
        ak = ("anchor", i)
        w.vals[("attr", key, "anchor")] = Opaque(ak)
        w.vals[("attr", ak, "DDF_Header_GUID")] = rng.choice(IDS)
        out.append(o)
    return out


def _map(rng, w):
    return {0: (0, w.of_type(w.cur_ty[2][1][1], ("disk", 0)))}


PLAIN = {".DDF_Header_GUID": IDS, ".virtual_disk_records": [[]], ".virtual_disk_configuration_records": [[]], ".reference": [1, 2, 3]}
CUT = ["dissect.volume.ddf.ddf.DDFPhysicalDisk"]
DOMAINS = {"disks": _disks, "sector_size": [512, 4096], ".block_size": [512, 0xFFFF], ".strip_size": [3, 7]}
PAIRS = {
    "config": {"samples": 800},
    "group": {"samples": 200},
    "wrap": {"samples": 60, "cut": CUT, "domains": PLAIN},
    "single": {"samples": 30, "cut": CUT, "domains": PLAIN},
    "layout": {"samples": 6000, "domains": {
        "disks": _map, "prl": [0, 1, 2, 3, 4, 5, 6, 0x11, 0x1F, 0x15], "rlq": [0, 1, 2, 3, 4], "srl": [0, 1, 2, 3], "pec": [1, 2, 3, 4],
        "sec": [0, 1, 1, 1, 2, 3]}},
}
