"""C17: Vinum drives and volumes."""
EXPLAIN = ("The value graphs of decoding a Vinum drive and of assembling volumes from drives are compared with a specification of the "
           "header layout, the merge of configurations and the selection and placement of plexes and subdisks.")

HARNESS = '''
from __future__ import annotations
from typing import BinaryIO
from dissect.util import ts
from dissect.volume.vinum.vinum import Vinum, VinumConfiguration, VinumPhysicalDisk
from dissect.volume.vinum.config import parse_vinum_config, PlexState, PlexOrg, SDState
from vfa import u, raw, ssize, runs


def code_drive(fh: BinaryIO):
    d = VinumPhysicalDisk(fh)
    return {"active": d.active, "id": d.id, "name": d.name, "when": d.config_time, "offset": d.offset, "size": d.size, "fh": d.fh,
            "config": d.config, "config2": d.config2, "window": runs(d.open())}


def ref_drive(fh: BinaryIO):
    magic = u(fh, 4096, 8, ">")
    if magic == 0x494E2056494E4F00 or magic == 0x56494E554D2D3100:
        active = True
    elif magic == 0x4E4F2056494E4F00 or magic == 0x56494E554D2D2D00:
        active = False
    else:
        raise ValueError()
    length = u(fh, 4104, 8, ">")
    name = raw(fh, 4144, 32).rstrip(b"\\x00")
    sec = u(fh, 4192, 8, ">")
    usec = u(fh, 4200, 8, ">")
    size = u(fh, 4208, 8, ">")
    if size == 0:
        size = ssize(fh)
    return {"active": active, "id": name, "name": name.decode(errors="backslashreplace"), "when": ts.from_unix(sec + usec * 1e-6),
            "offset": 135680, "size": size, "fh": fh, "config": raw(fh, 4608, length), "config2": raw(fh, 70144, length),
            "window": runs([(0, size, fh, 135680)])}


def disks_of(v):
    return [(k, x[0], x[1].id) for k, x in v.disk_map.items()]


def view(v):
    if v.level == 1:
        return (v.name, v.uuid, v.size, v.level, v.layout, v.stripe_size, v.num_disks,
                [(k, x[0], x[1].name, x[1].uuid, x[1].size, x[1].level, x[1].layout, x[1].stripe_size, x[1].num_disks, disks_of(x[1]))
                 for k, x in v.disk_map.items()])
    return (v.name, v.uuid, v.size, v.level, v.layout, v.stripe_size, v.num_disks, disks_of(v))


def code_volumes(drives: list[VinumPhysicalDisk]):
    c = VinumConfiguration(drives)
    return {"disks": c.physical_disks, "volumes": [view(v) for v in c.virtual_disks]}


def newest(items):
    out = []
    for i in items:
        if len([x for x in out if x.name == i.name]) == 0:
            out.append(newest_of([x for x in items if x.name == i.name]))
    return out


def newest_of(items):
    best = items[0]
    for i in items:
        if i.timestamp > best.timestamp:
            best = i
    return best


def plex_disk(volume, plex, sds, present):
    """The volume a plex makes, or None when none of its subdisks can be used."""
    order = sorted(sds, key=lambda s: s.plexoffset)
    rows = []
    for i in range(len(order)):
        s = order[i]
        if s.state == SDState.DOWN or s.state == SDState.DEGRADED or s.state == SDState.INITIALIZING:
            continue
        found = [d for d in present if d.id == s.drive]
        if len(found) == 0:
            continue
        d = found[len(found) - 1]
        at = 0
        if s.driveoffset is not None and s.driveoffset > 135680:
            at = s.driveoffset - 135680
        rows.append((i, at, d.id))
    if len(rows) == 0:
        return None
    if plex.org == PlexOrg.RAID5:
        level, size, stripe = 5, (len(sds) - 1) * sds[0].length, plex.stripesize
    elif plex.org == PlexOrg.STRIPED:
        level, size, stripe = 0, len(sds) * sds[0].length, plex.stripesize
    elif plex.org == PlexOrg.CONCAT:
        level, stripe, size = -1, 0, 0
        for s in sds:
            size += s.length
    else:
        raise ValueError()
    return (volume.name.decode(errors="backslashreplace"), plex.name.decode(errors="surrogateescape"), size, level, 0, stripe, len(sds), rows)


def ref_volumes(drives: list[VinumPhysicalDisk]):
    present = [d for d in drives if d.active]
    parsed = [parse_vinum_config(d.config_time, d.config) for d in present]
    volumes = newest([v for c in parsed for v in c["volumes"]])
    plexes = [p for p in newest([p for c in parsed for p in c["plexes"]])
              if p.state != PlexState.DOWN and p.org != PlexOrg.DISORG and len([v for v in volumes if v.name == p.volume]) > 0]
    sds = newest([s for c in parsed for s in c["sds"]])
    names = []
    for p in plexes:
        if p.volume not in names:
            names.append(p.volume)
    out = []
    for name in names:
        volume = [v for v in volumes if v.name == name][0]
        mine = [p for p in plexes if p.volume == name]
        if len(mine) == 1:
            x = plex_disk(volume, mine[0], [s for s in sds if s.plex == mine[0].name], present)
            if x is not None:
                out.append(x)
        else:
            order = sorted(mine, key=lambda p: p.name)
            rows = []
            for i in range(len(order)):
                x = plex_disk(volume, order[i], [s for s in sds if s.plex == order[i].name], present)
                if x is not None:
                    rows.append((i, 0, x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7]))
            if len(rows) > 0:
                out.append((volume.name.decode(errors="backslashreplace"), volume.name.decode(errors="surrogateescape"), rows[0][4], 1, 0, 0,
                            len(mine), rows))
    if len(out) == 0:
        raise ValueError()
    return {"disks": drives, "volumes": out}


def code_wrap(fh1: BinaryIO, fh2: BinaryIO):
    return [c for c in Vinum([fh1, fh2]).configurations]


def ref_wrap(fh1: BinaryIO, fh2: BinaryIO):
    a = VinumPhysicalDisk(fh1)
    b = VinumPhysicalDisk(fh2)
    return [VinumConfiguration([a, b])]


def code_given(d1: VinumPhysicalDisk, fh2: BinaryIO):
    return [c for c in Vinum([d1, fh2]).configurations]


def ref_given(d1: VinumPhysicalDisk, fh2: BinaryIO):
    b = VinumPhysicalDisk(fh2)
    return [VinumConfiguration([d1, b])]


def code_single(fh: BinaryIO):
    return [c for c in Vinum(fh).configurations]


def ref_single(fh: BinaryIO):
    return [VinumConfiguration([VinumPhysicalDisk(fh)])]
'''


def _config(rng, names, drives):
    """One configuration text; sizes and references are plausible, states and organisations arbitrary."""
    out = []
    for v in names:
        if rng.random() < 0.9:
            out.append("volume %s state %s" % (v, rng.choice(("up", "down"))))
        for p in range(rng.choice((1, 1, 2, 3))):
            pn = "%s.p%d" % (v, p)
            org = rng.choice(("concat", "striped 64k", "raid5 128k", "raid5 512", "striped 1k", "odd")) if rng.random() < 0.95 else None
            if rng.random() < 0.9:
                out.append("plex name %s %s vol %s %s" % (pn, "org " + org if org else "", rng.choice(names) if rng.random() < 0.1 else v,
                                                          rng.choice(("state up", "state up", "state degraded", "state down", "", "state growable"))))
            size = rng.randrange(1, 50) * 1024
            n = rng.choice((0, 1, 2, 3))
            at = [i * size for i in range(n)]
            for i in range(n):
                st = rng.choice(("up", "up", "up", "down", "degraded", "initializing", "growable", None))
                off = rng.choice(("driveoffset 265s", "driveoffset %d" % (135680 + rng.randrange(5) * 4096), "", "driveoffset 0"))
                out.append("sd name %s.s%d drive %s len %d %s plex %s plexoffset %d%s" % (
                    pn, i, rng.choice(drives), size if rng.random() < 0.8 else size + 512, off, pn, at[i], " state " + st if st else ""))
    if rng.random() < 0.6:
        rng.shuffle(out)
    return "\n".join(out[:10]).encode() + b"\n"


def _drives(rng, w):
    from vfa.evalr import HVal
    ety = w.cur_ty[1]
    n = rng.choice((1, 2, 2, 3))
    names = ["a", "b"][: rng.choice((1, 1, 2))]
    ids = ["d1", "d2", "d3"][: n] + (["gone"] if rng.random() < 0.4 else [])
    out = []
    for i in range(n):
        key = ("drive", i)
        o = w.of_type(ety, key)
        text = _config(rng, names, ids)
        h = HVal(("drivefh", i))
        for j, x in enumerate(text):
            w.mem[(h.key, 4608 + j)] = x
        for a, v in (("active", rng.random() < 0.85), ("id", ids[i].encode() if rng.random() < 0.95 else b"d1"), ("config_time", rng.randrange(4)), ("fh", h), ("offset", 135680)):
            w.vals[("attr", key, a)] = v
        for j, x in enumerate(len(text).to_bytes(8, "big")):
            w.mem[(("struct", ("attr", key, "header")), 8 + j)] = x
        out.append(o)
    return out


DOMAINS = {"drives": _drives}
CUT = ["dissect.volume.vinum.vinum.VinumPhysicalDisk", "dissect.volume.vinum.vinum.VinumConfiguration"]
PAIRS = {"drive": {"samples": 600}, "volumes": {"samples": 400, "budget": 150}, "wrap": {"samples": 60, "cut": CUT},
         "given": {"samples": 60, "cut": CUT}, "single": {"samples": 30, "cut": CUT}}
