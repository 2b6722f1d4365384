"""C16: Vinum configuration language."""
EXPLAIN = ("The value graph of parsing a Vinum configuration is compared with the graph of a specification that splits lines and tokens "
           "as a whole and reads the keyword/value pairs of each line.")

HARNESS = '''
from __future__ import annotations
from dissect.volume.vinum.config import parse_vinum_config, Volume, Plex, SD, VolumeState, PlexState, PlexOrg, SDState
from vfa import u, raw, typed


def state_name(s):
    return None if s is None else s.name


def code_parse(when: int, config: bytes):
    c = parse_vinum_config(when, config)
    return {
        "volumes": [(v.timestamp, v.name, state_name(v.state)) for v in c["volumes"]],
        "plexes": [(p.timestamp, p.name, state_name(p.org), p.stripesize, p.volume, state_name(p.state)) for p in c["plexes"]],
        "sds": [(s.timestamp, s.drive, s.name, s.length, s.driveoffset, s.plex, s.plexoffset, state_name(s.state)) for s in c["sds"]],
    }


UNITS = {b"b": 512, b"B": 512, b"s": 512, b"S": 512, b"k": 1024, b"K": 1024, b"m": 1048576, b"M": 1048576, b"g": 1073741824, b"G": 1073741824}


def number(word):
    unit = word.lstrip(b"-0123456789")
    digits = word[: len(word) - len(unit)]
    sign = 1
    if digits[:1] == b"-":
        sign = -1
        digits = digits[1:]
    if not digits.isdigit():
        return 0
    return sign * int(digits) * UNITS.get(unit[:1], 1)


def org(word):
    return {b"concat": "CONCAT", b"striped": "STRIPED", b"raid5": "RAID5"}.get(word, "DISORG")


def usable(word):
    return {b"up": "UP", b"initializing": "INITIALIZING", b"degraded": "DEGRADED", b"growable": "GROWABLE"}.get(word, "DOWN")


def words(line):
    """The tokens of a line and whether it can be tokenised."""
    out = []
    for word in line.replace(b"\\t", b" ").split(b" "):
        if word == b"":
            continue
        if word[:1] == b"#":
            return out, True
        if word[:1] in (b'"', b"'"):
            return out, False
        out.append(word)
    return out, True


def volume(when, ws):
    name = None
    state = None
    at = 1
    while at < len(ws):
        if ws[at] == b"state":
            if at + 1 >= len(ws):
                return None
            state = "UP" if ws[at + 1] == b"up" else "DOWN"
            at += 2
        else:
            name = ws[at]
            at += 1
    if name is None:
        return None
    return (when, name, state)


def plex(when, ws):
    name = None
    how = None
    stripe = None
    vol = None
    state = None
    at = 1
    while at < len(ws):
        key = ws[at]
        if key not in (b"name", b"org", b"vol", b"volume", b"state"):
            return None
        if at + 1 >= len(ws):
            return None
        value = ws[at + 1]
        at += 2
        if key == b"name":
            name = value
        elif key == b"state":
            state = usable(value)
        elif key == b"org":
            how = org(value)
            if how in ("STRIPED", "RAID5"):
                if at >= len(ws):
                    return None
                stripe = number(ws[at])
                if stripe <= 0:
                    return None
                at += 1
        else:
            vol = value
    return (when, name, how, stripe, vol, state)


def subdisk(when, ws):
    name = None
    drive = None
    length = None
    at_drive = None
    owner = None
    at_plex = None
    state = None
    at = 1
    while at < len(ws):
        key = ws[at]
        if key not in (b"name", b"drive", b"len", b"length", b"driveoffset", b"plex", b"plexoffset", b"state"):
            return None
        if at + 1 >= len(ws):
            return None
        value = ws[at + 1]
        at += 2
        if key == b"name":
            name = value
        elif key == b"drive":
            drive = value
        elif key == b"len" or key == b"length":
            length = max(number(value), -1)
        elif key == b"driveoffset":
            at_drive = number(value)
            if at_drive != 0 and at_drive < 135680:
                return None
        elif key == b"plex":
            owner = value
        elif key == b"plexoffset":
            at_plex = number(value)
            if at_plex < 0:
                return None
        else:
            state = usable(value)
    if drive is None:
        return None
    return (when, drive, name, length, at_drive, owner, at_plex, state)


def ref_parse(when: int, config: bytes):
    volumes = []
    plexes = []
    sds = []
    for line in config.replace(b"\\x00", b"\\n").split(b"\\n"):
        ws, good = words(line)
        if len(ws) == 0 and good:
            continue
        if not good:
            break
        item = None
        if ws[0] == b"volume":
            item = volume(when, ws)
            if item is not None:
                volumes.append(item)
        elif ws[0] == b"plex":
            item = plex(when, ws)
            if item is not None:
                plexes.append(item)
        elif ws[0] == b"sd":
            item = subdisk(when, ws)
            if item is not None:
                sds.append(item)
        if item is None:
            break
    return {"volumes": volumes, "plexes": plexes, "sds": sds}
'''

SIZES = [b"0", b"1", b"512", b"265b", b"265s", b"265S", b"266B", b"135680s", b"135679", b"135680", b"135681", b"-1", b"-5k", b"10k", b"3K", b"2m", b"7M",
         b"1g", b"4G", b"12x", b"", b"k", b"-", b"--3", b"1-2", b"256kb", b"300000", b"0k", b"-0", b"k12", b"5t", b"6T", b"0x200", b"1.5m", b"+4", b"1_0", b"7\r", b"00512"]
STATES = [b"up", b"down", b"initializing", b"degraded", b"growable", b"obsolete", b"UP", b""]
NAMES = [b"a", b"vol0", b"p0", b"vol0.p0", b"vol0.p0.s1", b"d1", b"x#y", b"q\"z", b"up", b"volume", b"name", b"v\rw", b"w\x0bx\x0c", b"d1\r", b"\xc3\xa9\xa0", b"V0", b"a=b,c;d"]


def _line(rng):
    k = rng.random()
    if k < 0.05:
        return rng.choice((b"", b"  ", b"# comment", b"\t#x", b" \t "))
    if k < 0.08:
        return rng.choice((b"drive a", b"foo", b"Volume a", b"volum a"))
    kind = rng.choice((b"volume", b"plex", b"sd"))
    w = [kind if rng.random() < 0.97 else rng.choice((b"drive", b"subdisk", b"SD", b"volumes", b"Plex", b"sdx"))]
    if kind == b"volume":
        for _ in range(rng.choice((1, 1, 2, 2, 3))):
            w += rng.choice(([rng.choice(NAMES)], [b"state", rng.choice(STATES)]))
    elif kind == b"plex":
        for _ in range(rng.choice((1, 2, 3, 4, 4))):
            key = rng.choice((b"name", b"org", b"vol", b"volume", b"state"))
            if key == b"org":
                o = rng.choice((b"concat", b"striped", b"raid5", b"foo", b"raid5"))
                w += [key, o] + ([rng.choice(SIZES)] if o in (b"striped", b"raid5") else [])
            else:
                w += [key, rng.choice(STATES if key == b"state" else NAMES)]
    else:
        if rng.random() < 0.9:
            w += [b"drive", rng.choice(NAMES)]
        for _ in range(rng.choice((1, 2, 3, 4, 6))):
            key = rng.choice((b"name", b"drive", b"len", b"length", b"driveoffset", b"plex", b"plexoffset", b"state", b"driveoffset", b"plexoffset"))
            w += [key, rng.choice(STATES if key == b"state" else NAMES if key in (b"name", b"drive", b"plex") else SIZES)]
    if rng.random() < 0.06:
        w.append(rng.choice((b"foo", b"state", b"name", b'"q"', b"'q", b"#c", b"#", b"org", b"len")))
    if rng.random() < 0.03:
        w.insert(rng.randrange(len(w)), rng.choice((b"foo", b'"', b"#c")))
    sep = lambda: rng.choice((b" ", b" ", b" ", b"\t", b"  ", b" \t"))
    out = rng.choice((b"", b"", b" ", b"\t"))
    for x in w:
        out += x + sep()
    return out if rng.random() < 0.3 else out.rstrip(b" \t")


def _config(rng, w):
    out = b""
    for _ in range(rng.choice((1, 1, 2, 3, 5))):
        out += _line(rng) + rng.choice((b"\n", b"\n", b"\n", b"\0", b"\n\n"))
    return out


DOMAINS = {"config": _config, "when": [5, 6]}
PAIRS = {"parse": {"samples": 1500, "budget": 120}}
