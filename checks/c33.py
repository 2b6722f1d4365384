"""C33: names of partition types."""
EXPLAIN = ("The value graphs of the type names of a partition are compared with a specification: the code or identifier that is on the disk followed by "
           "the name, for types of the usual tables the words that identify them, for others that they are unknown.")

# code or identifier of a type: words that its name has to have
WORDS = """
0x00 empty
0x18 smartsleep
0x3c partitionmagic
0x44 goback
0x51 novell
0x52 cp/m
0x64 pc-armour
0x9f bsd/os
0xa0 hibernation
0xa1 hibernation
0xbb boot wizard
0xd8 cp/m
0xde dell
0xdf dg/ux
d3bfe2de-3daf-11df-ba40-e3a556d89593 intel fast
f4019732-066e-4e12-8273-346c5641494f sony
bfbfafe7-a34f-448a-9a5b-6213eb736c22 lenovo
6a9630d1-1dd2-11b2-99a6-080020736631 solaris reserved
6a980767-1dd2-11b2-99a6-080020736631 solaris reserved
6a96237f-1dd2-11b2-99a6-080020736631 solaris reserved
6a8d2ac7-1dd2-11b2-99a6-080020736631 solaris reserved
2e0a753d-9e48-43b0-8337-b15192cb1b5e chromeos future
2568845d-2332-4675-bc39-8fa5a4748d15 android bootloader
114eaffe-1552-4022-b26e-9b053604cf84 android bootloader 2
49a4d17f-93a3-45c1-a0de-f50b2ebe2599 android boot
4177c722-9e92-4aab-8644-43502bfd5506 android recovery
ef32a33b-a409-486c-9141-9ffb711f6266 android misc
20ac26be-20b7-11e3-84c5-6cfdb94711e9 android metadata
c5a0aeec-13ea-11e5-a1b1-001e67ca0c3c android vendor
bd59408b-4514-490d-bf12-9878d963f378 android config
8f68cc74-c5e5-48da-be91-a0c8c15e9c80 android factory
9fdaa6ef-4b3f-40d2-ba8d-bff16bfb887b android factory
767941d0-2085-11e3-ad3b-6cfdb94711e9 android fastboot
ac6d7924-eb71-4df8-b48d-e267b27148ff android oem
ebc597d0-2053-4b15-8b64-e0aac75f4db1 android persistent
0x01 fat12
0x04 fat16
0x05 extended
0x06 fat16
0x07 ntfs
0x0b fat32
0x0c fat32 lba
0x0e fat16 lba
0x0f extended lba
0x11 hidden fat12
0x14 hidden fat16
0x16 hidden fat16
0x1b hidden fat32
0x1c hidden fat32 lba
0x1e hidden fat16 lba
0x39 plan 9
0x42 dynamic
0x63 unix
0x82 swap
0x83 linux
0x84 hibernation
0x85 linux extended
0x86 ntfs
0x87 ntfs
0xa5 freebsd
0xa6 openbsd
0xa8 mac
0xa9 netbsd
0xab mac boot
0xaf hfs
0xb7 bsdi
0xb8 bsdi swap
0xbe solaris boot
0xeb bfs
0xee gpt
0xef efi system
0xfb vmware
0xfc vmware swap
00000000-0000-0000-0000-000000000000 unused
024dee41-33e7-11d3-9d69-0008c781f39f mbr
c12a7328-f81f-11d2-ba4b-00a0c93ec93b efi system
21686148-6449-6e6f-744e-656564454649 bios boot
e3c9e316-0b5c-4db8-817d-f92df00215ae microsoft reserved
ebd0a0a2-b9e5-4433-87c0-68b6b72699c7 basic data
5808c8aa-7e8f-42e0-85d2-e1e90434cfb3 disk manager metadata
af9b60a0-1431-4f62-bc68-3311714a69ad disk manager data
de94bba4-06d1-4d40-a16a-bfd50179d6ac windows recovery
37affc90-ef7d-4e96-91c3-2d7ae055b174 gpfs
e75caf8f-f680-4cee-afa3-b001e56efc2d storage spaces
75894c1e-3aeb-11d3-b7c1-7b03a0000000 hp-ux data
e2a1e728-32e3-11d6-a682-7b03a0000000 hp-ux service
0fc63daf-8483-4772-8e79-3d69d8477de4 linux data
a19d880f-05fc-4d3b-a006-743f0f84911e linux raid
44479540-f297-41b2-9af7-d131d5f0458a linux root x86
4f68bce3-e8cd-4db1-96e7-fbcaf984b709 linux root x86-64
69dad710-2ce4-4e3c-b16c-21a1d49abed3 linux root 32-bit arm
b921b045-1df0-41c3-af44-4c6f280d3fae linux root 64 arm
993d8d3d-f80e-4225-855a-9daf8ed7ea97 linux root ia-64
0657fd6d-a4ab-43c4-84e5-0933c84b4f4f linux swap
e6d6d379-f507-44c2-a23c-238f2a3df928 linux lvm
933ac7e1-2eb4-4f13-b844-0e14e2aef915 linux /home
3b8f8425-20e0-4f3b-907f-1a25a76f98e8 linux /srv
7ffec5c9-2d00-49b7-8941-3ea10a5586b7 linux dm-crypt
ca7d7ccb-63ed-4c53-861c-1742536059cc luks
8da63339-0007-60c0-c436-083ac8230908 linux reserved
83bd6b9d-7f41-11dc-be0b-001560b84f0f freebsd boot
516e7cb4-6ecf-11d6-8ff8-00022d09712b freebsd data
516e7cb5-6ecf-11d6-8ff8-00022d09712b freebsd swap
516e7cb6-6ecf-11d6-8ff8-00022d09712b freebsd ufs
516e7cb8-6ecf-11d6-8ff8-00022d09712b freebsd vinum
516e7cba-6ecf-11d6-8ff8-00022d09712b freebsd zfs
9d087404-1ca5-11dc-8817-01301bb8a9f5 dragonfly disklabel32
3d48ce54-1d16-11dc-8696-01301bb8a9f5 dragonfly disklabel64
48465300-0000-11aa-aa11-00306543ecac apple hfs+
55465300-0000-11aa-aa11-00306543ecac apple ufs
52414944-0000-11aa-aa11-00306543ecac apple raid
52414944-5f4f-11aa-aa11-00306543ecac apple raid offline
426f6f74-0000-11aa-aa11-00306543ecac apple boot
4c616265-6c00-11aa-aa11-00306543ecac apple label
5265636f-7665-11aa-aa11-00306543ecac apple tv
53746f72-6167-11aa-aa11-00306543ecac core storage
7c3457ef-0000-11aa-aa11-00306543ecac apfs
6a82cb45-1dd2-11b2-99a6-080020736631 solaris boot
6a85cf4d-1dd2-11b2-99a6-080020736631 solaris root
6a87c46f-1dd2-11b2-99a6-080020736631 solaris swap
6a8b642b-1dd2-11b2-99a6-080020736631 solaris backup
6a898cc3-1dd2-11b2-99a6-080020736631 solaris /usr
6a8ef2e9-1dd2-11b2-99a6-080020736631 solaris /var
6a90ba39-1dd2-11b2-99a6-080020736631 solaris /home
6a9283a5-1dd2-11b2-99a6-080020736631 solaris alternate
6a945a3b-1dd2-11b2-99a6-080020736631 solaris reserved
49f48d32-b10e-11dc-b99b-0019d1879648 netbsd swap
49f48d5a-b10e-11dc-b99b-0019d1879648 netbsd ffs
49f48d82-b10e-11dc-b99b-0019d1879648 netbsd lfs
49f48daa-b10e-11dc-b99b-0019d1879648 netbsd raid
2db519c4-b10f-11dc-b99b-0019d1879648 netbsd concatenated
2db519ec-b10f-11dc-b99b-0019d1879648 netbsd encrypted
fe3a2a5d-4f32-41a7-b725-accc3285a309 chromeos kernel
3cb8e202-3b7e-47dd-8a3c-7ff2a13cfcec chromeos root
42465331-3ba3-10f1-802a-4861696b7521 haiku
85d5e45e-237c-11e1-b4b3-e89a8f7fc3a7 midnightbsd boot
85d5e45a-237c-11e1-b4b3-e89a8f7fc3a7 midnightbsd data
85d5e45b-237c-11e1-b4b3-e89a8f7fc3a7 midnightbsd swap
0394ef8b-237e-11e1-b4b3-e89a8f7fc3a7 midnightbsd ufs
85d5e45c-237c-11e1-b4b3-e89a8f7fc3a7 midnightbsd vinum
85d5e45d-237c-11e1-b4b3-e89a8f7fc3a7 midnightbsd zfs
45b0969e-9b03-4f30-b4c6-b4b80ceff106 ceph journal
45b0969e-9b03-4f30-b4c6-5ec00ceff106 ceph dm-crypt journal
4fbd7e29-9d25-41b8-afd0-062c0ceff05d ceph osd
4fbd7e29-9d25-41b8-afd0-5ec00ceff05d ceph dm-crypt osd
89c57f98-2fe5-4dc0-89c1-f3ad0ceff2be ceph creation
89c57f98-2fe5-4dc0-89c1-5ec00ceff2be ceph dm-crypt creation
824cc7a0-36a8-11e3-890a-952519ad3f61 openbsd
cef5a9ad-73bc-4601-89f3-cdeeeee321a1 qnx
c91818f9-8025-47af-89d2-f030d7000c2c plan 9
9d275380-40ad-11db-bf97-000c2911d1b8 vmware vmkcore
aa31e02a-400f-11db-9590-000c2911d1b8 vmfs
9198effc-31c0-11db-8f78-000c2911d1b8 vmware reserved
38f428e6-d326-425d-9140-6e0ea133647c android system
a893ef21-e428-470a-9e55-0668fd91a2d9 android cache
dc76dda9-5ac1-491c-af42-a82591580c0d android data
7412f7d5-a156-4b13-81dc-867174929325 onie boot
d4e6e2cd-4469-46f3-b5cb-1bff57afc149 onie config
9e1a2d38-c612-4316-aa26-8b49521e5a8b prep
bc13c2ff-59e6-4262-a352-b275fd6f7172 extended boot
""".strip().splitlines()
# file system of a BSD label: words that its name has to have
SYSTEMS = {0: "unused", 1: "swap", 2: "6", 3: "7", 4: "system v", 5: "4.1", 6: "eighth", 7: "4.2bsd", 8: "msdos", 9: "lfs", 10: "unknown", 11: "hpfs",
           12: "iso9660", 13: "boot", 14: "vinum", 15: "raid", 16: "filecore", 17: "ext2", 18: "ntfs", 20: "ccd", 21: "jfs", 22: "hammer", 23: "hammer2",
           24: "udf", 26: "efs", 27: "zfs", 30: "nandfs"}


def _known():
    rows = [r.split() for r in WORDS]
    out = "\n\ndef code_known(disk: MBR):\n    out = {}\n"
    for t, *words in rows:
        v = t if t.startswith("0x") else f'UUID("{t}")'
        out += f'    out["{t}"] = holds(Partition(disk, 1, 0, 512, {v}), {words!r})\n'
    out += "    return out\n\n\ndef ref_known(disk: MBR):\n    return {" + ", ".join(f'"{r[0]}": {[True] * (len(r) - 1)!r}' for r in rows) + "}\n"
    return out


HARNESS = '''
from __future__ import annotations
from typing import BinaryIO
from uuid import UUID
from dissect.volume.disk.partition import Partition
from dissect.volume.disk.schemes import BSD, MBR
from vfa import u


def holds(p, words):
    name = p.type_name.lower()
    return [w in name for w in words]


def code_number(disk: MBR, type: int):
    p = Partition(disk, 1, 0, 512, type)
    return {"str": p.type_str, "given": Partition(disk, 1, 0, 512, type, type_str="given").type_str, "type": p.type}


def ref_number(disk: MBR, type: int):
    p = Partition(disk, 1, 0, 512, type)
    return {"str": f"{hex(type)} ({p.type_name})", "given": "given", "type": type}


def code_uuid(disk: MBR, type: UUID):
    p = Partition(disk, 1, 0, 512, type)
    return {"str": p.type_str, "type": p.type}


def ref_uuid(disk: MBR, type: UUID):
    p = Partition(disk, 1, 0, 512, type)
    return {"str": f"{type} ({p.type_name})", "type": type}


def code_text(disk: MBR, type: str):
    p = Partition(disk, 1, 0, 512, type)
    return {"str": p.type_str, "name": p.type_name, "type": p.type}


def ref_text(disk: MBR, type: str):
    return {"str": type, "name": type, "type": type}


def code_unknown(disk: MBR, type: int, ident: UUID):
    return (Partition(disk, 1, 0, 512, type).type_name, Partition(disk, 1, 0, 512, ident).type_name)


def ref_unknown(disk: MBR, type: int, ident: UUID):
    return ("Unknown", "Unknown")


def code_label(fh: BinaryIO):
    return [word(p.type, p.type_str) for p in BSD(fh).partitions]


def ref_label(fh: BinaryIO):
    return [True for p in BSD(fh).partitions]


def word(t, name):
    table = %r
    if t in table:
        return table[t] in name.lower()
    return name == "?" or t < 40
''' % (SYSTEMS,) + _known()

from checks.common import Img, num  # noqa: E402


def _fh(rng, w):
    """A disk label whose partitions have any kind of file system."""
    from vfa.evalr import HVal
    h = HVal(("sym", "fh"))
    img = Img(w, h)
    n = rng.choice((1, 2, 3))
    if rng.random() < 0.6:
        img.put(512, 0x82564557, 4)
        img.put(512 + 40, 512, 4)
        img.put(512 + 132, 0x82564557, 4)
        img.put(512 + 138, n, 2)
        for i in range(n):
            img.put(512 + 148 + 16 * i, rng.randrange(1, 5000), 4)
            img.put(512 + 152 + 16 * i, rng.randrange(5000), 4)
            img.put(512 + 160 + 16 * i, rng.choice((rng.randrange(32), rng.randrange(256))), 1)
    else:
        img.put(0, 0xC4464C59, 4)
        img.put(12, n, 4)
        for i in range(n):
            img.put(200 + 64 * i, rng.randrange(5000) * 512, 8)
            img.put(208 + 64 * i, rng.randrange(1, 5000) * 512, 8)
            img.put(216 + 64 * i, rng.choice((rng.randrange(32), rng.randrange(256))), 1)
    return h


def _free(rng, w):
    from vfa.evalr import Opaque
    return rng.choice((0x100, 0x1234, 256 + rng.randrange(10**6)))


DOMAINS = {"fh": _fh}
from uuid import UUID  # noqa: E402

IDENT = ["0fc63daf-8483-4772-8e79-3d69d8477de4", "c12a7328-f81f-11d2-ba4b-00a0c93ec93b"]
PAIRS = {
    "known": {"samples": 1},
    "number": {"samples": 100, "domains": {"type": list(range(256)) + [300, 0x1234]}},
    "uuid": {"samples": 20, "domains": {"type": [UUID(x) for x in IDENT] + [UUID(int=0x1234ABCD << 70 | 0xFACE)]}},
    "text": {"samples": 20, "domains": {"type": ["Apple_HFS", "Apple_partition_map", "", "x"]}},
    "unknown": {"samples": 20, "domains": {"type": _free}},
    "label": {"samples": 60},
}
