"""C26: evidence is never modified."""
from vfa import effects

TECHNIQUE = "effect analysis over the resolved syntax of the whole package: every call, attribute reference, with block and stream class is classified"
EXPLAIN = ("Every attribute reference, call, with block and stream class of the package is resolved through imports, aliases, local bindings and attribute "
           "assignments; constructs that write to or close a value that may be a supplied stream, or that change files, are violations.")
ASSUME = ["the read paths of dissect.util.stream and dissect.cstruct do not write to or close the streams they are given"]

SAMPLES = {
    "write": "def f(fh):\n    fh.write(b'')\n",
    "attribute": "class A:\n    def __init__(self, fh):\n        self.fh = fh\n    def f(self):\n        self.fh.truncate(0)\n",
    "alias": "def f(fh):\n    w = fh.write\n    w(b'')\n",
    "close": "def f(fh):\n    fh.close()\n",
    "with": "def f(fh):\n    with fh:\n        pass\n",
    "with attribute": "class A:\n    def __init__(self, fh):\n        self.fh = fh\n    def f(self):\n        with self.fh as g:\n            return g.read()\n",
    "wrapper": "import io\ndef f(fh):\n    return io.TextIOWrapper(fh).read()\n",
    "by name": "def f(fh):\n    getattr(fh, 'write')(b'')\n",
    "view": "def f(fh):\n    fh.getbuffer()[0] = 0\n",
    "print": "def f(fh):\n    print('', file=fh)\n",
    "open": "def f(p):\n    return open(p)\n",
    "os": "import os\ndef f(p):\n    os.remove(p)\n",
    "from os": "from os import unlink as rm\ndef f(p):\n    rm(p)\n",
    "dump": "import json\ndef f(fh):\n    json.dump({}, fh)\n",
    "class": "class S(AlignedStream):\n    def write(self, b):\n        return self.x(b)\n",
    "writable": "class S(AlignedStream):\n    def writable(self):\n        return True\n",
    "handle": "class A:\n    def __init__(self, fh: BinaryIO):\n        self.fh = fh\n    def open(self):\n        return self.fh\n",
    "path": "def f(p):\n    p.write_bytes(b'')\n",
}
QUIET = {
    "buffer": "import io\ndef f(fh):\n    b = io.BytesIO()\n    b.write(fh.read(1))\n    b.close()\n",
    "own": "def f(p):\n    with p.open() as s:\n        return s.read()\n",
    "refuse": "class S(AlignedStream):\n    def write(self, b):\n        raise io.UnsupportedOperation('x')\n    def writable(self):\n        return False\n",
    "lock": "import threading\nL = threading.Lock()\ndef f():\n    with L:\n        return 1\n",
    "env": "import os\nX = os.getenv('X', '1')\ndef f(fh):\n    fh.seek(0, os.SEEK_END)\n",
    "range": "class A:\n    def __init__(self, fh: BinaryIO):\n        self.fh = fh\n    def open(self):\n        return RangeStream(self.fh, 0, 1)\n",
}


def rules(repo, tier):
    return effects.run(repo, effects.write_effects, SAMPLES, QUIET, {"modules": 20, "functions": 150, "calls": 500, "classes": 50})
