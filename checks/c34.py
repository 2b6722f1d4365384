"""C34: every opening gives a stream of its own."""
from vfa import history

TECHNIQUE = "origin analysis over the resolved syntax: the value every opening function returns is traced to the call that makes it"
EXPLAIN = ("Every value that a function for opening returns is traced through local names, conditional expressions, properties and helper methods of the object to where "
           "it is made. A value that is kept in an attribute, a container, a module or a cache, or that was supplied, is a violation: it would be handed out again.")

SAMPLES = {
    "attribute": "class A:\n    def __init__(self, fh):\n        self.s = S(fh)\n    def open(self):\n        return self.s\n",
    "lazy": "class A:\n    def __init__(self):\n        self.s = None\n    def open(self):\n        if self.s is None:\n            self.s = S()\n        return self.s\n",
    "local": "class A:\n    def __init__(self):\n        self.s = {}\n    def open(self, k):\n        r = self.s.get(k)\n        if r is None:\n            r = self.s[k] = S()\n"
             "        return r\n",
    "container": "class A:\n    def open(self, k):\n        if k not in self.c:\n            self.c[k] = S()\n        return self.c[k]\n",
    "cached property": "from functools import cached_property\nclass A:\n    @cached_property\n    def s(self):\n        return S()\n    def open(self):\n        return self.s\n",
    "cache": "from functools import lru_cache\nclass A:\n    @lru_cache\n    def open(self):\n        return S()\n",
    "wrapped": "from functools import lru_cache\nclass A:\n    def __init__(self):\n        self.open = lru_cache(4)(self.open)\n    def open(self):\n        return S()\n",
    "helper": "class A:\n    def __init__(self):\n        self.s = S()\n    def _get(self):\n        return self.s\n    def open(self):\n        return self._get()\n",
    "class": "class S(AlignedStream):\n    made = {}\n    def __new__(cls, k):\n        if k not in cls.made:\n            cls.made[k] = super().__new__(cls)\n        return cls.made[k]\n",
    "supplied": "class A:\n    def __init__(self, fh: BinaryIO):\n        self.fh = fh\n    def open(self):\n        return self.fh\n",
    "supplied elsewhere": "class D:\n    def __init__(self, fh: BinaryIO):\n        self.fh = fh\nclass A:\n    def open(self):\n        d = self.first()\n        return d.fh\n",
    "module": "C = {}\ndef open_one(k):\n    if k not in C:\n        C[k] = S(k)\n    return C[k]\n",
}
QUIET = {
    "new": "class A:\n    def __init__(self, fh):\n        self.fh = fh\n    def open(self):\n        return S(self.fh)\n",
    "local": "class A:\n    def open(self):\n        s = S()\n        s.add(1)\n        return s\n",
    "property": "class A:\n    @property\n    def s(self):\n        return S()\n    def open(self):\n        return self.s\n",
    "member": "class A:\n    def open(self):\n        for d in self.disks:\n            s = d.open()\n            return R(s) if self.n else s\n",
    "choice": "K = {}\nclass A:\n    def open(self):\n        return self.kinds[self.k](self) if self.k else R(self)\n",
    "helper": "class A:\n    def _make(self, n):\n        return S(n)\n    def open(self):\n        return self._make(2) or None\n",
}


def rules(repo, tier):
    return history.run_opening(repo, SAMPLES, QUIET)
