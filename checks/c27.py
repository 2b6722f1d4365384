"""C27: input is never executed and reaches nothing outside."""
from vfa import effects

TECHNIQUE = "effect analysis over the resolved syntax of the whole package: every name, import, call and reflective access is classified"
EXPLAIN = ("Every name, import, attribute and call of the package is resolved through imports and aliases; evaluation, execution, unpickling, file, program and "
           "network access are violations, and so are attribute names, format strings and structure definitions that do not come from the program text.")

SAMPLES = {
    "eval": "def f(s):\n    return eval(s)\n",
    "alias": "e = eval\ndef f(s):\n    return e(s)\n",
    "argument": "def f(s):\n    return list(map(exec, s))\n",
    "pickle": "import pickle\ndef f(s):\n    return pickle.loads(s)\n",
    "from": "from pickle import loads as parse\ndef f(s):\n    return parse(s)\n",
    "system": "import os\ndef f(s):\n    os.system(s)\n",
    "open": "def f(s):\n    return open(s, 'rb')\n",
    "exists": "import os\ndef f(s):\n    return os.path.exists(s)\n",
    "network": "from urllib.request import urlopen\ndef f(s):\n    return urlopen(s)\n",
    "import": "import importlib\ndef f(s):\n    return importlib.import_module(s)\n",
    "getattr": "def f(o, fh):\n    return getattr(o, fh.read(4).decode())\n",
    "setattr": "def f(o, d):\n    for k, v in d.items():\n        setattr(o, k, v)\n",
    "globals": "def f(k):\n    return globals()[k]\n",
    "globals get": "def f(k):\n    g = globals()\n    return g.get(k)\n",
    "builtins": "def f(k):\n    return getattr(__builtins__, 'eval')(k)\n",
    "field format": "class A:\n    name: str\n    def f(self):\n        return self.name.format(self)\n",
    "dict": "def f(o, d):\n    o.__dict__.update(d)\n",
    "format": "def f(fh, o):\n    return fh.read(9).decode().format(o)\n",
    "definition": "def f(fh):\n    return cstruct().load(fh.read(9).decode())\n",
    "path": "from pathlib import Path\ndef f(s):\n    return Path(s).read_bytes()\n",
}
QUIET = {
    "literal": "import ast\ndef f(s):\n    return ast.literal_eval(s)\n",
    "regex": "import re\nR = re.compile('x')\ndef f(s):\n    return R.match(s)\n",
    "declared": "def f(self, d):\n    for k, t in get_type_hints(type(self)).items():\n        setattr(self, k, d[k])\n",
    "constants": "def f(o):\n    return [getattr(o, n) for n in ('a', 'b')]\n",
    "helper": "def g(o, n):\n    return getattr(o, 'x_' + n)\ndef f(o):\n    return g(o, 'a') + g(o, n='b')\n",
    "format": "S = 'x {}'\ndef f(o):\n    return S.format(o)\n",
    "field format": "class A:\n    T = '{}'\n    def __init__(self):\n        self.u = '{0}'\n    def f(self):\n        return self.T.format(1) + type(self).T.format(2) + self.u.format(3)\n",
    "own globals": "def f(d):\n    return globals().get('A'), d.get(1)\n",
    "own open": "def f(p):\n    return p.open()\n",
    "shadow": "def f(p):\n    compile = p.compile\n    return compile(1)\n",
}


def rules(repo, tier):
    return effects.run(repo, effects.exec_effects, SAMPLES, QUIET, {"modules": 20, "functions": 150, "calls": 500, "imports": 60})
