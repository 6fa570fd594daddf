"""Input files as data: sections with unknown numbers, texts and lists (stands in for configparser and argparse)."""
import numpy as np
from vspec import sym, psym

FILES = {}
TABLES = {}


def table(name, usecols=None):
    """numbers of a text file with columns"""
    t = np.array(TABLES[name])
    if usecols is None:
        return t
    return t[:, list(usecols)]


class File:
    """the opened input file"""

    def __init__(self, name):
        self.name = name

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def close(self):
        pass


class Num:
    """text of a number"""

    def __init__(self, value, whole=False):
        self.value = value
        self.whole = whole

    def split(self, sep=None):
        return [self]

    def strip(self):
        return self

    def __float__(self):
        return self.value

    def __int__(self):
        if self.whole:
            return self.value
        raise ValueError("no whole number")


class Many:
    """text of a comma separated list"""

    def __init__(self, values):
        self.values = values

    def split(self, sep=None):
        if sep == ",":
            return list(self.values)
        return [self]

    def strip(self):
        return self

    def __float__(self):
        raise ValueError("a list")

    def __int__(self):
        raise ValueError("a list")


class Flag:
    """text of a boolean"""

    def __init__(self, value):
        self.value = value

    def split(self, sep=None):
        return [self]

    def __float__(self):
        raise ValueError("a boolean")

    def __int__(self):
        raise ValueError("a boolean")


class Bad:
    """text that is neither a number nor a boolean"""

    def split(self, sep=None):
        return [self]

    def strip(self):
        return self

    def __float__(self):
        raise ValueError("some text")

    def __int__(self):
        raise ValueError("some text")


class Section:
    def __init__(self, name, values):
        self.name = name
        self.content = values

    def keys(self):
        return list(self.content.keys())

    def values(self):
        return list(self.content.values())

    def items(self):
        return list(self.content.items())

    def __contains__(self, key):
        return key in self.content

    def __iter__(self):
        return iter(list(self.content.keys()))

    def __len__(self):
        return len(self.content)

    def __getitem__(self, key):
        if key not in self.content:
            raise KeyError(key)
        return self.content[key]

    def get(self, key, fallback=None):
        if key not in self.content:
            return fallback
        return self.content[key]

    def getfloat(self, key, fallback=None):
        if key not in self.content:
            return fallback
        return float(self.content[key])

    def getint(self, key, fallback=None):
        if key not in self.content:
            return fallback
        return int(self.content[key])

    def getboolean(self, key, fallback=None):
        if key not in self.content:
            return fallback
        v = self.content[key]
        if isinstance(v, Flag):
            return v.value
        raise ValueError("no boolean")


class Parser:
    def __init__(self):
        self.all = {}

    def read(self, name, encoding=None):
        common = FILES[name].get("DEFAULT", {})
        for s, v in FILES[name].items():
            if s != "DEFAULT":
                values = dict(common)
                values.update(v)
                self.all[s] = Section(s, values)
        return [name]

    def read_file(self, f, source=None):
        self.read(f.name)

    def sections(self):
        return list(self.all.keys())

    def has_section(self, name):
        return name in self.all

    def has_option(self, section, key):
        return section in self.all and key in self.all[section]

    def options(self, section):
        return self.all[section].keys()

    def __contains__(self, name):
        return name in self.all

    def __iter__(self):
        return iter(list(self.all.keys()))

    def __getitem__(self, name):
        if name not in self.all:
            raise KeyError(name)
        return self.all[name]

    def get(self, section, key, fallback=None):
        return self.all[section].get(key, fallback)

    def getfloat(self, section, key, fallback=None):
        return self.all[section].getfloat(key, fallback)

    def getint(self, section, key, fallback=None):
        return self.all[section].getint(key, fallback)

    def getboolean(self, section, key, fallback=None):
        return self.all[section].getboolean(key, fallback)


class Args:
    """command line with the input file only"""

    def __init__(self):
        self.input = "input"
        self.log_level = "warning"

    def add_argument(self, *names, **options):
        return None

    def parse_args(self, args=None):
        return self


# ---------------------------------------------------------------- options with unknown values
def f(name):
    return Num(sym(name))


def p(name):
    return Num(psym(name))


def i(value):
    return Num(value, True)


def ints(*v):
    return Many([Num(x, True) for x in v])


def floats(*v):
    return Many([Num(x) for x in v])


def part(name, n):
    """list of n unknown numbers"""
    return Many([Num(sym(name + str(k))) for k in range(n)])
