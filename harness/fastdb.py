"""A Unicode database for the harness: ICU (through munidata/picu) for everything, except that its code point sets are
interval lists.  picu copies a set one code point at a time through ctypes, which makes every complement cost a second."""
from munidata.database import PICUDatabase

TOP = 0x10FFFF


def norm(iv):
    out = []
    for a, b in sorted(iv):
        if out and a <= out[-1][1] + 1:
            if b > out[-1][1]:
                out[-1] = (out[-1][0], b)
        else:
            out.append((a, b))
    return out


def comp(iv):
    out, n = [], 0
    for a, b in iv:
        if a > n:
            out.append((n, a - 1))
        n = b + 1
    if n <= TOP:
        out.append((n, TOP))
    return out


def inter(x, y):
    out, i, j = [], 0, 0
    while i < len(x) and j < len(y):
        a, b = max(x[i][0], y[j][0]), min(x[i][1], y[j][1])
        if a <= b:
            out.append((a, b))
        if x[i][1] < y[j][1]:
            i += 1
        else:
            j += 1
    return out


class FastSet(object):
    def __init__(self, iterable=None, freeze=False, iv=None):
        if iv is not None:
            self.iv = list(iv)
        elif isinstance(iterable, FastSet):
            self.iv = list(iterable.iv)
        elif not iterable:
            self.iv = []
        else:
            self.iv = norm([(int(c), int(c)) for c in iterable])
        self.frozen = bool(freeze)

    def _chk(self):
        assert not self.frozen, 'cannot modify frozen set'

    def freeze(self):
        self.frozen = True

    def is_frozen(self):
        return self.frozen

    def add(self, cp):
        self._chk()
        if not isinstance(cp, int):
            raise ValueError('%r is not an integer' % (cp,))
        self.iv = norm(self.iv + [(cp, cp)])

    def update(self, other):
        self._chk()
        self.iv = norm(self.iv + (other.iv if isinstance(other, FastSet) else [(int(c), int(c)) for c in other]))

    def remove(self, cp):
        self._chk()
        self.iv = inter(self.iv, comp([(cp, cp)]))

    discard = remove

    def __len__(self):
        return sum(b - a + 1 for a, b in self.iv)

    def __iter__(self):
        for a, b in list(self.iv):
            for c in range(a, b + 1):
                yield c

    def ranges(self):
        return iter(list(self.iv))

    def __contains__(self, cp):
        if isinstance(cp, str):
            cp = ord(cp)
        return any(a <= cp <= b for a, b in self.iv)

    @staticmethod
    def _iv(o):
        return o.iv if isinstance(o, FastSet) else FastSet(o).iv

    def __and__(self, o):
        return FastSet(iv=inter(self.iv, self._iv(o)))

    def __or__(self, o):
        return FastSet(iv=norm(self.iv + self._iv(o)))

    def __sub__(self, o):
        return FastSet(iv=inter(self.iv, comp(self._iv(o))))

    def __xor__(self, o):
        return (self | o) - (self & o)

    def complement(self):
        self._chk()
        self.iv = comp(self.iv)

    def copy(self):
        return FastSet(self)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return FastSet(self)

    def __str__(self):
        def e(c):   # as ICU writes patterns: printable ASCII as itself
            if chr(c).isascii() and (chr(c).isalnum() or chr(c) in '%!#_'):
                return chr(c)
            return '\\u%04X' % c if c <= 0xFFFF else '\\U%08X' % c
        return '[' + ''.join(e(a) if a == b else e(a) + '-' + e(b) for a, b in self.iv) + ']'


class FastDB(PICUDatabase):
    _cache = {}

    def get_set(self, iterable=None, pattern=None, freeze=False):
        if iterable and pattern:
            raise ValueError('specify iterable or pattern, but not both')
        if pattern:
            if pattern not in self._cache:
                self._cache[pattern] = list(PICUDatabase.get_set(self, None, pattern).ranges())
            return FastSet(iv=self._cache[pattern], freeze=freeze)
        return FastSet(iterable, freeze)
