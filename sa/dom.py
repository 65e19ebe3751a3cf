"""Character-class domain: a finite partition of Unicode scalar values ("atoms") induced by
every character constant in the program and in the specification plus the character
predicates the program may call.  A set of characters is a bit mask over atoms."""
import unicodedata

MAXC = 0x10FFFF
OTHER_ID_START = {0x2118, 0x212E, 0x309B, 0x309C, 0x1885, 0x1886}
OTHER_ID_CONT = {0xB7, 0x387, 0x1369, 0x136A, 0x136B, 0x136C, 0x136D, 0x136E, 0x136F, 0x1370, 0x1371, 0x19DA}
WHITE_SPACE = set(list(range(9, 14)) + [0x20, 0x85, 0xA0, 0x1680] + list(range(0x2000, 0x200B)) + [0x2028, 0x2029, 0x202F, 0x205F, 0x3000])
PREDS = ("id_start", "id_continue", "alphabetic", "numeric", "whitespace", "lowercase", "uppercase", "control")


def _sig(cp):
    c = chr(cp)
    cat = unicodedata.category(c)
    L = cat[0] == "L" or cat == "Nl"
    ids = L or cp in OTHER_ID_START
    if cp in (0x2E2F,):
        ids = False
    idc = ids or cat in ("Mn", "Mc", "Nd", "Pc") or cp in OTHER_ID_CONT
    return (1 if ids else 0) | (2 if idc else 0) | (4 if (L or (0x24B6 <= cp <= 0x24E9)) else 0) | \
        (8 if cat[0] == "N" else 0) | (16 if cp in WHITE_SPACE else 0) | \
        (32 if c.islower() else 0) | (64 if c.isupper() else 0) | (128 if cat == "Cc" else 0)


_runs = None


def runs():
    global _runs
    if _runs is None:
        r = []
        prev = None
        start = 0
        for cp in range(MAXC + 2):
            s = None if cp > MAXC or 0xD800 <= cp <= 0xDFFF else _sig(cp)
            if s != prev:
                if prev is not None:
                    r.append((start, cp - 1, prev))
                prev = s
                start = cp
        _runs = r
    return _runs


class CharDom:
    def __init__(self, consts):
        b = set(range(0, 0x81)) | {0x80, 0x100, 0x800, 0xD800, 0xE000, 0x10000, MAXC + 1}
        for c in consts:
            if 0 <= c <= MAXC:
                b.add(c)
                b.add(c + 1)
        bounds = sorted(b)
        groups = {}
        bi = 0
        for lo, hi, s in runs():
            x = lo
            while x <= hi:
                while bi + 1 < len(bounds) and bounds[bi + 1] <= x:
                    bi += 1
                e = min(hi, (bounds[bi + 1] - 1) if bi + 1 < len(bounds) else hi)
                groups.setdefault((bounds[bi], s), []).append((x, e))
                x = e + 1
        self.atoms = []
        self.iv = []
        for (bl, s), ivs in sorted(groups.items()):
            self.atoms.append((ivs[0][0], ivs[-1][1], s))
            self.iv.append(ivs)
        self.n = len(self.atoms)
        self.ALL = (1 << self.n) - 1
        self.pred = {}
        for i, p in enumerate(PREDS):
            m = 0
            for k, (lo, hi, s) in enumerate(self.atoms):
                if s >> i & 1:
                    m |= 1 << k
            self.pred[p] = m
        self._of = {}
        self._lt = {}
        self._max = {}
        self.ascii = self.range(0, 127)

    def of(self, cp):
        """Mask of the atom holding exactly cp (the atom may be larger for unnamed cps)."""
        m = self._of.get(cp)
        if m is None:
            m = 0
            for k, (lo, hi, s) in enumerate(self.atoms):
                if lo <= cp <= hi and any(a <= cp <= b for a, b in self.iv[k]):
                    m = 1 << k
                    break
            self._of[cp] = m
        return m

    def exact(self, cp):
        m = self.of(cp)
        if not m:
            return True
        k = m.bit_length() - 1
        return self.atoms[k][0] == self.atoms[k][1]

    def lt(self, v):
        """(definitely < v, possibly < v) masks."""
        r = self._lt.get(v)
        if r is None:
            d = p = 0
            for k, (lo, hi, s) in enumerate(self.atoms):
                if hi < v:
                    d |= 1 << k
                if lo < v:
                    p |= 1 << k
            r = self._lt[v] = (d, p)
        return r

    def range(self, lo, hi):
        m = 0
        for k, (a, b, s) in enumerate(self.atoms):
            if lo <= a and b <= hi:
                m |= 1 << k
        return m

    def set(self, chars):
        m = 0
        for c in chars:
            m |= self.of(ord(c) if isinstance(c, str) else c)
        return m

    def single(self, m):
        """The only code point in m, or None."""
        if m and m & (m - 1) == 0:
            lo, hi, s = self.atoms[m.bit_length() - 1]
            if lo == hi:
                return lo
        return None

    def min(self, m):
        return self.atoms[(m & -m).bit_length() - 1][0] if m else 0

    def max(self, m):
        r = self._max.get(m)
        if r is None:
            r, x, k = 0, m, 0
            while x:
                if x & 1 and self.atoms[k][1] > r:
                    r = self.atoms[k][1]
                x >>= 1
                k += 1
            self._max[m] = r
        return r

    def show(self, m):
        if m == self.ALL:
            return "any"
        neg = bin(m).count("1") > self.n // 2
        mm = self.ALL & ~m if neg else m
        out = []
        k = 0
        while mm >> k:
            if mm >> k & 1:
                lo, hi, s = self.atoms[k]
                out.append(_cp(lo) if lo == hi else _cp(lo) + "-" + _cp(hi))
            k += 1
        # compress runs of ASCII
        txt = ",".join(out[:24]) + (",..." if len(out) > 24 else "")
        return ("not{" if neg else "{") + txt + "}"


def _cp(c):
    if 33 <= c < 127:
        return chr(c)
    return "U+%04X" % c
