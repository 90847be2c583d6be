"""The executable reference models, independent of the library."""
import struct

M64 = (1 << 64) - 1


def mix(a, b):
    z = (a ^ ((b * 0x9E3779B97F4A7C15) & M64) ^ (a >> 31)) & M64
    z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & M64
    z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M64
    return z ^ (z >> 31)


class Rng:
    def __init__(self, s):
        self.s = s & M64

    def next(self):
        self.s = (self.s + 0x9E3779B97F4A7C15) & M64
        return mix(self.s, 0x1234567)

    def below(self, n):
        return self.next() % n if n > 0 else 0

    def chance(self, pct):
        return self.below(100) < pct

    def pick(self, xs):
        return xs[self.below(len(xs))]

    def weighted(self, ws):
        t = self.below(sum(ws))
        for i, w in enumerate(ws):
            if t < w:
                return i
            t -= w
        return 0


class Violation(Exception):
    def __init__(self, cls, msg):
        Exception.__init__(self, msg)
        self.cls = cls
        self.msg = msg[:900]


def ensure(ok, cls, msg, *a):
    if not ok:
        raise Violation(cls, msg % a if a else msg)


def shuffled(xs, seed):
    xs = list(xs)
    if seed:
        r = Rng(seed)
        for i in range(len(xs) - 1, 0, -1):
            j = r.below(i + 1)
            xs[i], xs[j] = xs[j], xs[i]
    return xs


class MGraph:
    kind = 'G'
    __slots__ = ('und', 'vc', 'edges')

    def __init__(self, und, vc=0, edges=()):
        self.und, self.vc, self.edges = und, vc, set(edges)

    def copy(self):
        return MGraph(self.und, self.vc, self.edges)

    def same(self, o):
        return (self.und, self.vc, self.edges) == (o.und, o.vc, o.edges)

    def add(self, a, b):
        self.vc = max(self.vc, a + 1, b + 1)
        self.edges.add((a, b))
        if self.und:
            self.edges.add((b, a))

    def delete(self, a, b):
        self.edges.discard((a, b))
        if self.und:
            self.edges.discard((b, a))

    def vertex(self, v, to):
        self.vc = max(self.vc, v + 1)
        for t in to:
            self.add(v, t)

    def outs(self, v):
        return {b for a, b in self.edges if a == v}

    def ins(self, v):
        return {a for a, b in self.edges if b == v}

    def hash(self):
        h = mix(self.vc, int(self.und))
        if len(self.edges) > 4000:
            return mix(h, hash(frozenset(self.edges)) & (1 << 64) - 1)
        for a, b in sorted(self.edges):
            h = mix(h, mix(a, b))
        return h

    def pooled(self, b):
        if self.vc == 0:
            return MPool(1, 0, {})
        b = min(max(b, 1), self.vc)
        n = {}
        for c, r in self.edges:
            k = (c // b, r // b)
            n[k] = n.get(k, 0) + 1
        return MPool(b, -(-self.vc // b), n)

    def approximated(self, b, t):
        """The approximation, and the blocks too close to the threshold to call."""
        if b <= 1 or self.vc <= 1:
            return self.copy(), set()
        p = self.pooled(b)
        t = min(max(t, 1e-18), 1.0)
        e, dunno = set(), set()
        for k, n in p.counts.items():
            a = p.average(n)
            if p.b > 1 << 26 and abs(a - t) <= t * 1e-12:
                dunno.add(k)
            elif a >= t:
                e.add(k)
        return MGraph(self.und, p.dim, e), dunno

    def compressed(self, level):
        level = min(max(level, 1), 64)
        m = {}
        for c, r in self.edges:
            k = (c // 8, r // 8)
            m[k] = m.get(k, 0) | 1 << (r % 8 * 8 + c % 8)
        return MComp(self.und, self.vc, level, {k: v for k, v in m.items() if v.bit_count() >= level})

    def image(self, order=0):
        es = shuffled(sorted(self.edges), order)
        return struct.pack('>IIQQBB', 0x7ae71ffd, 1, self.vc, len(es), self.und, 0) + b''.join(
            struct.pack('>QQ', a, b) for a, b in es)


class MPool:
    kind = 'P'
    __slots__ = ('b', 'dim', 'counts')

    def __init__(self, b, dim, counts):
        self.b, self.dim, self.counts = b, dim, counts

    def average(self, n):
        return n / (float(self.b) * float(self.b))

    def hash(self):
        h = mix(self.b, self.dim)
        for k in sorted(self.counts):
            h = mix(h, mix(mix(k[0], k[1]), self.counts[k]))
        return h


class MComp:
    kind = 'Z'
    __slots__ = ('und', 'vc', 'level', 'blocks')

    def __init__(self, und, vc, level, blocks):
        self.und, self.vc, self.level, self.blocks = und, vc, level, blocks

    def dim(self):
        return max(1, -(-self.vc // 8))

    def edge_count(self):
        return sum(v.bit_count() for v in self.blocks.values())

    def has(self, a, b):
        return self.blocks.get((a // 8, b // 8), 0) >> (b % 8 * 8 + a % 8) & 1 == 1

    def graph(self):
        return MGraph(self.und, self.vc, {(c * 8 + i % 8, r * 8 + i // 8)
                                          for (c, r), v in self.blocks.items() for i in range(64) if v >> i & 1})

    def hash(self):
        h = mix(self.vc, mix(int(self.und), self.level))
        if len(self.blocks) > 4000:
            return mix(h, hash(frozenset(self.blocks.items())) & (1 << 64) - 1)
        for k in sorted(self.blocks):
            h = mix(h, mix(mix(k[0], k[1]), self.blocks[k]))
        return h

    def image(self, order=0):
        bs = shuffled(sorted(self.blocks.items()), order)
        return struct.pack('>IIQQQQBB', 0x71ff7aed, 2, self.dim(), len(bs), self.edge_count(), self.vc, self.und,
                           self.level) + b''.join(struct.pack('>QQQ', v, c, r) for (c, r), v in bs)


def read_graph(b):
    """('ok', model), ('bad', why), or ('either', model) when well-formed but for repeated records."""
    if len(b) < 26:
        return 'bad', 'shorter than the header'
    magic, ver, vc, n, und, w = struct.unpack('>IIQQBB', b[:26])
    if magic != 0x7ae71ffd or ver != 1 or und > 1 or w:
        return 'bad', 'header'
    if 26 + n * 16 != len(b):
        return 'bad', 'length'
    e = [struct.unpack_from('>QQ', b, 26 + i * 16) for i in range(n)]
    if any(x >= vc or y >= vc for x, y in e):
        return 'bad', 'endpoint'
    g = MGraph(und == 1, vc, e)
    dup = len(g.edges) < n
    if g.und:
        g.edges |= {(y, x) for x, y in g.edges}
    if len(g.edges) != n:
        return 'bad', 'edge count'
    return ('either' if dup else 'ok'), g


def read_comp(b):
    if len(b) < 42:
        return 'bad', 'shorter than the header'
    magic, ver, dim, n, ec, vc, und, lv = struct.unpack('>IIQQQQBB', b[:42])
    if magic != 0x71ff7aed or ver != 2 or und > 1 or not 1 <= lv <= 64:
        return 'bad', 'header'
    z = MComp(und == 1, vc, lv, {})
    if dim != z.dim() or 42 + n * 24 != len(b):
        return 'bad', 'dimension or length'
    for i in range(n):
        v, c, r = struct.unpack_from('>QQQ', b, 42 + i * 24)
        if v == 0 or c >= dim or r >= dim or (c, r) in z.blocks:
            return 'bad', 'block'
        z.blocks[c, r] = v
    g = z.graph()
    if any(x >= vc or y >= vc for x, y in g.edges):
        return 'bad', 'bit outside the vertex count'
    if ec != len(g.edges) or (z.und and any((y, x) not in g.edges for x, y in g.edges)):
        return 'bad', 'edge count or symmetry'
    return 'ok', z


def cells(what, s, dim):
    """The entries of a matrix's text, row by row."""
    ensure(isinstance(s, str), 'py:text', '%s is a %s', what, type(s).__name__)
    rows = []
    for l in s.split('\n'):
        l = l.strip()
        if l:
            ensure(l[0] == '[' and l[-1] == ']', 'py:text', '%s: row %r', what, l[:60])
            rows.append([t.strip() for t in l[1:-1].split(',')])
    ensure(len(rows) == dim, 'py:text', '%s: %d of %d rows', what, len(rows), dim)
    for r in rows:
        ensure(len(r) == dim, 'py:text', '%s: a row of %d of %d columns', what, len(r), dim)
    return rows


def check_text(what, s, m, digits=None):
    if m.kind == 'Z' and m.vc == 0:
        return
    dim = m.dim() if m.kind == 'Z' else m.vc if m.kind == 'G' else m.dim
    rows = cells(what, s, dim)
    for r in range(dim):
        for c in range(dim):
            t = rows[r][c]
            if m.kind == 'G':
                ensure(t == ('1' if (c, r) in m.edges else '0'), 'py:text', '%s: entry (%d, %d) reads %r', what, c, r, t)
            elif m.kind == 'Z':
                ensure(t == str(m.blocks.get((c, r), 0)), 'py:text', '%s: block (%d, %d) reads %r', what, c, r, t)
            else:
                a = m.average(m.counts.get((c, r), 0))
                try:
                    v = float(t)
                except ValueError:
                    raise Violation('py:text', '%s: entry %r' % (what, t))
                tol = 0.5 * 10.0 ** -digits + 1e-12
                ok = abs(v - a) <= tol and (digits == 0 or len(t.partition('.')[2]) == digits)
                ensure(ok, 'py:text', '%s: entry (%d, %d) reads %r instead of %r to %d digits', what, c, r, t, a, digits)
