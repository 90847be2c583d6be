"""The Python world (C16, C17): several Python threads under one baton use the real package over the
real native library, whose allocations are tracked, poisoned, quarantined and refused by plan. Threads
are preempted between bytecodes of the package, garbage is collected where the plan says, and objects
are dropped in any order by any thread."""
import _thread
import ctypes
import gc
import sys
import threading

from models import *

gx = None          # the package under test
native = None      # the simulator's side of the native library
PKG = '/nonexistent'

current = None     # the World of the run in progress


class SimLock:
    """threading.Lock and RLock as the package sees them: a blocked thread gives up the baton."""
    def __init__(self, reentrant=False):
        self.owner, self.count, self.reentrant = None, 0, reentrant

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        while self.count and not (self.reentrant and self.owner == me):
            if not blocking or timeout >= 0:
                return False
            if current is None:
                raise RuntimeError('deadlock outside a run')
            current.block()
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if not self.count:
            raise RuntimeError('release unlocked lock')
        self.count -= 1
        if not self.count:
            self.owner = None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self.count > 0

    def _is_owned(self):
        return self.owner == _thread.get_ident()


def patch_locks():
    threading.Lock = SimLock
    threading.RLock = lambda: SimLock(True)


def on_instruction(code, offset):
    if current is not None:
        current.instruction()


def arm():
    """Every bytecode of every function of the package is an event."""
    mon = sys.monitoring
    mon.use_tool_id(3, 'sim')
    mon.register_callback(3, mon.events.INSTRUCTION, on_instruction)
    seen = set()

    def walk(code):
        if code in seen or not code.co_filename.startswith(PKG):
            return
        seen.add(code)
        mon.set_local_events(3, code, mon.events.INSTRUCTION)
        for k in code.co_consts:
            if isinstance(k, type(code)):
                walk(k)
    for f in gc.get_objects():
        if isinstance(f, type(arm)):
            walk(f.__code__)
    return len(seen)


def native_error():
    b = ctypes.create_string_buffer(300)
    n = native.sim_error(b, 300)
    return b.raw[:n].decode() if n else None


class Slot:
    __slots__ = ('kind', 'obj', 'model', 'owner', 'of', 'pos', 'also')

    def __init__(self, kind, obj, model, owner, of=None, pos=0):
        self.kind, self.obj, self.model, self.owner, self.of, self.pos, self.also = kind, obj, model, owner, of, pos, []


class Caller:
    def __init__(self, i):
        self.i = i
        self.go = _thread.allocate_lock()
        self.go.acquire()
        self.job = None
        self.state = 'idle'   # idle, running, parked, blocked, dead
        self.due = 0
        self.error = None
        self.pre = []
        self.count = 0
        self.inside = False
        self.ident = None


class World:
    def __init__(self, plan, trace=None):
        self.plan = plan
        self.prop = plan['prop']
        self.trace = trace
        self.slots = {}
        self.next_slot = 0
        self.step = 0
        self.ctr = {}
        self.fps = []
        self.digest = 0
        self.unraisable = None
        self.big_text = 0
        self.back = _thread.allocate_lock()
        self.back.acquire()
        self.me = None
        self.callers = []
        self.main = _thread.get_ident()

    # ---- scheduling
    def bump(self, k, n=1):
        self.ctr[k] = self.ctr.get(k, 0) + n

    def say(self, s):
        if self.trace is not None:
            self.trace.append(s)

    def note(self, x):
        self.digest = mix(self.digest, x & M64)

    def start(self):
        global current
        current = self
        gc.disable()
        gc.collect()
        native.sim_entropy(self.plan['entropy'] & M64)
        native.sim_quarantine(self.plan.get('keep', 4095))
        sys.unraisablehook = self.hook
        for i in range(max(1, self.plan['callers'])):
            c = Caller(i)
            self.callers.append(c)
            _thread.start_new_thread(self.thread, (c,))
            # The new thread may be quick or slow to come up; it says so once, by giving back.
            self.back.acquire()
            self.bump('callers_started')
        self.live0 = native.sim_live()

    def hook(self, u):
        if self.unraisable is None:
            self.unraisable = '%s: %s in %s' % (getattr(u.exc_type, '__name__', '?'), u.exc_value, getattr(u.object, '__qualname__', u.err_msg))

    def thread(self, c):
        native.sim_thread_entropy(mix(self.plan['entropy'], c.i + 1))
        c.ident = _thread.get_ident()
        while True:
            c.state = 'idle'
            self.back.release()
            c.go.acquire()
            job, c.job = c.job, None
            if job is None:
                c.state = 'dead'
                self.back.release()
                return
            try:
                c.count = 0
                job()
            except Violation as e:
                c.error = e
            except BaseException as e:
                c.error = Violation('py:exception', '%s raised %s: %s' % (c.what, type(e).__name__, e))
            job = None

    def instruction(self):
        """Between two bytecodes of the package, on the thread that runs."""
        c = self.me
        if c is None or not c.pre or c.inside:
            return
        c.count += 1
        c.inside = True
        while c.pre and c.pre[0][0] <= c.count:
            at, act, hold = c.pre.pop(0)
            if act == 1:
                self.bump('f_collection_mid_call')
                gc.collect()
            else:
                self.bump('preempted_at_bytecode')
                c.due = self.step + hold
                self.park(c, 'parked')
        c.inside = False

    def park(self, c, how):
        c.state = how
        self.back.release()
        c.go.acquire()
        c.state = 'running'

    def block(self):
        """A lock is taken: the thread waits until others have run."""
        if _thread.get_ident() == self.main:
            self.run_others(None)
            return
        c = self.me
        self.bump('lock_waits')
        self.park(c, 'blocked')

    def run_others(self, c):
        o = [x for x in self.callers if x is not c and x.state == 'parked']
        if not o:
            raise Violation('py:deadlock', 'a lock is taken by a thread that does not run')
        self.resume(o[0])

    def resume(self, c):
        me, self.me = self.me, c
        if c.state in ('idle', 'parked', 'blocked'):
            c.state = 'running'
            c.go.release()
        self.back.acquire()
        self.me = me
        while c.state == 'blocked':
            self.run_others(c)
            c.state = 'running'
            self.me = c
            c.go.release()
            self.back.acquire()
            self.me = me
        if c.error is not None:
            raise c.error
        if c.state == 'idle':
            self.after()

    def after(self):
        if self.unraisable:
            raise Violation('py:unraisable', 'ignored in a finaliser: ' + self.unraisable)
        e = native_error()
        if e:
            raise Violation('memory', e)

    def settle(self, c):
        while c.state == 'parked':
            self.resume(c)

    def drain(self):
        for c in self.callers:
            self.settle(c)

    def tick(self):
        self.step += 1
        self.bump('steps')
        for c in self.callers:
            if c.state == 'parked' and c.due <= self.step:
                self.resume(c)

    def submit(self, i, what, job, pre=()):
        c = self.callers[i % len(self.callers)]
        self.settle(c)
        if any(x.state == 'parked' for x in self.callers):
            self.bump('overlapped_calls')
        c.pre = [list(p) for p in sorted(pre)]
        c.what = what
        c.job = job
        self.bump('calls')
        self.resume(c)

    # ---- objects
    def put(self, kind, obj, model, owner, of=None):
        k = self.next_slot
        self.next_slot += 1
        self.slots[k] = Slot(kind, obj, model, owner, of)
        self.bump('objects_made')
        return k

    def mine(self, owner, kinds):
        return [k for k, s in self.slots.items() if s.owner == owner and s.kind in kinds]

    def pick(self, owner, kinds, a):
        m = self.mine(owner, kinds)
        return self.slots[m[a % len(m)]] if m else None

    def state(self, s, op):
        m = s.model
        h = m.hash() if hasattr(m, 'hash') else mix(len(m), s.pos)
        self.fps.append(mix(mix(h, op), mix(len(self.slots), sum(c.state == 'parked' for c in self.callers))))
        self.note(h)


# ---- what each kind of object must say

def check_query(s, q, a, b):
    o, m = s.obj, s.model
    if s.kind == 'G':
        if q % 8 == 0:
            r, w = o.vertex_count(), m.vc
        elif q % 8 == 1:
            r, w = o.edge_count(), len(m.edges)
        elif q % 8 == 2:
            r, w = o.is_undirected(), m.und
        elif q % 8 in (3, 4):
            if q % 8 == 4 and m.edges:
                a, b = sorted(m.edges)[a % len(m.edges)]
            r, w = o.does_edge_exist(a, b), (a, b) in m.edges
        elif q % 8 == 5:
            r, w = o.vertex_in_degree(a), len(m.ins(a))
        else:
            r, w = o.vertex_out_degree(a), len(m.outs(a))
    elif s.kind == 'Z':
        if q % 8 == 0:
            r, w = o.vertex_count(), m.vc
        elif q % 8 == 1:
            r, w = o.edge_count(), m.edge_count()
        elif q % 8 == 2:
            r, w = o.is_undirected(), m.und
        elif q % 8 == 3:
            r, w = o.compression_level(), m.level
        elif q % 8 in (4, 5):
            if q % 8 == 5 and m.blocks:
                c, d = sorted(m.blocks)[a % len(m.blocks)]
                a, b = c * 8 + a % 8, d * 8 + b % 8
            r, w = o.does_edge_exist(a, b), m.has(a, b)
        else:
            if q % 8 == 7 and m.blocks:
                a, b = sorted(m.blocks)[a % len(m.blocks)]
            r, w = o.get_compressed_matrix_entry(a, b), m.blocks.get((a, b), 0)
    else:
        if q % 8 == 0:
            r, w = o.dimension(), m.dim
        elif q % 8 == 1:
            r, w = o.entry_count(), len(m.counts)
        else:
            if q % 8 > 3 and m.counts:
                a, b = sorted(m.counts)[a % len(m.counts)]
            r, w = o.get_entry(a, b), m.average(m.counts.get((a, b), 0))
            if abs(r - w) <= w * 1e-12:
                r = w
    ensure(r == w, 'py:query', '%s query %d (%d, %d) says %r instead of %r', s.kind, q % 8, a, b, r, w)


def list_want(m, what, v):
    if what == 'edges':
        return sorted(m.edges)
    if what == 'ins':
        return sorted(m.ins(v))
    if what == 'outs':
        return sorted(m.outs(v))
    return sorted((m.average(n), c, r) for (c, r), n in m.counts.items())


def get_list(o, what, v):
    if what == 'edges':
        return o.edge_list()
    if what == 'ins':
        return o.vertex_in_edges(v)
    if what == 'outs':
        return o.vertex_out_edges(v)
    return o.entry_list()


def same_items(what, got, want):
    got = sorted(got)
    ok = len(got) == len(want)
    if ok and what == 'entries':
        g2, w2 = sorted((c, r, v) for v, c, r in got), sorted((c, r, v) for v, c, r in want)
        ok = all(g[:2] == w[:2] and abs(g[2] - w[2]) <= w[2] * 1e-12 for g, w in zip(g2, w2))
    elif ok:
        ok = got == want
    ensure(ok, 'py:list', '%s list has %r instead of %r', what, got[:8], want[:8])


def read_list(l, what, m, v):
    """Reads a list fully by index and by iteration; both must agree with each other and the model."""
    n = len(l)
    a = [l[i] for i in range(n)]
    b = [x for x in l]
    ensure(a == b, 'py:list', '%s list by index %r and by iteration %r', what, a[:6], b[:6])
    same_items(what, a, list_want(m, what, v))
    return a


def check_full(s):
    if s.kind in 'GZP':
        for q in range(8):
            check_query(s, q, q * 5 + 1, q * 3)
            for o in s.also[:1]:
                ensure(o is s.obj, 'py:identity', 'a second reference is another object')
    if s.kind == 'G':
        read_list(s.obj.edge_list(), 'edges', s.model, 0)
    elif s.kind == 'P':
        read_list(s.obj.entry_list(), 'entries', s.model, 0)
    elif s.kind == 'Z':
        g = s.obj.decompress()
        read_list(g.edge_list(), 'edges', s.model.graph(), 0)
        ensure(g.vertex_count() == s.model.vc, 'py:decompress', 'decompresses to %d vertices', g.vertex_count())
    elif s.kind == 'L':
        got = [s.obj[i] for i in range(len(s.obj))]
        ensure(got == s.model, 'py:list', 'a list changed from %r to %r', s.model[:6], got[:6])
    elif s.kind == 'I':
        advance(s, 1 << 30)


def advance(s, n):
    """Moves an iterator that may have outlived its list and its graph."""
    for _ in range(n):
        try:
            x = next(s.obj)
        except StopIteration:
            ensure(s.pos == len(s.model), 'py:iterator', 'an iterator over %d items ended after %d', len(s.model), s.pos)
            return
        ensure(s.pos < len(s.model), 'py:iterator', 'an iterator over %d items did not end', len(s.model))
        ensure(x == s.model[s.pos], 'py:iterator', 'item %d of %d is %r instead of %r', s.pos, len(s.model), x, s.model[s.pos])
        s.pos += 1


def image_check(kind, b, m):
    ensure(type(b) is bytes, 'py:bytes', 'bytes() gave a %s', type(b).__name__)
    how, w = (read_graph if kind == 'G' else read_comp)(b)
    ensure(how == 'ok', 'py:bytes', 'bytes() of a %s gave %d bytes that are no image (%s)', kind, len(b), w if how == 'bad' else 'repeats')
    ensure(w.image() == m.image(), 'py:bytes', 'bytes() of a %s gave the image of another', kind)


def threshold(m, b, t):
    """A threshold at, just above or just below a block's average, or anywhere."""
    p = m.pooled(b)
    k = sorted(p.counts.values())
    if t % 5 == 4 or not k:
        return [0.0, 1.0, -1.0, 2.0, 0.5, 1e-18, 1e-300, 0.25][t // 5 % 8]
    a = p.average(k[t // 5 % len(k)])
    return [a, a * (1 + 2 ** -50), a * (1 - 2 ** -50), a + 0.01][t % 5]


VARIANTS = (bytes, bytearray, bytes, bytes)


def do(w, st):
    """Builds and submits the job of one step."""
    c, op, a = st['c'] % len(w.callers), st['op'], list(st['a']) + [0] * 8
    pre = st.get('pre', ())
    w.settle(w.callers[c])
    n = len(w.slots)

    if op == 'new':
        und = bool(a[0] % 2)

        def job():
            g = gx.Graph(is_undirected=und) if a[1] % 2 else gx.Graph(und)
            w.put('G', g, MGraph(und), c)
        return w.submit(c, 'Graph()', job, pre)
    if op == 'load':
        kind, seed = 'GZ'[a[0] % 2], a[1]
        m = some_graph(seed, a[2])
        m = m if kind == 'G' else m.compressed(a[3] % 66)
        img = VARIANTS[a[4] % 4](m.image(a[5]))

        def job():
            o = (gx.Graph if kind == 'G' else gx.CompressedGraph).from_bytes(img)
            w.put(kind, o, m, c)
            check_query(Slot(kind, o, m, c), a[6], 1, 2)
        return w.submit(c, 'from_bytes', job, pre)
    if op == 'gc':
        def job():
            w.bump('collections')
            gc.collect(a[0] % 3)
        return w.submit(c, 'gc', job, pre)
    if op == 'bad':
        return bad_bytes(w, c, a, pre)
    if op == 'give':
        s = w.pick(c, 'GZPLI', a[0])
        if s:
            s.owner = a[1] % len(w.callers)
            w.bump('handed_over')
        return
    if op in ('edge', 'del', 'addv', 'bulk', 'approx', 'pool', 'comp', 'edges', 'ins', 'outs', 'chain', 'wide'):
        s = w.pick(c, 'G', a[0])
    elif op == 'decomp':
        s = w.pick(c, 'Z', a[0])
    elif op == 'entries':
        s = w.pick(c, 'P', a[0])
    elif op in ('iter', 'index', 'for'):
        s = w.pick(c, 'L', a[0])
    elif op == 'next':
        s = w.pick(c, 'I', a[0])
    elif op == 'bytes':
        s = w.pick(c, 'GZ', a[0])
    elif op in ('text', 'dup', 'query', 'oom'):
        s = w.pick(c, 'GZP', a[0])
    else:
        s = w.pick(c, 'GZPLI', a[0])
    if s is None:
        w.bump('steps_skipped')
        return
    m = s.model
    if op == 'edge':
        def job(o):
            o.add_edge(a[1], a[2])
            m.add(a[1], a[2])
            check_query(s, 3, a[1], a[2])
    elif op == 'del':
        if a[3] % 3 and m.edges:
            a[1], a[2] = sorted(m.edges)[a[1] % len(m.edges)]

        def job(o):
            o.delete_edge(a[1], a[2])
            m.delete(a[1], a[2])
            check_query(s, 3, a[1], a[2])
    elif op == 'addv':
        to = [(a[2] * (i + 1) + a[3]) % (40 if a[4] < 12 else 40 + a[3] * 9) for i in range(a[4] % 700)]

        def job(o):
            if to or a[5] % 2:
                o.add_vertex(a[1], to)
            else:
                o.add_vertex(a[1])
            m.vertex(a[1], to)
            check_query(s, a[5], a[1], a[2])
    elif op == 'bulk':
        r = Rng(a[1])
        span = 8 + a[2] % 60
        rows = [(r.below(span), [r.below(span) for _ in range(8 + r.below(24))]) for _ in range(1 + a[3] % 6)]

        def job(o):
            for v, to in rows:
                o.add_vertex(v, to_vertexs=to)
                m.vertex(v, to)
            check_query(s, 1, 0, 0)
    elif op == 'wide':
        n = [33000, 65536, 65537, 66000, 70000][a[1] % 5]
        side = [7, 256, 300, 1, 70000][a[2] % 5]
        rows = {}
        for k in range(n):
            rows.setdefault(k // side, []).append(k % side)

        def job(o):
            for v, to in rows.items():
                if len(to) == 1:
                    o.add_edge(v, to[0])
                    m.add(v, to[0])
                else:
                    o.add_vertex(v, to)
                    m.vertex(v, to)
            check_query(s, 1, 0, 0)
    elif op == 'query':
        def job(o):
            for k in range(1 + a[4] % 3):
                check_query(s, a[1] + k, a[2], a[3])
    elif op == 'dup':
        def job(o):
            w.put(s.kind, o.duplicate(), m.copy() if s.kind == 'G' else m, c)
    elif op == 'approx':
        b = dim_of(a[1])
        t = threshold(m, b, a[2])

        def job(o):
            x, (wx, dunno) = o.approximate(b, t), m.approximated(b, t)
            got = set(x.edge_list())
            ensure(got - dunno == wx.edges - dunno, 'py:approximate', 'approximate(%d, %r) has edges %r instead of %r', b, t, sorted(got)[:6], sorted(wx.edges)[:6])
            wx.edges = got
            w.put('G', x, wx, c)
    elif op == 'pool':
        b = dim_of(a[1])

        def job(o):
            w.put('P', o.find_avg_pool_matrix(b), m.pooled(b), c)
    elif op == 'comp':
        lv = [1, a[1] % 66, a[1] % 20, 0, -5, 64, 65, 300][a[2] % 8]

        def job(o):
            w.put('Z', o.compress(lv), m.compressed(lv), c)
    elif op == 'decomp':
        def job(o):
            w.put('G', o.decompress(), m.graph(), c)
    elif op == 'bytes':
        def job(o):
            b = bytes(o)
            image_check(s.kind, b, m)
            if a[1] % 2:
                x = type(o).from_bytes(b)
                del b
                w.put(s.kind, x, m.copy() if s.kind == 'G' else m, c)
    elif op == 'text':
        dim = m.dim() if s.kind == 'Z' else m.vc if s.kind == 'G' else m.dim
        if dim > 40 or w.big_text > 20000:
            return
        w.big_text += dim * dim

        def job(o):
            if s.kind != 'P':
                check_text('matrix_string', o.matrix_string(), m)
            elif a[1] % 3 == 0:
                check_text('str', str(o), m, 2)
            elif a[1] % 3 == 1:
                check_text('to_string', o.to_string(), m, 2)
            else:
                check_text('to_string', o.to_string(decimal_digits=a[2] % 10), m, a[2] % 10)
    elif op in ('edges', 'ins', 'outs', 'entries'):
        v = a[1]

        def job(o):
            l = get_list(o, op, v)
            got = read_list(l, op, m, v)
            k = a[2] % 4
            if k != 1:
                w.put('L', l, got, c)
            if k in (1, 2):
                w.put('I', iter(l), got, c)
            ensure(got == [x for x in l], 'py:list', 'a list changed between two readings')
    elif op == 'iter':
        def job(o):
            w.put('I', iter(o), m, c)
    elif op == 'index':
        def job(o):
            i = a[1] % (len(m) + 3)
            try:
                x = o[i]
            except IndexError:
                ensure(i >= len(m), 'py:index', 'index %d of %d raised IndexError', i, len(m))
                return
            ensure(i < len(m) and x == m[i], 'py:index', 'item %d of %d is %r', i, len(m), x)
    elif op == 'for':
        def job(o):
            k = 0
            for x in o:
                ensure(k < len(m) and x == m[k], 'py:list', 'item %d of %d is %r', k, len(m), x)
                k += 1
                if k > a[1] % 30:
                    break
            else:
                ensure(k == len(m), 'py:list', 'a list of %d items ended after %d', len(m), k)
            ensure(len(o) == len(m), 'py:list', 'a list of %d items has length %d', len(m), len(o))
    elif op == 'next':
        def job(o):
            advance(s, 1 + a[1] % 9)
    elif op == 'chain':
        def job(o):
            # Every object but the last is gone before it is used.
            k = a[1] % 5
            if k == 0:
                it, want = iter(o.duplicate().edge_list()), sorted(m.edges)
            elif k == 1:
                it, want = iter(o.compress(1).decompress().edge_list()), sorted(m.edges)
            elif k == 2:
                it, want = iter(o.find_avg_pool_matrix(3).duplicate().entry_list()), list_want(m.pooled(3), 'entries', 0)
            elif k == 3:
                it, want = iter(gx.Graph.from_bytes(bytes(o)).vertex_out_edges(a[2])), sorted(m.outs(a[2]))
            else:
                it, want = iter(gx.CompressedGraph.from_bytes(bytes(o.compress(1))).duplicate().decompress().vertex_in_edges(a[2])), sorted(m.ins(a[2]))
            gc.collect(0)
            got = []
            try:
                while True:
                    got.append(next(it))
            except StopIteration:
                pass
            same_items('entries' if k == 2 else 'edges', got, want)
    elif op == 'drop':
        key = next(k for k, x in w.slots.items() if x is s)

        def job():
            if s.also and a[1] % 2:
                s.obj = s.also.pop()
            else:
                del w.slots[key]
                s.obj = None
            w.bump('drops')
        w.state(s, hash_op(op))
        return w.submit(c, op, job, pre)
    elif op == 'alias':
        def job(o):
            s.also.append(o)
    elif op == 'ring':
        x = w.pick(c, 'GZPLI', a[1])

        def job(o):
            # Only the collector can free them now.
            n = Node()
            n.held = [o, x.obj, n]
            try:
                o.ring = [x.obj]
                x.obj.ring = [o, n]
            except AttributeError:
                pass
            w.bump('cycles')
    elif op == 'oom':
        return refuse(w, c, s, a, pre)
    else:
        raise AssertionError(op)
    w.state(s, hash_op(op))
    return w.submit(c, op, with_obj(s, job), pre)


class Node:
    pass


def with_obj(s, job):
    return lambda: job(s.obj)


def wrap(job):
    def f():
        job()
    return f


OPS = ['new', 'load', 'edge', 'del', 'addv', 'bulk', 'query', 'dup', 'approx', 'pool', 'comp', 'decomp', 'bytes', 'text',
       'edges', 'ins', 'outs', 'entries', 'iter', 'index', 'for', 'next', 'chain', 'drop', 'alias', 'ring', 'gc', 'give', 'bad', 'oom']


def hash_op(op):
    return OPS.index(op) if op in OPS else len(OPS)


def dim_of(x):
    return [0, 1, 2, 3, 4, 5, 8, 10, 64, 1 << 20, 1 << 33, (1 << 64) - 1][x % 12]


def some_graph(seed, size):
    r = Rng(seed)
    m = MGraph(r.chance(50), r.below(30))
    span = [1, 4, 9, 17, 40, 64][r.below(6)]
    for _ in range(r.below([2, 8, 30, 120][size % 4])):
        m.add(r.below(span), r.below(span))
    return m


# ---- C17: calls that cannot succeed

def damage(b, r):
    """One fault of storage or transport."""
    b = bytearray(b)
    k = r.below(12)
    i = r.below(len(b)) if b else 0
    if k == 0 and b:
        b[i] ^= 1 << r.below(8)
    elif k == 1:
        b = b[:i]
    elif k == 2:
        b += bytes(r.below(256) for _ in range(1 + r.below(20)))
    elif k == 3:
        b = bytearray()
    elif k == 4 and len(b) >= 26:
        b[24 if len(b) < 42 else [24, 40, 41][r.below(3)]] = r.below(256)
    elif k == 5 and len(b) >= 42:
        o = [8, 16, 24, 32][r.below(4)]
        b[o:o + 8] = r.pick([0, 1, M64, 1 << 60, int.from_bytes(b[o:o + 8], 'big') + 1 & M64, r.next()]).to_bytes(8, 'big')
    elif k == 6 and len(b) > 42:
        b[26 + r.below(len(b) - 26)] = 255
    elif k == 7:
        b = bytearray(r.below(256) for _ in range(r.below(80)))
    elif k == 8 and len(b) >= 8:
        b[r.below(8)] = r.below(256)
    elif k == 9 and len(b) > 58:
        b[-16:] = b[-32:-16]
    elif k == 10:
        b[i:i + 8] = bytes(len(b[i:i + 8]))
    else:
        b = b[i:]
    return bytes(b)


def bad_bytes(w, c, a, pre):
    r = Rng(a[0])
    kind = 'GZ'[a[1] % 2]
    m = some_graph(a[2], a[3])
    m = m if kind == 'G' else m.compressed(1 + a[4] % 4)
    img = m.image(a[5])
    b = img
    for _ in range(1 + r.below(3)):
        b = damage(b, r)
    if r.chance(8):
        b = some_graph(a[2], 1).compressed(1).image() if kind == 'G' else some_graph(a[2], 1).image()
    how, meant = (read_graph if kind == 'G' else read_comp)(b)
    cls = gx.Graph if kind == 'G' else gx.CompressedGraph
    arg = VARIANTS[a[6] % 4](b)
    quiet = not any(x.state == 'parked' for x in w.callers) and not pre
    w.bump('f_invalid_bytes' if how == 'bad' else 'f_damaged_but_valid')
    w.fps.append(mix(hash_bytes(b), 77))

    def job():
        if quiet:
            gc.collect()
        live = native.sim_live()
        try:
            o = cls.from_bytes(arg)
        except ValueError as e:
            ensure(how != 'ok', 'py:refused', '%s.from_bytes refused a well-formed image of %d bytes', cls.__name__, len(b))
            ensure(str(e) != '', 'py:message', 'ValueError without a message')
            del e
        except Exception as e:
            raise Violation('py:wrong_exception', '%s.from_bytes of %d bytes that are no image raised %s (%s) instead of ValueError' % (cls.__name__, len(b), type(e).__name__, e))
        else:
            ensure(how != 'bad', 'py:accepted', '%s.from_bytes accepted %d bytes that are no image (%s)', cls.__name__, len(b), meant)
            check_full(Slot(kind, o, meant, c))
            del o
        if quiet:
            gc.collect()
            ensure(native.sim_live() == live, 'py:leak', 'from_bytes of %d bad bytes leaves %d bytes allocated', len(b), native.sim_live() - live)
        # The cause is gone.
        x = cls.from_bytes(img)
        w.bump('retries')
        s = Slot(kind, x, m, c)
        check_query(s, a[0], 1, 2)
        if a[7] % 3 == 0:
            w.put(kind, x, m, c)
    w.submit(c, 'from_bytes', job, pre)


def hash_bytes(b):
    h = len(b)
    for i in range(0, len(b), 8):
        h = mix(h, int.from_bytes(b[i:i + 8], 'big'))
    return h


def refuse(w, c, s, a, pre):
    """No memory for a byte image or a string."""
    o, m = s.obj, s.model
    text = s.kind == 'P' or a[1] % 2 == 1
    digits = a[4] % 8
    if text:
        dim = m.dim() if s.kind == 'Z' else m.vc if s.kind == 'G' else m.dim
        size = 3 * dim * dim
    else:
        size = 26 + 16 * len(m.edges) if s.kind == 'G' else 42 + 24 * len(m.blocks)
    fits = size <= 1 << 20
    huge_digits = s.kind == 'P' and m.dim > 0 and a[5] % 4 == 0
    if huge_digits:
        fits = False
        digits = (1 << 34) + (a[4] << 8) % (1 << 63)
    elif not fits and size <= 3 << 30:
        w.bump('steps_skipped')
        return
    if fits and text:
        if w.big_text > 20000 or dim > 60:
            return
        w.big_text += 2 * dim * dim
    quiet = not any(x.state == 'parked' for x in w.callers) and not pre
    w.state(s, 99)

    def call():
        if not text:
            return bytes(o)
        if s.kind != 'P':
            return o.matrix_string()
        if digits == 2 and a[6] % 2:
            return str(o)
        return o.to_string(digits) if a[6] % 3 else o.to_string(decimal_digits=digits)

    what = 'text' if text else 'bytes()'

    def right(r):
        if text:
            check_text(what, r, m, digits)
        else:
            image_check(s.kind, r, m)

    def job():
        if quiet:
            gc.collect()
        live = native.sim_live()
        fired = 0
        if fits and size >= 1024:
            native.sim_fault(size, a[2] % 3, 1 + a[3] % 3)
        try:
            r = call()
        except MemoryError:
            fired = native.sim_clear_fault()
            ensure(not fits or fired, 'py:spurious', '%s of a %s raised MemoryError with memory available', what, s.kind)
            r = None
        except Exception as e:
            native.sim_clear_fault()
            raise Violation('py:wrong_exception', '%s of a %s without memory raised %s (%s) instead of MemoryError' % (what, s.kind, type(e).__name__, e))
        else:
            fired = native.sim_clear_fault()
            ensure(fits, 'py:impossible', '%s of at least %d bytes gave %r', what, size, str(r)[:40])
            right(r)
            r = None
        w.bump('f_refused_allocation', fired)
        if not fits:
            w.bump('f_impossible_size')
        if quiet:
            gc.collect()
            ensure(native.sim_live() == live, 'py:leak', '%s that failed leaves %d bytes allocated', what, native.sim_live() - live)
        check_query(s, a[0], 1, 2)
        if fired:
            w.bump('retries')
            try:
                r = call()
            except Exception as e:
                raise Violation('py:retry', '%s of a %s failed again with memory available: %s' % (what, s.kind, type(e).__name__))
            right(r)
    w.submit(c, what, job, pre)


# ---- a whole run

def run(plan, trace=None):
    """Returns the World; raises Violation."""
    w = World(plan, trace)
    try:
        w.start()
        for i, st in enumerate(plan['steps']):
            w.tick()
            w.at = i
            if trace is not None:
                w.say('%d: caller %d %s %s %s' % (i, st['c'] % len(w.callers), st['op'], st['a'], st.get('pre') or ''))
            do(w, st)
        w.at = len(plan['steps'])
        w.drain()
        if plan.get('exit'):
            return w
        finish(w)
    except Violation as e:
        e.world = w
        raise
    return w


def finish(w):
    """Checks everything once more, then drops it all from any thread, in any order."""
    order = w.plan.get('order', 1)
    for k in list(w.slots):
        s = w.slots[k]
        w.submit(s.owner, 'last', wrap(lambda: check_full(s)))
        w.say('checked %s of caller %d' % (s.kind, s.owner))
    s = None
    r = Rng(order)
    for k in shuffled(sorted(w.slots), order | 1):
        def job():
            s = w.slots.pop(k)
            s.obj = None
            s.also.clear()
        w.submit(r.below(64), 'drop', job)
        if r.chance(10):
            w.submit(r.below(64), 'gc', wrap(gc.collect))
    w.submit(r.below(64), 'gc', wrap(gc.collect))
    for c in w.callers:
        c.job = None
        c.what = None
        c.go.release()
        w.back.acquire()
    gc.collect()
    w.after()
    live = native.sim_live() - w.live0
    ensure(live == 0, 'py:leak', '%d bytes (%d blocks) of native memory stay allocated after everything is dropped', live, native.sim_blocks())
    w.bump('clean_ends')


# ---- plans

W16 = {'new': 6, 'load': 4, 'edge': 8, 'del': 3, 'addv': 6, 'bulk': 3, 'query': 10, 'dup': 4, 'approx': 3, 'pool': 4, 'comp': 4,
       'decomp': 3, 'bytes': 4, 'text': 3, 'edges': 6, 'ins': 3, 'outs': 4, 'entries': 5, 'iter': 6, 'index': 5, 'for': 5,
       'next': 10, 'chain': 5, 'drop': 14, 'alias': 2, 'ring': 4, 'gc': 4, 'give': 4, 'bad': 0, 'oom': 0}
W17 = {'new': 4, 'load': 8, 'edge': 5, 'del': 2, 'addv': 4, 'bulk': 6, 'query': 4, 'dup': 2, 'approx': 2, 'pool': 6, 'comp': 4,
       'decomp': 2, 'bytes': 2, 'text': 2, 'edges': 1, 'ins': 1, 'outs': 1, 'entries': 1, 'iter': 1, 'index': 1, 'for': 1,
       'next': 1, 'chain': 1, 'drop': 4, 'alias': 0, 'ring': 1, 'gc': 2, 'give': 1, 'bad': 16, 'oom': 22}


def gen(prop, seed, idx):
    r = Rng(mix(mix(seed, int(prop[1:])), idx))
    wt = dict(W16 if prop == 'C16' else W17)
    # Each run favours some operations.
    for k in OPS:
        if r.chance(20):
            wt[k] *= [0, 3, 6][r.below(3)]
    wt['new'] += 2
    callers = [1, 1, 2, 2, 3, 4][r.below(6)]
    p = {'prop': prop, 'seed': seed, 'idx': idx, 'entropy': r.next() >> 1, 'callers': callers, 'order': r.next() >> 1,
         'keep': [4095, 4095, 4095, 0, 1, 8][r.below(6)], 'steps': []}
    if r.chance(6):
        p['exit'] = 1
    span = [3, 10, 20, 40][r.below(4)]
    presure = [0, 10, 25, 50][r.below(4)]
    ws = [wt[k] for k in OPS]
    if prop == 'C16' and idx % 640 == 77:
        # A few operations on a graph of tens of thousands of edges.
        p['callers'] = callers = min(callers, 2)
        p['steps'] = [{'c': 0, 'op': 'new', 'a': [r.below(2), r.below(2)]},
                      {'c': 0, 'op': 'wide', 'a': [0, r.below(5), r.below(5)]}]
        for _ in range(3 + r.below(6)):
            op = ['edges', 'edges', 'outs', 'for', 'for', 'index', 'bytes', 'dup', 'drop', 'gc', 'comp', 'query'][r.below(12)]
            p['steps'].append({'c': r.below(callers), 'op': op, 'a': [r.below(3), r.below(4), r.below(4), r.below(40), r.below(8), r.below(8), r.below(8)]})
        return p
    for c in range(callers):
        p['steps'].append({'c': c, 'op': 'new', 'a': [r.below(2), r.below(2)]})
    for _ in range([6, 20, 50, 90][r.below(4)] + r.below(10)):
        op = OPS[r.weighted(ws)]
        big = r.chance(6) and op in ('edge', 'addv')
        ids = [r.pick([1 << 20, 1 << 33, 1 << 40, (1 << 63) - 1, (1 << 64) - 2]) if big else r.below(span) for _ in range(2)]
        o = r.below(64)
        a = [o]
        if op in ('edge', 'del'):
            a += ids + [r.below(8)]
        elif op == 'addv':
            a += [ids[0], r.below(40), r.below(40), r.pick([30, 64, 65, 100, 129, 257, 300]) if r.chance(5) else r.below(12), r.below(8)]
        elif op in ('load', 'bad'):
            a = [r.below(1 << 30)] + [r.below(2) if op == 'bad' else r.below(1 << 30)] + [r.below(1 << 30) for _ in range(6)]
        elif op == 'query':
            a += [r.below(8), r.below(span), r.below(span), r.below(3)]
        elif op in ('ins', 'outs'):
            a += [r.below(span), r.below(4)]
        else:
            a += [r.below(1 << 16) for _ in range(6)]
        st = {'c': r.below(callers), 'op': op, 'a': a}
        if r.chance(presure) and op not in ('give',):
            st['pre'] = [[1 + r.below(r.pick([12, 40, 120])), int(r.chance(30)), 1 + r.below(6)] for _ in range(1 + r.below(3))]
        p['steps'].append(st)
    return p
