#!/usr/bin/python3
"""driver.py check PROP [--tier T] [--runs N] [--secs N] | replay FILE | run PROP IDX | show PROP IDX

Deterministic simulation of the Python package (see world.py). Every run is a process forked from a
worker; everything it does is a function of the plan, the package and the native library."""
import json
import marshal
import mmap
import os
import shutil
import signal
import struct
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
LIB = os.path.join(VERIF, 'target/sim/debug/libpylib.so')
HARNESS = 2


def stage():
    """A scratch copy of the package with the instrumented library in it; then this program again, with
    that library preloaded so that its entropy seam is in place."""
    scratch = os.path.join(VERIF, 'target/py/%d' % os.getpid())
    pkg = os.path.join(scratch, 'graphrox')
    shutil.copytree('/repo/graphrox-py/graphrox', pkg, ignore=shutil.ignore_patterns('*.so', '*.dll', '*.dylib', '__pycache__'))
    so = os.path.join(pkg, 'graphrox-x86_64-unknown-linux-gnu.so')
    shutil.copy(LIB, so)
    os.link(so, os.path.join(pkg, 'graphrox-aarch64-unknown-linux-gnu.so'))
    env = dict(os.environ, LD_PRELOAD=so, PYTHONHASHSEED='0', GSIM_PY_STAGE=scratch, PYTHONDONTWRITEBYTECODE='1')
    env.pop('PYTHONPATH', None)
    pid = os.fork()
    if pid == 0:
        os.execve('/usr/bin/python3', ['python3', '-B', '-s', os.path.abspath(__file__)] + sys.argv[1:], env)
    st = os.waitpid(pid, 0)[1]
    shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(os.WEXITSTATUS(st) if os.WIFEXITED(st) else HARNESS)


def load(scratch):
    os.environ.pop('LD_PRELOAD', None)
    sys.path.insert(0, scratch)
    sys.path.insert(0, HERE)
    import ctypes
    import world
    world.PKG = os.path.join(scratch, 'graphrox')
    world.patch_locks()
    so = os.path.join(world.PKG, 'graphrox-x86_64-unknown-linux-gnu.so')
    n = ctypes.CDLL(so)
    n.sim_live.restype = n.sim_blocks.restype = ctypes.c_int64
    n.sim_error.restype = ctypes.c_size_t
    n.sim_fault.argtypes = [ctypes.c_size_t, ctypes.c_uint32, ctypes.c_uint32]
    n.sim_entropy.argtypes = n.sim_thread_entropy.argtypes = n.sim_quarantine.argtypes = [ctypes.c_uint64]
    world.native = n
    import graphrox
    if not graphrox.__file__.startswith(scratch):
        raise ImportError('the wrong package was loaded')
    world.gx = graphrox

    if world.arm() < 30:
        raise ImportError('the package has no functions to preempt')
    import gc
    gc.collect()
    gc.freeze()
    return world


class Result:
    def __init__(self, viol, digest, ctr, fps, at, trace):
        self.viol, self.digest, self.ctr, self.fps, self.at, self.trace = viol, digest, ctr, fps, at, trace


NO_EXIT = object()


def child(world, plan, wfd, trace):
    loud = os.environ.get('GSIM_STDERR')
    os.environ.clear()
    import resource
    resource.setrlimit(resource.RLIMIT_CPU, (30, 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    signal.alarm(100)
    err = os.memfd_create('stderr')
    if not loud:
        os.dup2(err, 2)
    tr = [] if trace else None
    viol, w = None, None
    try:
        w = world.run(plan, tr)
    except world.Violation as e:
        viol, w = [e.cls, e.msg], e.world
    out = marshal.dumps([viol, w.digest, w.ctr, w.fps, getattr(w, 'at', -1), tr or []])
    os.write(wfd, struct.pack('<I', len(out)))
    while out:
        out = out[os.write(wfd, out):]
    if viol or not plan.get('exit'):
        os._exit(0)
    # The interpreter goes down with objects alive: finalisers run while modules disappear.
    world.native.sim_report_at_exit(wfd)
    sys.unraisablehook = lambda u: os.write(wfd, b'U' + ('%s: %s' % (getattr(u.exc_type, '__name__', '?'), u.exc_value)).encode()[:300] + b'\n')


class Leave(BaseException):
    pass


def run_forked(world, plan, trace=False):
    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            child(world, plan, wfd, trace)
        except BaseException as e:
            import traceback
            try:
                os.write(wfd, struct.pack('<I', 0xFFFFFFFF) + traceback.format_exc().encode()[-3000:])
            finally:
                os._exit(3)
        raise Leave()
    os.close(wfd)
    buf = bytearray()
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf += b
    os.close(r)
    st = os.waitpid(pid, 0)[1]
    n = struct.unpack('<I', buf[:4])[0] if len(buf) >= 4 else None
    if n == 0xFFFFFFFF:
        return Result(['harness', buf[4:].decode('utf-8', 'replace')], 0, {}, [], -1, [])
    res = None
    if n is not None and len(buf) >= 4 + n:
        res = Result(*marshal.loads(bytes(buf[4:4 + n])))
        rest = bytes(buf[4 + n:])
        if res.viol:
            return res
    else:
        res, rest = Result(None, 0, {}, [], -1, []), b''
    if os.WIFSIGNALED(st):
        s = os.WTERMSIG(st)
        res.viol = {signal.SIGXCPU: ['hang', 'no end after 30 s of processor time'], signal.SIGALRM: ['hang', 'no end after 100 s'],
                    signal.SIGKILL: ['hang' if 0 else 'harness', 'killed from outside'], signal.SIGABRT: ['abort', 'the interpreter was aborted'],
                    }.get(s, ['signal%d' % s, 'the interpreter died of signal %d' % s])
    elif os.WEXITSTATUS(st):
        res.viol = ['exit', 'the interpreter exited with code %d' % os.WEXITSTATUS(st)]
    elif n is None:
        res.viol = ['exit', 'the interpreter exited in the middle of a call']
    elif plan.get('exit'):
        if b'E' not in rest:
            res.viol = ['exit', 'the interpreter did not reach the end of its exit']
        else:
            u, _, e = rest.partition(b'E')
            if e:
                res.viol = ['memory', 'at interpreter exit: ' + e.decode()]
            elif u:
                res.viol = ['py:unraisable', 'at interpreter exit: ' + u.decode('utf-8', 'replace')]
    return res


def workers(world, prop, seed, runs, secs, nw):
    shm = mmap.mmap(-1, 4096)
    shm[0:8] = struct.pack('<Q', (1 << 64) - 1)
    end = time.monotonic() + secs
    rs, pids = [], []
    for k in range(nw):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for x in rs:
                os.close(x)
            out = {'done': 0, 'ctr': {}, 'states': set(), 'digests': set(), 'trivial': 0, 'sum': 0, 'unconfirmed': 0, 'harness': [], 'last': k}
            i = k
            while i < runs and i <= struct.unpack('<Q', shm[0:8])[0] and time.monotonic() < end:
                p = world.gen(prop, seed, i)
                res = run_forked(world, p)
                for a, b in res.ctr.items():
                    out['ctr'][a] = out['ctr'].get(a, 0) + b
                if len(out['states']) < 3000000:
                    out['states'].update(res.fps)
                if res.ctr.get('calls', 0) < 3:
                    out['trivial'] += 1
                else:
                    out['digests'].add(res.digest)
                out['sum'] = (out['sum'] + world.mix(res.digest, i)) & world.M64
                out['done'] += 1
                if res.viol:
                    if res.viol[0] == 'harness':
                        out['harness'].append('run %d: %s' % (i, res.viol[1]))
                        break
                    if not any(run_forked(world, p).viol for _ in range(3)):
                        # Not a function of the plan: a disturbance from outside the simulation.
                        out['unconfirmed'] += 1
                        print('driver: run %d failed once and not again: %s: %s' % (i, *res.viol), file=sys.stderr, flush=True)
                        i += nw
                        continue
                    if i < struct.unpack('<Q', shm[0:8])[0]:
                        shm[0:8] = struct.pack('<Q', i)
                    out['viol'] = i
                    break
                i += nw
            b = marshal.dumps(out)
            while b:
                b = b[os.write(wfd, b[:1 << 20]):]
            os._exit(0)
        os.close(wfd)
        rs.append(r)
        pids.append(pid)
    tot = {'done': 0, 'ctr': {}, 'states': set(), 'digests': set(), 'trivial': 0, 'sum': 0, 'unconfirmed': 0, 'harness': [], 'viol': None}
    for r, pid in zip(rs, pids):
        b = bytearray()
        while True:
            x = os.read(r, 1 << 20)
            if not x:
                break
            b += x
        os.close(r)
        os.waitpid(pid, 0)
        try:
            o = marshal.loads(bytes(b))
        except (EOFError, ValueError):
            tot['harness'].append('a worker died')
            continue
        for k in ('done', 'trivial', 'sum', 'unconfirmed'):
            tot[k] += o[k]
        for a, n in o['ctr'].items():
            tot['ctr'][a] = tot['ctr'].get(a, 0) + n
        tot['states'] |= o['states']
        tot['digests'] |= o['digests']
        tot['harness'] += o['harness']
        if 'viol' in o and (tot['viol'] is None or o['viol'] < tot['viol']):
            tot['viol'] = o['viol']
    tot['sum'] &= world.M64
    return tot


def shrink(world, plan):
    """ddmin over steps, then over preemptions, callers and arguments; the violation class must stay."""
    import copy
    budget = time.monotonic() + 60
    first = run_forked(world, plan)
    if not first.viol:
        return None, None
    cls = first.viol[0]

    def fails(p):
        if time.monotonic() > budget:
            return False
        v = run_forked(world, p).viol
        return v is not None and v[0] == cls
    cur = copy.deepcopy(plan)
    if 0 <= first.at < len(cur['steps']):
        t = dict(cur, steps=cur['steps'][:first.at + 1])
        if fails(t):
            cur = t
    n = 2
    while len(cur['steps']) > 1:
        k = max(1, len(cur['steps']) // n)
        for i in range(0, len(cur['steps']), k):
            t = dict(cur, steps=cur['steps'][:i] + cur['steps'][i + k:])
            if fails(t):
                cur = t
                n = max(2, n - 1)
                break
        else:
            if k == 1:
                break
            n = min(len(cur['steps']), n * 2)
    for key, v in (('exit', 0), ('keep', 4095), ('order', 0), ('callers', 1), ('callers', 2)):
        if cur.get(key, v) != v and not (key == 'callers' and cur['callers'] <= v):
            t = dict(cur)
            t[key] = v
            if fails(t):
                cur = t
    for i in range(len(cur['steps'])):
        st = cur['steps'][i]
        for j in range(len(st.get('pre', [])) - 1, -1, -1):
            t = copy.deepcopy(cur)
            del t['steps'][i]['pre'][j]
            if not t['steps'][i]['pre']:
                del t['steps'][i]['pre']
            if fails(t):
                cur = t
        for j in range(len(st['a'])):
            for v in (0, 1):
                if cur['steps'][i]['a'][j] > v:
                    t = copy.deepcopy(cur)
                    t['steps'][i]['a'][j] = v
                    if fails(t):
                        cur = t
                        break
        if cur['steps'][i]['c']:
            t = copy.deepcopy(cur)
            t['steps'][i]['c'] = 0
            if fails(t):
                cur = t
    return cur, run_forked(world, cur, True)


def known(prop, viol):
    try:
        for l in open(os.path.join(VERIF, 'known_findings.txt')):
            if l.startswith('known: property=%s class=%s contains=' % (prop, viol[0])):
                t = l.rstrip('\n').split(' contains=', 1)[1]
                if t in viol[1]:
                    return t
    except OSError:
        pass
    return None


RULE = {
    'C16': 'One evaluation is one simulated run: 1-4 Python threads make 6-100 calls on the real package, preempted between bytecodes inside it, with collections at planned points; objects, lists and iterators are handed over, put in cycles and dropped in any order (or left to interpreter exit); every result is compared with a model, every native block with the allocator\'s records. Non-trivial: at least 3 calls; distinct: different digest of the model states passed through.',
    'C17': 'One evaluation is one simulated run: as for C16, with damaged images given to from_bytes and refused or impossible native allocations during bytes(), matrix_string() and to_string(), each checked for its exception and for leaks, then retried. Non-trivial: at least 3 calls; distinct: different digest.',
}


def check(world, prop, tier, seed, runs, secs, nw):
    t0 = time.monotonic()
    thorough = tier == 'thorough'
    runs = runs or (1 << 60 if thorough else {'C16': 8000, 'C17': 10000}[prop])
    secs = secs or (900 if thorough else 240)
    failed = corpus = 0
    for f in sorted(os.listdir(os.path.join(VERIF, 'corpus'))):
        if f.startswith(prop + '-') and f.endswith('.json'):
            path = os.path.join(VERIF, 'corpus', f)
            corpus += 1
            v = run_forked(world, json.load(open(path))['plan']).viol
            if v and v[0] == 'harness':
                print(v[1], file=sys.stderr)
                return HARNESS
            if v and known(prop, v):
                print('KNOWN-FINDING: property=%s %s' % (prop, known(prop, v)))
            elif v:
                print('%s: %s' % (v[0], v[1]))
                print('VIOLATION property=%s replay=%s' % (prop, path))
                failed += 1
    tot = workers(world, prop, seed, min(runs, 200) if failed else runs, secs, nw)
    sweep = time.monotonic() - t0
    if tot['harness'] and tot['viol'] is None:
        for h in tot['harness'][:3]:
            print('driver: harness error: ' + h, file=sys.stderr)
        return 1 if failed else HARNESS
    mism, again = 0, 100 if thorough else 16
    again = min(again, tot['done'])
    for k in range(again):
        p = world.gen(prop, seed, k * 37 % tot['done'])
        a, b = run_forked(world, p), run_forked(world, p)
        mism += (a.digest, a.ctr, a.viol) != (b.digest, b.ctr, b.viol)
    if tot['viol'] is not None:
        plan = world.gen(prop, seed, tot['viol'])
        small, res = shrink(world, plan)
        if small is None or not res.viol:
            print('driver: run %d of %s failed once and not again' % (tot['viol'], prop), file=sys.stderr)
            return 1 if failed else HARNESS
        k = known(prop, res.viol)
        if k:
            print('KNOWN-FINDING: property=%s %s' % (prop, k))
        else:
            failed += 1
            os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
            path = os.path.join(VERIF, 'replays/%s-%d-%d.json' % (prop, seed, tot['viol']))
            with open(path, 'w') as f:
                json.dump({'plan': small, 'violation': res.viol, 'at_step': res.at, 'steps_kept': '%d of %d' % (len(small['steps']), len(plan['steps'])), 'trace': res.trace}, f, indent=1)
                f.write('\n')
            print('%s: %s' % (res.viol[0], res.viol[1]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
    ctr = tot['ctr']
    wall = time.monotonic() - t0
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': {
        'evaluations': tot['done'], 'distinct_nontrivial': len(tot['digests']), 'rule': RULE[prop],
        'samples': [json.dumps(world.gen(prop, seed, i))[:1500] for i in sorted({0, tot['done'] // 2, max(0, tot['done'] - 1)})],
        'runs_and_seeds_per_hour': round(tot['done'] / sweep * 3600), 'simulated_seconds': ctr.get('steps', 0) / 1000,
        'distinct_states_reached': len(tot['states']),
        'state_measure': 'distinct hashes of (model state of the object, operation, number of live objects, number of suspended threads) at each operation',
        'faults_injected': {k[2:]: v for k, v in sorted(ctr.items()) if k.startswith('f_')},
        'work': {k: v for k, v in sorted(ctr.items()) if not k.startswith('f_')},
        'trivial_runs': tot['trivial'], 'combined_digest': '%016x' % tot['sum'], 'regression_plans_replayed': corpus, 'failures_not_reproduced': tot['unconfirmed'],
        'determinism_reruns': again * 2, 'determinism_mismatches': mism, 'workers': nw, 'sweep_wall_s': round(sweep, 2),
        'real_code': 'graphrox-py/graphrox, graphrox-c and graphrox-rs from /repo, CPython 3.12 with real threads, ctypes',
        'stubs': 'scheduler (one thread runs at a time, preempted between bytecodes of the package), points of cyclic collection, locks of the threading module, native allocator, process entropy'},
        'assumptions': ['one thread at a time inside a native call', 'each object is used by one thread at a time; hand-overs between threads are allowed', 'memory faults hit native requests for byte images and strings'],
        'wall_s': round(wall, 2), 'violations': failed}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence/%s.json' % prop), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    print('%s %s: %d runs, %d distinct, %d states, %.1f s, violations %d, rerun mismatches %d' % (
        prop, tier, tot['done'], len(tot['digests']), len(tot['states']), wall, failed, mism))
    return 1 if failed else 0


def main():
    scratch = os.environ.get('GSIM_PY_STAGE')
    if not scratch:
        stage()
    av = sys.argv[1:]

    def opt(k, d):
        return av[av.index(k) + 1] if k in av else d
    seed = int(os.environ.get('VERIF_SEED') or 1)
    try:
        world = load(scratch)
    except Exception as e:
        print('driver: the package cannot be loaded: %s: %s' % (type(e).__name__, e), file=sys.stderr)
        return HARNESS
    if av[0] == 'check':
        tier = opt('--tier', os.environ.get('VERIF_TIER') or 'quick')
        nw = int(opt('--workers', min(8, max(2, os.cpu_count() or 4))))
        return check(world, av[1], tier, seed, int(opt('--runs', 0)), float(opt('--secs', 0)), nw)
    if av[0] == 'replay':
        res = run_forked(world, json.load(open(av[1]))['plan'], True)
        prop = json.load(open(av[1]))['plan']['prop']
    else:
        p = world.gen(av[1], seed, int(av[2]))
        if av[0] == 'show':
            print(json.dumps(p, indent=1))
            return 0
        prop, res = av[1], run_forked(world, p, True)
        print(sorted(res.ctr.items()))
    for l in res.trace:
        print('| ' + l)
    print('digest %016x' % res.digest)
    if res.viol:
        print('%s at step %d: %s' % (res.viol[0], res.at, res.viol[1]))
        print('VIOLATION property=%s replay=%s' % (prop, av[1]))
        return 1
    print('no violation')
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except Leave:
        rc = 0
    sys.exit(rc)
