"""C16: bandwidth limits (mod_throttle, throttle.c)"""
import itertools
from h import *

R = 100 * 1024          # rate of every limit, bytes per second
OVER = 8 * 1024         # "overload" to get a response started
STEP = 0.1
SIZE = 450000
DATA = bytes((i * 7 + (i >> 8)) & 0xff for i in range(SIZE))
PEERS = ['10.0.0.1', '10.0.0.1', '10.0.0.2', '2001:db8::1', '2001:db8::2', '2001:db9::1']

# query -> actions, limits: (scope, burst, rate)
MODES = {
    's': ('io.throttle 100kbyte;', [('con', 2 * R, R)]),
    'sb': ('io.throttle (150kbyte, 100kbyte);', [('con', 150 * 1024, R)]),
    'sm': ('io.throttle (20kbyte, 100kbyte);', [('con', 20 * 1024, R)]),
    'p': ('io.throttle_pool 100kbyte;', [('all', 2 * R, R)]),
    'i': ('io.throttle_ip 100kbyte;', [('ip', 2 * R, R)]),
    'sp': ('io.throttle_pool 200kbyte; io.throttle 100kbyte;', [('con', 2 * R, R), ('all', 4 * R, 2 * R)]),
    'ip': ('io.throttle_ip 100kbyte; io.throttle_pool 200kbyte;', [('ip', 2 * R, R), ('all', 4 * R, 2 * R)]),
    'off': ('io.throttle 100kbyte; io.throttle 0;', []),
}


def setup(wd):
    with open(wd + '/f', 'wb') as f:
        f.write(DATA)
    for n in (KSIZE, 20000, 3000, 50000):
        with open(wd + '/k%d' % n, 'wb') as f:
            f.write(DATA[:n])


def config(wd):
    l = []
    for i, (q, (a, _)) in enumerate(MODES.items()):
        l.append('%sif req.query == "%s" { %s }' % ('else ' if i else '', q, a))
    l.append('if req.path == "/b" { scgi "unix:/b"; } else { docroot "%s"; static; }' % wd)
    return conf('\n'.join(l), ['mod_throttle', 'mod_scgi'], setup='stat_cache.ttl 100000;')


def group_of(scope, i, peers):
    if scope == 'con':
        return i
    if scope == 'all':
        return 'all'
    p = PEERS[peers[i]]
    return p if '.' in p else ':'.join(p.split(':')[:2])    # IPv6 clients are grouped by network


TMAX = 45


def script(case, pre=None):
    """case: (mode, path, peers, starts, aborts) in ticks"""
    mode, path, peers, starts, aborts, tmax = case
    sc = pre or Script()
    sc.now()
    nb = 64
    for t in range(tmax):
        for i, s in enumerate(starts):
            if s == t:
                sc.connect(i, peer=PEERS[peers[i]]).send(i, req(path='/%s?%s' % (path, mode)))
                if path == 'b':
                    sc.q().send(nb, b'Status: 200\r\nContent-Length: %d\r\n\r\n' % SIZE + DATA).close(nb)
                    nb += 1
        sc.q()
        for i, a in enumerate(aborts):
            if a == t:
                sc.close(i)
        sc.q()
        for i, s in enumerate(starts):
            if s <= t and not (0 <= aborts[i] <= t):
                sc.drain(i).info(i)
        sc.now().advance(STEP)
    return sc.reset(1)


def curves(r, n):
    """bytes received per connection and tick, times of the ticks"""
    times = [t for _, t in r.marks[1:]]
    cur = [[0] * len(times) for _ in range(n)]
    p = 0
    for t, (e, _) in enumerate(r.marks[1:]):
        for k, d in r.steps[p:e]:
            if d is not None and k < n:
                cur[k][t] += len(d)
        p = e
    return times, cur


def judge(case, r):
    mode, path, peers, starts, aborts, tmax = case
    n = len(starts)
    times, cur = curves(r, n)
    total = SIZE + 300
    done = []
    for i in range(n):
        d = r.data.get(i, b'')
        b = b''
        if d:
            rs, err = bodies(r, i, ['GET'])
            if err or len(rs[0]) > 1:
                return 'connection %d: %s' % (i, err or 'more than one response')
            b = rs[0][0].body if rs[0] else b''
        if d and not d.startswith(b'HTTP/1.1 200'):
            return 'connection %d: %s' % (i, short(d))
        if not DATA.startswith(b):
            return 'connection %d: body differs from the file' % i
        done.append(len(b) == SIZE)
        if r.rst.get(i) or (r.eof.get(i) and not done[i]):
            return 'connection %d: closed after %d body bytes' % (i, len(b))
    # tick after which a connection is finished or gone
    last = []
    for i in range(n):
        l = max([t for t in range(len(times)) if cur[i][t]] or [0]) if done[i] else tmax
        last.append(min(l, aborts[i]) if aborts[i] >= 0 else l)
    lims = MODES[mode][1]
    if not lims:
        return None if all(done[i] or aborts[i] >= 0 for i in range(n)) else 'unlimited connection is slow'
    for scope, burst, rate in lims:
        for g in sorted({group_of(scope, i, peers) for i in range(n)}, key=str):
            mem = [i for i in range(n) if group_of(scope, i, peers) == g]
            s = [sum(cur[i][t] for i in mem) for t in range(len(times))]
            pre = [0]
            for x in s:
                pre.append(pre[-1] + x)
            for a in range(0, len(times)):
                if not s[a]:
                    continue
                for b in range(a, len(times)):
                    got = pre[b + 1] - pre[a]
                    lim = burst + rate * (times[b] - times[a] + STEP) + (OVER + 1024) * len(mem) + (0 if a == starts[mem[0]] else 65536 * len(mem))
                    if got > lim:
                        return 'limit %s (%s): %d bytes sent between %.1f and %.1f s, allowed %d: %r' % (scope, g, got, times[a] - times[0], times[b] - times[0], lim, s[:12])
    # progress: nobody starves, and the bandwidth is used
    for i in range(n):
        for t in range(starts[i], min(last[i], tmax) - 16):
            if not any(cur[i][t:t + 16]):
                return 'connection %d gets nothing for 1.6 s from %.1f s on: %r' % (i, t * STEP, cur[i])
    for t in range(tmax):
        act = [i for i in range(n) if starts[i] <= t < last[i]]
        if not act:
            continue
        e = t
        while e + 1 < tmax and [i for i in range(n) if starts[i] <= e + 1 < last[i]] == act:
            e += 1
        if e - t < 20:
            continue
        # what the limits allow together
        cap = sum(min([rate / (1 if scope == 'con' else len([j for j in act if group_of(scope, j, peers) == group_of(scope, i, peers)])) for scope, burst, rate in lims]) for i in act)
        got = sum(cur[i][x] for i in act for x in range(t, e + 1))
        if got < 0.6 * cap * ((e - t) * STEP - 1.2):
            return 'only %d bytes in %.1f s, the limits allow %d per second: %r' % (got, (e - t) * STEP, cap, cur)
    return None


def cases(th):
    st = [0, 3, 10] if not th else [0, 1, 3, 7, 10]
    ab = [-1, 6, 14] if not th else [-1, 2, 6, 11, 14]
    for mode in MODES:
        for path in ('f', 'b'):
            for peers in ([0], [0, 1], [0, 2], [3, 4], [3, 5], [0, 1, 2], [0, 1, 3]):
                n = len(peers)
                if mode in ('s', 'sb', 'sm', 'off') and n > 2:
                    continue
                if path == 'b' and n > 1 and not th:
                    continue
                for s in itertools.product([0] if n == 1 else st, repeat=n - 1 or 1):
                    starts = (0,) + s if n > 1 else (0,)
                    for a in itertools.product(ab, repeat=n):
                        if any(0 <= x <= y for x, y in zip(a, starts)) or all(x >= 0 for x in a):
                            continue
                        if n == 3 and not th and sum(1 for x in a if x >= 0) > 1:
                            continue
                        yield (mode, path, tuple(peers), starts, a, 45)


def outcome(case, r):
    times, cur = curves(r, len(case[3]))
    return (case[0], tuple(tuple(c) for c in cur)).__hash__()


def expand(th):
    for c in cases(th):
        yield c, script(c)


# -- many requests on one connection
KSIZE = 90000


def ka_cases(th):
    for mode in MODES:
        for n in (3, 8) if not th else (2, 3, 5, 8, 12):
            for size in (KSIZE, 20000) if not th else (KSIZE, 20000, 3000, 50000):
                for lock in (False, True):
                    for two in (False, True):
                        sc = Script().now()
                        ks = [0, 1] if two else [0]
                        for k in ks:
                            sc.connect(k, peer=PEERS[0])
                        rq = req(path='/k%d?%s' % (size, mode))
                        if not lock:
                            for k in ks:
                                sc.send(k, rq * n)
                        for t in range(45):
                            # lock step: one request per tick
                            if lock and t < 5 * n and t % 5 == 0:
                                for k in ks:
                                    sc.send(k, rq)
                            sc.q()
                            for k in ks:
                                sc.drain(k)
                            sc.now().advance(STEP)
                        yield (mode, n, size, lock, two), sc.reset(1)


def ka_judge(key, r):
    mode, n, size, lock, two = key
    ks = [0, 1] if two else [0]
    times, cur = curves(r, len(ks))
    for k in ks:
        rs, err = bodies(r, k, ['GET'] * n)
        if err:
            return err
        for x in rs[0]:
            if x.status != 200 or not (DATA[:size] == x.body if x.complete else DATA[:size].startswith(x.body)):
                return 'connection %d: wrong response %d' % (k, x.status)
        if r.eof.get(k) or r.rst.get(k):
            return 'connection %d closed' % k
    for scope, burst, rate in MODES[mode][1]:
        groups = [[k] for k in ks] if scope == 'con' else [ks]
        for g in groups:
            got = 0
            for t in range(len(times)):
                got += sum(cur[k][t] for k in g)
                lim = burst + rate * (times[t] - times[0] + STEP) + (OVER + 1024) * len(g)
                if scope != 'con' and lock:
                    lim += rate * 1.0          # an idle pool is refilled for up to a second
                if got > lim:
                    return 'limit %s: %d bytes in %.1f s, allowed %d' % (scope, got, times[t] - times[0], lim)
    tot = sum(sum(c) for c in cur)
    need = (min(n, 8) if lock else n) * size * len(ks)
    if MODES[mode][1]:
        cap = min(rate * (len(ks) if scope == 'con' else 1) for scope, burst, rate in MODES[mode][1])
        need = min(need, 0.6 * cap * (4.4 - 1.2))
    if tot < need:
        return 'only %d bytes in 4.4 s, expected at least %d' % (tot, need)
    return None


# -- an idle connection saves up no more than burst
def idle_cases(th):
    for mode in MODES:
        for first in ('k3000', 'k%d' % KSIZE, 'k50000') if th else ('k3000',):
            for idle in (1.0, 4.0) if not th else (0.5, 1.0, 2.0, 4.0, 4.8):
                for many in (False, True):
                    c = (mode, 'f', (0, 1) if many else (0,), (0,) * (2 if many else 1), (-1,) * (2 if many else 1), 45)
                    sc = Script()
                    for k in range(len(c[2])):
                        sc.connect(k, peer=PEERS[0]).send(k, req(path='/%s?%s' % (first, mode))).q()
                    for t in range(15):
                        for k in range(len(c[2])):
                            sc.drain(k)
                        sc.advance(STEP).q()
                    # keep the connections alive, then idle
                    for k in range(len(c[2])):
                        sc.send(k, req(path='/k3000?%s' % mode)).q().drain(k)
                    sc.advance(idle).q()
                    sc.now()
                    for k in range(len(c[2])):
                        sc.send(k, req(path='/f?%s' % mode))
                    for t in range(45):
                        sc.q()
                        for k in range(len(c[2])):
                            sc.drain(k)
                        sc.now().advance(STEP)
                    yield (c, first, idle), sc.reset(1)


def idle_judge(key, r):
    c, first, idle = key
    n = len(c[2])
    e0 = r.marks[0][0]
    for k in range(n):
        rs, err = bodies(r, k, ['GET'] * 3)
        if err or len(rs[0]) != 3:
            if r.eof.get(k) and len(rs[0]) == 2:
                return None          # keep-alive timeout
            return err or 'connection %d: %d responses' % (k, len(rs[0]))
        if not DATA.startswith(rs[0][2].body):
            return 'wrong body'
    times = [t for _, t in r.marks[1:]]
    for scope, burst, rate in MODES[c[0]][1]:
        for g in ([[k] for k in range(n)] if scope == 'con' else [list(range(n))]):
            p, got = e0, 0
            for (e, t) in r.marks[1:]:
                got += sum(len(d) for k, d in r.steps[p:e] if d is not None and k in g)
                p = e
                lim = burst + rate * (t - r.marks[0][1] + STEP + (2.0 if scope != 'con' else 0)) + (OVER + 1024) * len(g) + 65536 * len(g)       # up to one step may be in the hands of the connection
                if got > lim:
                    return 'limit %s after %.1f s idle: %d bytes in %.1f s, allowed %d' % (scope, idle, got, t - r.marks[0][1], lim)
    return None


# -- the 32 bit millisecond clock
def wrap_cases(th):
    wrap = 396 * 4294967.296
    for mode in MODES:
        for path in ('f', 'b') if th else ('f',):
            for peers in ([0], [0, 1], [0, 3]) if th else ([0], [0, 1]):
                for off in (-1.0, -0.15, 0.0, 0.15, -3.0) if th else (-1.0, 0.0):
                    c = (mode, path, tuple(peers), (0,) * len(peers), (-1,) * len(peers), 45)
                    # a first transfer before the clock wraps uses the pools
                    pre = Script().connect(20, peer=PEERS[0]).send(20, req(path='/f?%s' % mode)).q().advance(1).q().drain(20).close(20).q()
                    pre.advance(wrap + off - 1700000000.0 - 1.0)
                    yield (c, off), script(c, pre)


def run(ctx):
    ctx.explore('transfers', config, lambda: expand(ctx.thorough), judge, setup=setup, batch=4)
    ctx.explore('keep-alive', config, lambda: ka_cases(ctx.thorough), ka_judge, setup=setup, batch=4)
    ctx.explore('after idle', config, lambda: idle_cases(ctx.thorough), idle_judge, setup=setup, batch=4)
    ctx.explore('clock wrap', config, lambda: wrap_cases(ctx.thorough), lambda k, r: judge(k[0], r), setup=setup, batch=1, isolate=True)
