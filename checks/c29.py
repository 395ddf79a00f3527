"""C29: balanced backends: every request reaches exactly one working backend, failed ones are skipped, retried, and the choice is fair"""
import itertools, re
from h import *

NB = {'rr1': 1, 'rr2': 2, 'rr3': 3, 'sq1': 1, 'sq2': 2, 'sq3': 3}


def addr(b, i):
    return '/%s%s' % (b, 'abc'[i])


def mkconf():
    l = []
    for b, n in sorted(NB.items()):
        acts = ', '.join('{ scgi "unix:%s"; }' % addr(b, i) for i in range(n))
        l.append('if req.host == "%s" { balance.%s %s; }' % (b, 'rr' if b[0] == 'r' else 'sqf', acts if n == 1 else '(%s)' % acts))
    l.append('if req.host == "nest" { balance.rr ({ balance.sqf ({ scgi "unix:/na"; }, { scgi "unix:/nb"; }); }, { scgi "unix:/nc"; }); }')
    l.append('if req.host == "plain" { scgi "unix:/px"; }')
    return conf('\n'.join(l), ['mod_scgi', 'mod_balance'])


def answer(k):
    return b'Status: 200\r\nContent-Type: text/x\r\n\r\nslot%d' % k


DT = {'T': 1.2, 'U': 6.0}


def script(b, n, modes, ops, nreq, pend=False, addrs=None):
    """ops: N new request; Fj answer on the j-th connection; Xj close it unanswered; Ai client i goes away;
    a/b/c: toggle the backend between accepting and refusing; T/U time passes; Oj/Ej pending connect j succeeds / fails"""
    addrs = addrs or ['unix:' + addr(b, i) for i in range(n)]
    mode = list(modes)
    sc = Script()
    for i in range(n):
        sc.connmode(addrs[i], {'u': 0, 'd': -ECONNREFUSED, 'p': 1}[mode[i]])
    ns = min(2 * nreq, 8)
    slots = range(64, 64 + ns)
    cl = 0
    for o in ops:
        c, j = o[0], int(o[1:] or 0)
        if c == 'N':
            sc.connect(cl, peer='10.0.0.%d' % (cl + 1)).send(cl, req('GET', '/i%d' % cl, host=b)).q()
            cl += 1
        elif c == 'F':
            sc.send(64 + j, answer(64 + j)).close(64 + j).q()
        elif c == 'X':
            sc.close(64 + j).q()
        elif c == 'A':
            sc.drain(j).close(j).q()
        elif c in 'abc':
            i = 'abc'.index(c)
            mode[i] = 'd' if mode[i] != 'd' else 'u'
            sc.connmode(addrs[i], 0 if mode[i] == 'u' else -ECONNREFUSED)
        elif c in 'TU':
            sc.advance(DT[c]).q()
        elif c == 'O':
            sc.complete(64 + j).q()
        elif c == 'E':
            sc.complete(64 + j, False).q()
        for k in slots:
            sc.drain(k)
        sc.now()
    # from here on everything works: all requests must be answered
    for i in range(n):
        sc.connmode(addrs[i], 0)
    if pend:
        slots = range(64, 64 + 24)
        for k in slots:
            sc.complete(k)
        sc.q()
    for _ in range(3 if pend else 2):
        for k in slots:
            sc.drain(k).send(k, answer(k)).close(k)
        sc.q().advance(6).q()
    for k in slots:
        sc.drain(k).send(k, answer(k)).close(k)
    sc.q()
    for i in range(cl):
        sc.drain(i)
    return sc.reset(15)


def ids(data):
    return [int(x) for x in re.findall(rb'REQUEST_URI\x00/i(\d+)\x00', data)]


def common(key, r, addrs):
    """delivered at most once, answered exactly once by the backend which got it; nothing given up"""
    b, n, modes, ops, nreq = key
    if r.leak != [0]:
        return '%r sockets stay open in the server after all peers are gone and all timeouts are over' % r.leak
    got = {}
    for k, d in r.data.items():
        if k >= 64:
            l = ids(d)
            if len(l) > 1:
                return 'two requests on one backend connection: %r' % l
            for i in l:
                if i in got:
                    return 'request %d was sent to two backends' % i
                got[i] = k
    aborted = {int(o[1:]) for o in ops if o[0] == 'A'}
    cut = {64 + int(o[1:]) for o in ops if o[0] in 'XE'}
    for i in range(ops.count('N')):
        if i in aborted:
            continue
        d = r.data.get(i, b'')
        rs, err = bodies(r, i, ['GET'])
        k = got.get(i)
        if k in cut:
            if not err and rs[0] and rs[0][0].status < 500:
                # the backend closed the connection without an answer (or it was answered before)
                if rs[0][0].body != b'slot%d' % k:
                    return 'request %d: backend %d closed without an answer, client got %s' % (i, k, short(d))
            continue
        if err or len(rs[0]) != 1:
            return 'request %d (backend connection %s) got %s' % (i, k, short(d) if d else 'no answer')
        x = rs[0][0]
        if k is None:
            return 'request %d never reached a backend: %s' % (i, short(d))
        if x.status != 200 or x.body != b'slot%d' % k:
            return 'request %d went to connection %d but was answered with %s' % (i, k, short(d))
    return None


def judge(key, r):
    b, n, modes, ops, nreq = key
    addrs = ['unix:' + addr(b, i) for i in range(n)]
    m = common(key, r, addrs)
    if m:
        return m
    up = [x == 'u' for x in modes]
    upsince = [0.0] * n
    fail = [None] * n        # time of the last failed attempt not followed by a success
    hist = [None] * n        # time of the last failed attempt
    load = [0] * n
    last = None
    now = 1e9
    conn = {}                # slot -> backend
    where = {}               # request -> slot
    open_ = set()
    waiting = {}
    cl = 0
    pos = 0
    L = r.log
    aborted = set()
    for step, o in enumerate(ops):
        c, j = o[0], int(o[1:] or 0)
        seg = []
        while L[pos][0] != 't':
            seg.append(L[pos])
            pos += 1
        t = struct.unpack('<d', L[pos][2])[0]
        pos += 1
        if step == 0:
            now = t
        where_ = 'step %d (%s): ' % (step, o)

        def release(k):
            if k in open_:
                open_.discard(k)
                x = conn[k]
                load[x] -= 1
                fail[x] = None
                return x
            return None
        rel = None
        hadwait = bool(waiting)
        if c in 'FX':
            rel = release(64 + j)
        elif c == 'A':
            if j in where:
                rel = release(where[j])
            waiting.pop(j, None)
            aborted.add(j)
            hadwait = bool(waiting)
        elif c in 'abc':
            i = 'abc'.index(c)
            up[i] = not up[i]
            upsince[i] = t
        elig = [fail[i] is None or t - fail[i] > 5.5 for i in range(n)]
        eligup = [i for i in range(n) if elig[i] and up[i]]
        if c == 'N':
            waiting[cl] = t
            cl += 1
        attempts = 0
        te = t
        t = seg and now or t
        for ty, k, d in seg:
            if ty == 'v':
                t = struct.unpack('<d', d)[0]
            elif ty == 'c':
                a = d.decode()
                if a not in addrs:
                    return where_ + 'connect to foreign backend ' + a
                x = addrs.index(a)
                attempts += 1
                if c in 'abc':
                    return where_ + 'connect without cause'
                if fail[x] is not None and t - fail[x] < 0.9:
                    return where_ + 'backend %s refused %.1f s ago and is tried again already' % (a, t - fail[x])
                cand = [i for i in range(n) if i != x and (fail[i] is None or t - fail[i] > 5.5)]
                if b[0] == 'r':
                    if last is not None:
                        i = (last + 1) % n
                        while i != x:
                            if i in cand:
                                return where_ + 'round robin skipped backend %d (previous %d, chosen %d)' % (i, last, x)
                            i = (i + 1) % n
                else:
                    for i in cand:
                        if load[i] < load[x]:
                            return where_ + 'backend %d with %d requests chosen while backend %d has %d' % (x, load[x], i, load[i])
                last = x
                if k == 255:
                    if up[x]:
                        return where_ + 'harness: refused although up'
                    fail[x] = hist[x] = t
                else:
                    conn[k] = x
                    open_.add(k)
                    load[x] += 1
                    fail[x] = None if fail[x] is None or t - fail[x] >= 0.9 else fail[x]
            elif ty == 'd' and k >= 64:
                for i in ids(d):
                    where[i] = k
                    waiting.pop(i, None)
                    if i in aborted:
                        return where_ + 'request %d of a client which went away was sent to a backend' % i
        t = te
        if c == 'N' and not hadwait and eligup and waiting:
            return where_ + 'request waits although backend %s works and was never refused recently' % eligup
        if rel is not None and up[rel] and hadwait and not attempts:
            return where_ + 'a request of backend %d finished, but none of the waiting requests was tried' % rel
        if waiting:
            since = min(max(w, min(upsince[i] for i in range(n) if up[i])) for w in waiting.values()) if any(up) else None
            if since is not None and t - since > 5.9:
                return where_ + 'request still waiting %.1f s after a backend is back' % (t - since)
        now = t
    return None


def histories(n, depth, nreq, modes_list, ab=True):
    """all useful operation sequences"""
    for modes in modes_list:
        def rec(ops, left, cl, used, ntime, ntog, ab_left):
            yield tuple(ops)
            if not left:
                return
            if cl < nreq:
                yield from rec(ops + ['N'], left - 1, cl + 1, used, ntime, ntog, ab_left)
            if ops:
                for j in range(cl):
                    if j not in used:
                        yield from rec(ops + ['F%d' % j], left - 1, cl, used | {j}, ntime, ntog, ab_left)
                        if j == 0:
                            yield from rec(ops + ['X%d' % j], left - 1, cl, used | {j}, ntime, ntog, ab_left)
                if ntime < 2:
                    for x in 'TU':
                        yield from rec(ops + [x], left - 1, cl, used, ntime + 1, ntog, ab_left)
                if ntog < 2 and ops[-1] not in ('a', 'b', 'c'):
                    for i in range(n):
                        yield from rec(ops + ['abc'[i]], left - 1, cl, used, ntime, ntog + 1, ab_left)
                if ab_left:
                    for i in range(cl):
                        yield from rec(ops + ['A%d' % i], left - 1, cl, used, ntime, ntog, False)
        for ops in rec([], depth, 0, frozenset(), 0, 0, ab):
            # the last operation must matter
            if ops and ops[0] == 'N' and ops[-1][0] not in 'abcX':
                yield modes, ops


def cases(th):
    def gen():
        for b, n in sorted(NB.items()):
            nreq = 4 if th else 3
            depth = {1: 7 if th else 6, 2: 6 if th else 5, 3: 6 if th else 4}[n]
            if n == 3 and th:
                nreq = 3
            ml = [m for m in itertools.product('ud', repeat=n)]
            for modes, ops in histories(n, depth, nreq, ml):
                yield (b, n, modes, ops, nreq), script(b, n, modes, ops, nreq)
            # long runs without failures
            for ops in itertools.product(('N', 'F0', 'F1', 'F2'), repeat=5 if not th else 7):
                ops = ('N',) + ops
                fs = [o for o in ops if o != 'N']
                if len(fs) != len(set(fs)) or ops.count('N') > 5 or ops[-1] != 'N':
                    continue
                modes = ('u',) * n
                yield (b, n, modes, ops, 6), script(b, n, modes, ops, 6)
    return gen


# ---- connects which take time, fail late or never finish

def pend_judge(key, r):
    b, n, modes, ops, nreq = key
    addrs = ['unix:' + addr(b, i) for i in range(n)]
    return common(key, r, addrs)


def pend_cases(th):
    def gen():
        for b, n in sorted(NB.items()):
            if n > 2:
                continue
            alpha = ['N', 'O0', 'E0', 'O1', 'E1', 'U', 'A0', 'a', 'F0'] + (['T', 'b', 'F1', 'A1'] if th else [])
            for modes in itertools.product('pud', repeat=n):
                if 'p' not in modes:
                    continue
                for l in range(1, (5 if n == 1 else 4) if not th else 6):
                    for ops in itertools.product(alpha, repeat=l):
                        ops = ('N',) + ops
                        if ops.count('N') > 3 or len(set(o for o in ops if o != 'N')) != len([o for o in ops if o != 'N']) or ops[-1] in ('a', 'b'):
                            continue
                        if any(('O%d' % j in ops and 'E%d' % j in ops) for j in (0, 1)):
                            continue
                        if n == 1 and 'b' in ops:
                            continue
                        # client / connection numbers which cannot exist yet
                        if any(o[0] == 'A' and int(o[1:]) >= ops[:i].count('N') for i, o in enumerate(ops)):
                            continue
                        if any(o[0] in 'OE' and int(o[1:]) >= ops[:i].count('N') + (n - 1) for i, o in enumerate(ops)):
                            continue
                        yield (b, n, modes, ops, 3), script(b, n, modes, ops, 3, pend=True)
    return gen


# ---- a balancer inside a balancer

NADDR = ['unix:/na', 'unix:/nb', 'unix:/nc']


def nest_judge(key, r):
    b, n, modes, ops, nreq = key
    m = common(key, r, NADDR)
    if m:
        return m
    up = [x == 'u' for x in modes]
    stable = [x == 'u' for x in modes]    # never refused so far
    pos = 0
    waiting = set()
    aborted = set()
    cl = 0
    for step, o in enumerate(ops):
        seg = []
        while r.log[pos][0] != 't':
            seg.append(r.log[pos])
            pos += 1
        pos += 1
        if o == 'N':
            waiting.add(cl)
            cl += 1
        elif o[0] == 'A':
            waiting.discard(int(o[1:]))
        elif o in 'abc':
            i = 'abc'.index(o)
            up[i] = not up[i]
            stable[i] = False
        for ty, k, d in seg:
            if ty == 'd' and k >= 64:
                for i in ids(d):
                    waiting.discard(i)
        if o == 'N' and len(waiting) == 1 and any(s and u for s, u in zip(stable, up)):
            return 'step %d (%s): request waits although backend %s works' % (step, o, [NADDR[i] for i in range(3) if stable[i] and up[i]])
    return None


def nest_cases(th):
    def gen():
        for modes, ops in histories(3, 5 if th else 4, 3, [m for m in itertools.product('ud', repeat=3)]):
            yield ('nest', 3, modes, ops, 3), script('nest', 3, modes, ops, 3, addrs=NADDR)
    return gen


def run(ctx):
    th = ctx.thorough
    c = mkconf()
    ctx.explore('balancing', c, cases(th), judge, batch=16)
    ctx.explore('slow connects', c, pend_cases(th), pend_judge, batch=16)
    ctx.explore('nested', c, nest_cases(th), nest_judge, batch=16)
