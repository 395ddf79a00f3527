"""C28: connections live exactly as long as they should: timeouts, keep-alive, connection limit, shutdown"""
import itertools, signal
from h import *

IO = 10
BIG = 1200000
SMALL = {'LISIM_SNDBUF': '65536'}   # kernel buffers much smaller than the file


def mkconf(wd):
    with open(os.path.join(wd, 'large'), 'wb') as f:
        f.write(b'0123456789' * (BIG // 10))
    return conf('''
if req.host == "k3" { keepalive.timeout 3; }
else if req.host == "k0" { keepalive.timeout 0; }
else if req.host == "k12" { keepalive.timeout 12; }
else if req.host == "k9" { keepalive.timeout 9; }
else if req.host == "r1" { keepalive.requests 1; }
else if req.host == "r2" { keepalive.requests 2; }
else if req.host == "r4" { keepalive.requests 4; }
if req.path =^ "/b" { scgi "unix:/s"; }
else if req.path == "/large" { docroot "%s"; }
else { respond 200 => "%%{req.path}"; }
''' % wd, ['mod_scgi'], setup='io.timeout %d; workers 1;' % IO)


KA = {'x': 5, 'k3': 3, 'k12': 12, 'k0': 0}


# ---- gaps while the server waits for the client

def gap_cases(th):
    def gen():
        get = req('GET', '/b1', host='@').replace(b'GET', b'GET')
        for host in ('x', 'k3', 'k12'):
            K = KA[host]
            kgaps = (0.5, K - 1.0, K + 2.0)
            gaps = (0.5, 8.4, 12.0)
            for kind in ('get', 'post', 'chunked'):
                if kind == 'get':
                    raw = [b'GET /b1 HT', b'TP/1.1\r\nHost: %s\r\n' % host.encode(), b'X: y\r\n\r\n']
                elif kind == 'post':
                    raw = [b'POST /b1 HTTP/1.1\r\nHost: %s\r\nContent-Length: 6\r\n\r\n' % host.encode(), b'abc', b'def']
                else:
                    raw = [b'POST /b1 HTTP/1.1\r\nHost: %s\r\nTransfer-Encoding: chunked\r\n\r\n' % host.encode(), b'3\r\nabc\r\n3\r', b'\ndef\r\n0\r\n\r\n']
                # g0: before the first byte; g1, g2 within the request; w: time the backend needs; k: idle time before the second request
                for g0 in gaps:
                    for g1, g2 in itertools.product(gaps, repeat=2):
                        for w in (0.5, 8.4):
                            for k in (kgaps if (g0 < 12 and g1 < 12 and g2 < 12) else (0.5,)):
                                for h1 in (gaps if th or kind == 'get' else (0.5,)):
                                    sc = Script().connect(0).q().advance(g0).q().drain(0).now()
                                    sc.send(0, raw[0]).q().advance(g1).q().drain(0).now()
                                    sc.send(0, raw[1]).q().advance(g2).q().drain(0).now()
                                    sc.send(0, raw[2]).q().drain(64).advance(w).q().drain(0).now()
                                    sc.send(64, b'Status: 200\r\nContent-Length: 2\r\n\r\nA1').close(64).q().drain(0).now()
                                    sc.advance(k).q().drain(0).now()
                                    sc.send(0, b'GET /2').q().advance(h1).q().drain(0).now()
                                    sc.send(0, b' HTTP/1.1\r\nHost: %s\r\n\r\n' % host.encode()).q().drain(0).now()
                                    yield (host, kind, g0, g1, g2, w, k, h1), sc.reset(1)
    return gen


def gap_judge(key, r):
    host, kind, g0, g1, g2, w, k, h1 = key
    K = KA[host]
    # step of the mark -> closed?
    limits = [(g0, IO), (g1, IO), (g2, IO), (w, None), (0, None), (k, K), (h1, IO), (0, None)]
    marks = r.marks
    p = 0
    dead = False
    data = b''
    for i, (e, t) in enumerate(marks):
        seg = r.steps[p:e]
        p = e
        eof = any(d is None for s, d in seg if s == 0)
        data += b''.join(d for s, d in seg if s == 0 and d)
        g, lim = limits[i]
        if dead:
            if data.count(b'HTTP/1.1 200') > (1 if i > 5 or dead > 5 else 0):
                return 'answer after the timeout'
            continue
        if lim is not None and g > lim:
            if not eof:
                return 'step %d: no activity for %.1f s (limit %d s), connection still open' % (i, g, lim)
            dead = i + 1
            if i < 3 and (b'HTTP/1.1 200' in data):
                return 'timeout answered with 200'
        else:
            if eof:
                return 'step %d: connection closed after %.1f s without activity (limit %s)' % (i, g, lim)
    if not dead:
        rs, err = bodies(r, 0, ['GET' if kind == 'get' else 'POST', 'GET'])
        if err or [x.body for x in rs[0]] != [b'A1', b'/2']:
            return 'answers %s' % short(r.data.get(0))
    elif dead == 6 or dead == 7:
        if b'A1' not in data:
            return 'first answer is missing'
    return None


# ---- several connections at once: everybody has his own clock

STEP = 4.2


def many_cases(th):
    def gen():
        T = 4 if not th else 5
        for kinds in (('io', 'io', 'x'), ('x', 'x', 'x'), ('k9', 'x', 'io'), ('k9', 'k9', 'x'), ('io', 'io', 'io')):
            for acts in itertools.product(range(8), repeat=T):
                if not acts[0]:
                    continue
                sc = Script()
                for k, kd in enumerate(kinds):
                    sc.connect(k, peer='10.0.0.%d' % (k + 1))
                    sc.send(k, b'GET /i HTTP/1.1\r\nHost: x\r\n' if kd == 'io' else req('GET', '/n', host=kd)).q().drain(k)
                for a in acts:
                    sc.advance(STEP).q()
                    for k in range(len(kinds)):
                        sc.drain(k)
                    sc.now()
                    for k, kd in enumerate(kinds):
                        if a >> k & 1:
                            sc.send(k, b'A: b\r\n' if kd == 'io' else req('GET', '/n', host=kd)).q().drain(k)
                yield (kinds, acts), sc.reset(1)
    return gen


def many_judge(key, r):
    kinds, acts = key
    p = 0
    eof = {}
    for i, (e, t) in enumerate(r.marks):
        for s, d in r.steps[p:e]:
            if d is None:
                eof.setdefault(s, i)
        p = e
    for k, kd in enumerate(kinds):
        lim = {'io': 10, 'x': 5, 'k9': 9}[kd]
        idle = 0
        want = None
        for i, a in enumerate(acts):
            idle += STEP
            if idle > lim:
                want = i
                break
            if a >> k & 1:
                idle = 0
        if eof.get(k) != want:
            return 'connection %d (%s) closed after step %s, expected %s' % (k, kd, eof.get(k), want)
        if kd != 'io':
            n = 1 + sum(1 for i, a in enumerate(acts) if a >> k & 1 and (want is None or i < want))
            if r.data.get(k, b'').count(b'HTTP/1.1 200') != n:
                return 'connection %d: %d answers, expected %d' % (k, r.data.get(k, b'').count(b'HTTP/1.1 200'), n)
    return None


# ---- reuse of connection records over long times

def pool_cases(th):
    def gen():
        for ns in itertools.product(range(0, 5), repeat=3 if not th else 4):
            for dt in (0, 301.0):
                for rev in (0, 1):
                    sc = Script()
                    held = []
                    for j, n in enumerate(ns):
                        base = j * 5
                        for i in range(n):
                            sc.connect(base + i, peer='10.0.%d.%d' % (j, i + 1)).send(base + i, req('GET', '/b' if i == 0 else '/n%d' % (base + i))).q().drain(base + i)
                        if dt:
                            for _ in range(35):
                                sc.advance(8.6).q()
                        for i in (range(n) if not rev else reversed(range(n))):
                            sc.close(base + i).q()
                    yield (ns, dt, rev), sc.reset(40)
    return gen


def pool_judge(key, r):
    ns, dt, rev = key
    for j, n in enumerate(ns):
        for i in range(1, n):
            k = j * 5 + i
            if not r.data.get(k, b'').endswith(b'/n%d' % k):
                return 'connection %d got %s' % (k, short(r.data.get(k)))
    return None


# ---- slow readers

def slow_cases(th):
    def gen():
        gaps = (0.5, 8.4, 13.0)
        for n in range(1, 5 if not th else 6):
            for gs in itertools.product(gaps, repeat=n):
                if 13.0 in gs[:-1]:
                    continue
                sc = Script().connect(0).send(0, req('GET', '/large')).q()
                for g in gs:
                    sc.advance(g).q().now().drain(0).q()
                for i in range(20):
                    sc.drain(0).q()
                yield gs, sc.drain(0).reset(1)
    return gen


def slow_judge(gs, r):
    d = r.data.get(0, b'')
    h, _, b = d.partition(b'\r\n\r\n')
    full = len(b) == BIG
    if not (b'0123456789' * (BIG // 10)).startswith(b):
        return 'body is corrupt'
    if gs[-1] > 12:
        if full:
            return 'a client that reads nothing for %.1f s still gets everything' % gs[-1]
        return None if 0 in r.eof else 'connection still open'
    if not full:
        return 'client reading every %.1f s at least got %d of %d bytes' % (max(gs), len(b), BIG)
    return None


# ---- number of requests and keep-alive rules

def ka_cases(th):
    def gen():
        for host in ('x', 'k0', 'k3', 'r1', 'r2', 'r4'):
            for vers in itertools.product(('1.1', '1.1c', '1.0', '1.0k'), repeat=3 if not th else 4):
                for pipe in (False, True):
                    for be in (False, True) if not pipe else (False,):
                        sc = Script().connect(0)
                        for i, v in enumerate(vers + ('1.1',) * 2):
                            h = [('Connection', 'close')] if v == '1.1c' else [('Connection', 'keep-alive')] if v == '1.0k' else []
                            sc.send(0, req('GET', ('/b%d' if be else '/n%d') % i, h, host=host, version=v[:3]))
                            if not pipe:
                                sc.q()
                                if be:
                                    sc.drain(64 + i).send(64 + i, b'Status: 200\r\nContent-Length: 3\r\n\r\n/b%d' % i).close(64 + i).q()
                        yield (host, vers + ('1.1',) * 2, pipe, be), sc.q().drain(0).reset(1)
    return gen


def ka_judge(key, r):
    host, vers, pipe, be = key
    lim = {'r1': 1, 'r2': 2, 'r4': 4, 'k0': 1}.get(host, 99)
    want = 0
    for v in vers:
        want += 1
        # the backend's body was not complete when the head was sent: an HTTP/1.0 client gets it delimited by the end of the connection
        if v in ('1.1c', '1.0') or want >= lim or be and v == '1.0k':
            break
    rs, err = bodies(r, 0, ['GET'] * 5)
    if err:
        return 'unreadable: %s' % err
    got = [x.body for x in rs[0]]
    exp = [(b'/b%d' if be else b'/n%d') % i for i in range(want)]
    if got != exp:
        return '%d requests answered, expected %d: %r' % (len(got), want, got)
    closed = want < 5 or want >= lim
    if closed != (0 in r.eof):
        return 'connection %s' % ('closed' if 0 in r.eof else 'still open')
    for i, x in enumerate(rs[0]):
        last = i == want - 1 and closed
        c = (x.one('Connection') or '').lower()
        if last and vers[i].startswith('1.1') and c != 'close':
            return 'last response does not announce the close'
        if not last and c == 'close':
            return 'response announces close, connection stays open'
        if vers[i] == '1.0k' and not last and c != 'keep-alive':
            return 'HTTP/1.0 keep-alive not announced'
    return None


# ---- connection limit

def limit_cases(th):
    def gen():
        lim = 8
        for n in range(6, 13 if not th else 15):
            for how in ('idle', 'active', 'mixed'):
                for ncl in range(0, 6):
                    for order in (0, 1):
                        sc = Script()
                        for i in range(n):
                            sc.connect(i, peer='10.0.0.%d' % (i + 1)).send(i, req('GET', '/b%d' % i if how == 'active' or how == 'mixed' and i % 2 else '/n%d' % i, host='k12')).q()
                        for i in range(n):
                            sc.drain(i)
                        sc.now().advance(2.5).q()
                        for i in range(n):
                            sc.drain(i)
                        sc.now()
                        for i in range(ncl):
                            sc.close(i if order == 0 else min(n, lim) - 1 - i).q()
                        sc.advance(1.3).q()
                        for i in range(n):
                            sc.drain(i)
                        sc.now()
                        # let everything finish: nobody may be forgotten
                        for rd in range(2):
                            for k in range(64, 64 + n):
                                sc.drain(k).send(k, b'Status: 200\r\nContent-Length: 1\r\n\r\nB').close(k)
                            sc.q().advance(14).q().advance(2.5).q()
                        for k in range(64, 64 + n):
                            sc.drain(k).send(k, b'Status: 200\r\nContent-Length: 1\r\n\r\nB').close(k)
                        sc.q()
                        for i in range(n):
                            sc.drain(i)
                        yield (lim, n, how, ncl, order), sc.reset(20)
    return gen


def limit_judge(key, r):
    lim, n, how, ncl, order = key
    closed = set(i if order == 0 else min(n, lim) - 1 - i for i in range(ncl))

    def served(step):
        out = set()
        for s, d in r.steps[:r.marks[step][0]]:
            if s < 64 and d:
                out.add(s)
        return out
    act = {i for i in range(n) if how == 'active' or how == 'mixed' and i % 2}

    def conns(step):
        # requests that reached the server: answered, or handed to the backend
        t = r.marks[step][1]
        cs = set(served(step))
        tv = None
        nb = 0
        for ty, k, d in r.log:
            if ty == 't' and struct.unpack('<d', d)[0] == t:
                break
            if ty == 'c':
                nb += 1
        return len(cs) + nb
    if conns(0) > lim:
        return '%d connections are served at once, limit is %d' % (conns(0), lim)
    if conns(0) != min(n, lim):
        return '%d of %d connections are served, limit is %d' % (conns(0), n, lim)
    if conns(1) != min(n, lim):
        return 'limit of %d connections exceeded: %d' % (lim, conns(1))
    left = min(n, lim) - ncl
    c2 = conns(2)
    if c2 - min(n, lim) > ncl:
        return '%d connections closed but %d new ones accepted' % (ncl, c2 - min(n, lim))
    if n > lim and left <= lim - lim // 8 and c2 == min(n, lim) and any(i not in closed for i in range(lim, n)):
        return '%d connections are open (limit %d), others still wait' % (left, lim)
    for i in range(n):
        if i not in closed and b'200' not in r.data.get(i, b'')[:20]:
            return 'connection %d was never served' % i
    return None


# ---- shutdown

STATES = ('none', 'new', 'header', 'body', 'idle', 'backend', 'reply', 'write')
AFTER = ('nothing', 'go')


def setup_state(sc, k, st, b):
    """returns number of backend connections used"""
    if st == 'none':
        return 0
    sc.connect(k, peer='10.0.0.%d' % (k + 1))
    if st == 'header':
        sc.send(k, b'GET /n HTTP/1.1\r\nHo')
    elif st == 'body':
        sc.send(k, b'POST /bp HTTP/1.1\r\nHost: x\r\nContent-Length: 6\r\n\r\nabc')
    elif st == 'idle':
        sc.send(k, req('GET', '/n'))
    elif st in ('backend', 'reply'):
        sc.send(k, req('GET', '/bq'))
    elif st == 'write':
        sc.send(k, req('GET', '/large'))
    sc.q()
    if st == 'idle':
        sc.drain(k)
    if st == 'reply':
        sc.drain(b).send(b, b'Status: 200\r\nContent-Length: 5\r\n\r\nab').q()
    return 1 if st in ('backend', 'reply') else 0


def stop_cases(th):
    def gen():
        combos = [(s,) for s in STATES] + [c for c in itertools.combinations(STATES[1:], 2)] + ([c for c in itertools.combinations(STATES[1:], 3)] if th else [])
        for sts in combos:
            for after in itertools.product(AFTER, repeat=len(sts)):
                for sg in ((signal.SIGINT, signal.SIGTERM) if len(sts) == 1 or th else (signal.SIGTERM,)):
                    for wait in (0.0, 2.0) if len(sts) == 1 or th else (1.0,):
                        sc = Script()
                        nb = 0
                        be = {}
                        for k, st in enumerate(sts):
                            be[k] = 64 + nb
                            nb += setup_state(sc, k, st, 64 + nb)
                        sc.q().now().sig(sg).q()
                        # nobody is accepted any more
                        sc.connect(20, peer='10.0.9.9').send(20, req('GET', '/late')).q().drain(20)
                        if wait:
                            sc.advance(wait).q()
                        for k, (st, a) in enumerate(zip(sts, after)):
                            if a == 'go':
                                if st == 'new':
                                    sc.send(k, req('GET', '/n'))
                                elif st == 'header':
                                    sc.send(k, b'st: x\r\n\r\n')
                                elif st == 'body':
                                    sc.send(k, b'def').q()
                                    sc.send(64 + nb, b'Status: 200\r\nContent-Length: 2\r\n\r\nok').close(64 + nb)
                                    nb += 1
                                elif st == 'backend':
                                    sc.send(be[k], b'Status: 200\r\nContent-Length: 2\r\n\r\nok').close(be[k])
                                elif st == 'reply':
                                    sc.send(be[k], b'cde').close(be[k])
                                elif st == 'write':
                                    for _ in range(20):
                                        sc.drain(k).q()
                                sc.q()
                        for i in range(10):
                            sc.advance(1).q()
                        yield (sts, after, int(sg), wait), sc.now()
    return gen


def stop_judge(key, r):
    sts, after, sg, wait = key
    if r.exited is None:
        return 'the server does not stop within 10 s'
    if b'HTTP/' in r.data.get(20, b''):
        return 'a connection made after the signal was served'
    t0 = r.marks[0][1]
    d = r.exited - t0
    pending = False
    for k, (st, a) in enumerate(zip(sts, after)):
        if st == 'none':
            continue
        data = r.data.get(k, b'')
        if k not in r.eof and k not in r.rst:
            return 'connection %d (%s) is not closed' % (k, st)
        want = None
        if a == 'go':
            want = {'new': b'/n', 'header': b'/n', 'body': b'ok', 'backend': b'ok', 'reply': b'abcde', 'write': b'0123456789' * (BIG // 10)}.get(st)
        if st == 'idle':
            want = b'/n'
        if want is not None:
            rs, err = bodies(r, k, ['GET'])
            if err or len(rs[0]) != 1 or rs[0][0].status != 200 or rs[0][0].body != want:
                return 'connection %d (%s): the request was started before the stop, but the client got %s' % (k, st, short(data))
        elif a == 'nothing' and st != 'idle':
            pending = True
    if not pending and d > wait + 2.0:
        return 'all requests were finished after %.1f s, the server ended after %.1f s' % (wait, d)
    if pending and d > 8.0:
        return 'server ended %.1f s after the signal' % d
    return None


def run(ctx):
    th = ctx.thorough
    ctx.explore('gaps', mkconf, gap_cases(th), gap_judge)
    ctx.explore('many connections', mkconf, many_cases(th), many_judge)
    ctx.explore('connection records', mkconf, pool_cases(th), pool_judge)
    ctx.explore('slow readers', mkconf, slow_cases(th), slow_judge, env=SMALL)
    ctx.explore('keep-alive', mkconf, ka_cases(th), ka_judge)
    ctx.explore('connection limit', mkconf, limit_cases(th), limit_judge, env={'LISIM_NOFILE': '32'})
    ctx.explore('stop', mkconf, stop_cases(th), stop_judge, isolate=True, env=SMALL)
