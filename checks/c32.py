"""C32: mod_memcached: a hit is exactly the value stored for the key, a store is exactly the complete response, anything else is a miss"""
import hashlib, itertools, os, re
from h import *

MA, MB, PX = '127.0.0.1:11211', '127.0.0.1:11212', '127.0.0.1:7000'
MAX = 40


class MC:
    """one server, one history; knows which connection belongs to whom"""

    def __init__(self, sim):
        self.sim, self.con, self.data, self.eof, self.pend, self.slow = sim, {}, {}, {}, None, False

    def run(self, sc):
        r = self.sim.run(sc)
        for t, k, d in r.log:
            if t == 'c' and k != 255:
                self.con.setdefault(d.decode(), []).append(k)
                if self.slow:
                    self.pend = k       # drain() would end the waiting
            elif t == 'd':
                self.data[k] = self.data.get(k, b'') + d
            elif t in 'er':
                self.eof[k] = True
        self.last = r
        return r

    def slot(self, addr):
        l = self.con.get(addr)
        return l[-1] if l else None

    def take(self, k):
        return self.data.pop(k, b'')

    def begin(self, n=1):
        sc = Script().advance(2.5).q()
        for i in range(n):
            sc.connect(i, port=40000 + i)
        self.run(sc)

    def req(self, k, path, method='GET', headers=(), body=b'', drain=()):
        self.run(Script().send(k, req(method, path, headers, body)).q())
        self.get(k)

    def get(self, *ks):
        sc = Script()
        for k in ks:
            sc.drain(k)
        for l in self.con.values():
            if l[-1] != self.pend:
                sc.drain(l[-1])
        self.run(sc.q())

    def resps(self, k, methods):
        d = self.take(k)
        rs, left = parse_responses(d, self.eof.get(k), methods)
        return rs, left, d

    def end(self, also=()):
        """close everything: the next history starts with no connection to a cache"""
        sc = Script()
        for a in (MA, MB, PX):
            sc.connmode(a, -ECONNREFUSED)
        for l in self.con.values():
            for k in l:
                sc.close(k)
        for i in range(8):
            sc.close(i)
        sc.q().advance(1.5).q().connect(9, port=41000).send(9, req('GET', '/flush')).q().drain(9).q()
        for i, p in enumerate(also):
            sc.connect(10 + i, port=41001 + i).send(10 + i, req('GET', p)).q()
        self.run(sc.advance(1.5).reset(1.1))
        if self.last.leak != [0]:
            return '%r sockets stay open' % self.last.leak
        d = self.take(9)
        if not d.startswith(b'HTTP/1.1 200 ') and not d.startswith(b'HTTP/1.1 404 '):
            return 'with the cache down a request got %s' % short(d)
        return None


def hitmiss(m, k, method='GET'):
    rs, left, d = m.resps(k, [method])
    if len(rs) != 1 or left:
        return 'none' if not d and not m.eof.get(k) else 'broken ' + short(d), None
    x = rs[0]
    if x.status == 404 and x.one('X-M') == 'miss':
        return 'miss', x.body
    if x.status == 200:
        return x.one('X-M'), x.body
    return 'status %d' % x.status, x.body


# ---------------------------------------------------------------- lookup
LOOKUP = conf('''memcached.lookup (["server" => "%s"], { header.add "X-M" => "hit"; }, { header.add "X-M" => "miss"; respond 404 => "fallback"; });''' % MA, ['mod_memcached'])


def val(key, data, flags=b'0', extra=b''):
    return b'VALUE ' + key + b' ' + flags + b' ' + str(len(data)).encode() + extra + b'\r\n' + data + b'\r\nEND\r\n'


GOOD = [b'', b'a', b'\r\n', b'\r', b'\n', b'END\r\n', b'\r\nEND\r\n', b'VALUE /k 0 1\r\nx\r\nEND\r\n', b'\0\xff\x80 x', bytes(range(256)) * 4, b'x' * 4090, b'y' * 4096, b'z' * 5000, b'w' * 40000]
BAD = [b'END\r\n', b'ERROR\r\n', b'SERVER_ERROR out of memory\r\n', b'CLIENT_ERROR bad\r\n', b'\r\n', b'VALUE\r\n', b'VALUE \r\n', b'VALUE /k\r\n', b'VALUE /k 0\r\n', b'VALUE /k 0 \r\n',
       b'VALUE /k x 3\r\nabc\r\nEND\r\n', b'VALUE /k 0 x\r\nabc\r\nEND\r\n', b'VALUE /k 0 3 \r\nabc\r\nEND\r\n', b'VALUE /k 0 3 x\r\nabc\r\nEND\r\n', b'VALUE /k 0 3x\r\nabc\r\nEND\r\n',
       b'VALUE /k 0 3\r\nabcd\r\nEND\r\n', b'VALUE /k 0 3\r\nab\r\nEND\r\n', b'VALUE /k 0 3\r\nabc\r\nENX\r\n', b'VALUE /k 0 3\r\nabc\r\nENDX\r\n', b'VALUE /k 0 3\r\nabc\r\nEN\r\n',
       b'VALUE /k 0 3\r\nabc\r\nVALUE /k 0 3\r\nabc\r\nEND\r\n', b'VALUE /k 0 -1\r\n\r\nEND\r\n', b'VALUE /k 0 -2\r\n\r\nEND\r\n', b'VALUE /k 0 -3\r\nabc\r\nEND\r\n', b'VALUE /k 0 -4096\r\nabc\r\nEND\r\n',
       b'VALUE /k 0 9223372036854775807\r\nabc\r\nEND\r\n', b'VALUE /k 0 18446744073709551615\r\nabc\r\nEND\r\n', b'VALUE /k 0 99999999999999\r\nabc\r\nEND\r\n', b'STORED\r\n',
       b'x' * 1100 + b'\r\n', b'x' * 5000 + b'\r\n', b'EN\0D\r\n', b'END\r\nEND\r\n', b'END\r\njunk\r\n', b'end\r\n']


def cutset(b, th):
    n = len(b)
    if n <= 40:
        pts = list(range(1, n))
    else:
        i = b.find(b'\r\n') + 2
        pts = sorted(set(p for p in list(range(max(1, i - 3), i + 4)) + list(range(n - 9, n)) + [4093, 4094, 4095, 4096, 4097] if 0 < p < n))
    yield ()
    for p in pts:
        yield (p,)
    if n <= 40 or th:
        for c in itertools.combinations(pts, 2):
            yield c
    if n <= 26 or th and n <= 40:
        for c in itertools.combinations(pts, 3):
            if th or c[0] >= n - 9:
                yield c


def pieces(b, cut):
    r, p = [], 0
    for c in list(cut) + [len(b)]:
        r.append(b[p:c]); p = c
    return r


def look_cases(th):
    def gen():
        out = []
        for i, v in enumerate(GOOD):
            r = val(b'/k', v)
            for c in cutset(r, th):
                out.append(('good', i, c, 0))
            for x in range(1, 4):
                out.append(('good', i, (), x))
        for i, r in enumerate(BAD):
            for c in cutset(r, False):
                if len(c) <= (2 if th else 1):
                    out.append(('bad', i, c, 0))
        r = val(b'/k', b'abc')
        for p in range(len(r)):
            for c in [()] + [(x,) for x in range(1, p)]:
                out.append(('trunc', p, c, 0))
        return out
    return gen


def look_drive(sim, key, wd):
    kind, i, cut, plan = key
    m = MC(sim)
    m.begin()
    m.req(0, '/k')
    s = m.slot(MA)
    if s is None or m.take(s) != b'get /k\r\n':
        return 'no lookup was sent', None
    rep = val(b'/k', GOOD[i]) if kind == 'good' else BAD[i] if kind == 'bad' else val(b'/k', b'abc')[:i]
    if plan:
        m.run(Script().plan(s, 'r', {1: [1] * 250, 2: [3, -EAGAIN] * 120, 3: [2, -EINTR] * 120}[plan]))
    for j, p in enumerate(pieces(rep, cut)):
        m.run(Script().send(s, p).q())
    if kind == 'trunc':
        m.run(Script().close(s).q())
    m.get(0)
    got, body = hitmiss(m, 0)
    if kind == 'good':
        if got != 'hit' or body != GOOD[i]:
            return 'the cache answered %s in pieces %r: the client got %s %s' % (short(rep), [len(p) for p in pieces(rep, cut)], got, short(body)), None
    elif got != 'miss' or body != b'fallback':
        # an incomplete reply may keep the request waiting, until the cache is gone
        if got != 'none':
            return 'the cache answered %s: the client got %s %s' % (short(rep), got, short(body)), None
        m.run(Script().close(s).q())
        m.get(0)
        got, body = hitmiss(m, 0)
        if got != 'miss' or body != b'fallback':
            return 'the cache answered %s and closed: the client got %s %s' % (short(rep), got, short(body)), None
    # and it recovers
    m.run(Script().advance(1.5).q())
    for t in range(2):
        m.req(0, '/n')
        s = m.slot(MA)
        if m.take(s) == b'get /n\r\n':
            m.run(Script().send(s, val(b'/n', b'later')).q())
        m.get(0)
        got2, body = hitmiss(m, 0)
        if got2 == 'hit':
            break
        m.run(Script().advance(1.5).q())
    if got2 != 'hit' or body != b'later':
        return 'after the reply %s a later lookup gets %s %s' % (short(rep), got2, short(body)), None
    e = m.end()
    return e, (kind, i, got)


# ---------------------------------------------------------------- several lookups at once
MULTI = [[b'aa', b'b', b'ccc'], [b'', b'b\r\nEND\r\n', b''], [None, b'bb', None], [b'a', None, b'cc']]


def multi_cases(th):
    def gen():
        out = []
        for n in (2, 3):
            for vi in range(len(MULTI)):
                rep = multi_rep(n, vi)
                for c in [()] + [(p,) for p in range(1, len(rep))] + (list(itertools.combinations(range(1, len(rep)), 2)) if th and n == 2 else []):
                    out.append((n, vi, c, None, 0))
                for ab in range(n):
                    for at in ('before', 0, 1):
                        for p in range(1, len(rep), 1 if th else 3):
                            out.append((n, vi, (p,), (ab, at), 0))
                for p in range(1, len(rep)):
                    out.append((n, vi, (p,), None, 1))     # the cache closes the connection there
        return out
    return gen


def multi_rep(n, vi, order=None):
    return b''.join(b'END\r\n' if MULTI[vi][i] is None else val(b'/%d' % i, MULTI[vi][i]) for i in order or range(n))


def multi_drive(sim, key, wd):
    n, vi, cut, ab, closes = key
    m = MC(sim)
    m.begin(n)
    sc = Script()
    for i in range(n):
        sc.send(i, req('GET', '/%d' % i))
    m.run(sc.q())
    m.get()
    s = m.slot(MA)
    g = m.take(s) if s is not None else b''
    want = [b'get /%d' % i for i in range(n)]
    if sorted(g.split(b'\r\n')) != [b''] + want:
        return 'the lookups sent were %s' % short(g), None
    order = [want.index(x) for x in g.split(b'\r\n')[:-1]]
    rep = multi_rep(n, vi, order)
    if ab and ab[1] == 'before':
        m.run(Script().close(ab[0]).q())
    for j, p in enumerate(pieces(rep, cut)):
        if closes and j:
            m.run(Script().close(s).q())
            break
        m.run(Script().send(s, p).q())
        if ab and ab[1] == j:
            m.run(Script().close(ab[0]).q())
    m.get(*[i for i in range(n) if not ab or i != ab[0]])
    out = []
    pos = 0
    for i in order:
        v = MULTI[vi][i]
        pos += len(b'END\r\n' if v is None else val(b'/%d' % i, v))
        if ab and ab[0] == i:
            continue
        w = ('miss', b'fallback') if v is None or (closes and cut[0] < pos) else ('hit', v)
        got = hitmiss(m, i)
        if got != w:
            return 'lookup %d of %d got %s %s instead of %s %s' % (i, n, got[0], short(got[1]), w[0], short(w[1])), None
        out.append(w[0])
    return m.end(), tuple(out)


# ---------------------------------------------------------------- store
STORE = conf('''
if req.path =^ "/p" { proxy "%s"; } else if req.path =^ "/e" { respond 404 => "not here"; } else { respond "%%{req.query}"; }
memcached.store ["server" => "%s", "maxsize" => %d, "flags" => 7, "ttl" => 99];
''' % (PX, MB, MAX), ['mod_memcached', 'mod_proxy'])
PLANS = {'': None, '1': [1] * 250, 'again': [5, -EAGAIN] * 100, 'intr': [2, -EINTR] * 100, 'blocked': [-EAGAIN] * 4 + [U], 'pipe0': [-EPIPE], 'pipe1': [3, -EPIPE], 'reset': [-ECONNRESET]}
ANSWERS = [b'STORED\r\n', b'NOT_STORED\r\n', b'SERVER_ERROR object too large for cache\r\n', b'ERROR\r\n', b'junk\r\n', b'', b'STORED\r\nSTORED\r\n', b'x' * 2000, b'STOREDX\r\n']


def store_cases(th):
    def gen():
        out = []
        sizes = [0, 1, 5, MAX - 1, MAX, MAX + 1, 200]
        for n in sizes:
            for pl in PLANS:
                out.append(('r', n, 'GET', pl, 0, ()))
            for me in ('HEAD', 'POST'):
                out.append(('r', n, me, '', 0, ()))
        for a in range(len(ANSWERS)):
            cs = [()] + [(p,) for p in range(1, min(len(ANSWERS[a]), 12))]
            for c in cs:
                out.append(('r', 5, 'GET', '', a, c))
        out.append(('e', 8, 'GET', '', 0, ()))
        for fr in ('len', 'chunk', 'close'):
            for n in (0, 1, 8, MAX, MAX + 1, MAX + 30):
                b = prox(fr, n)
                pts = [p for p in range(1, len(b)) if th or p % 3 == 0 or p > len(b) - 5]
                for c in [()] + [(p,) for p in pts]:
                    for ab in ('', 'backend', 'client') if c else ('',):
                        out.append(('p', n, 'GET', ab, fr, c))
                out.append(('p', n, 'HEAD', '', fr, ()))
                if fr != 'chunk':
                    out.append(('p', n, 'HEAD0', '', fr, ()))
        for k in range(2, 7):
            for pl in ('', '1', 'again', 'blocked', 'pipe1'):
                out.append(('multi', k, 'GET', pl, 0, ()))
        return out
    return gen


def body(n):
    return (b'abcdefghij' * 30)[:n]


def prox(fr, n, head=False):
    b = body(n)
    if fr == 'len':
        return b'HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n' % n + (b'' if head else b)
    if fr == 'chunk':
        return b'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n' + (b'' if head else chunked(b, [n // 2, n - n // 2] if n > 1 else [n] if n else []))
    return b'HTTP/1.1 200 OK\r\n\r\n' + (b'' if head else b)


def setcmd(path, b):
    return b'set ' + path + b' 7 99 %d\r\n' % len(b) + b + b'\r\n'


def store_drive(sim, key, wd):
    kind, n, me, pl, a, cut = key
    m = MC(sim)
    if kind == 'multi':
        return store_multi(m, n, pl)
    m.begin()
    head = me.startswith('HEAD')
    method = 'HEAD' if head else me
    hd = [('Content-Length', '2')] if me == 'POST' else []
    full = True
    if kind == 'p':
        m.req(0, '/p', method)
        s = m.slot(PX)
        if s is None:
            return 'no backend request', None
        rep = prox(a, n, head)
        for j, p in enumerate(pieces(rep, cut)):
            if j and pl == 'backend':
                full = False
                m.run(Script().close(s).q())
                break
            if j and pl == 'client':
                m.run(Script().close(0).q())
                full = None
            m.run(Script().send(s, p).q())
        m.run(Script().close(s).q())
        if pl == 'backend' and a == 'close' and cut[0] >= len(prox('close', 0)):
            full = True     # closing is how this body ends
            n = cut[0] - len(prox('close', 0))
        if pl == 'backend' and cut and cut[0] < len(prox(a, 0 if a != 'chunk' else n)) and a != 'chunk' and n == 0:
            full = False
        path, b = b'/p', body(n)
    else:
        path = b'/' + kind.encode() if kind == 'e' else b'/r'
        b = body(n)
        if PLANS[pl]:
            # connect first: another request
            m.req(0, '/w?0')
            s = m.slot(MB)
            if s is None:
                return 'nothing stored for an earlier request', None
            m.run(Script().send(s, b'STORED\r\n').q())
            m.get(0)
            m.take(0); m.take(s)
            m.run(Script().plan(s, 'w', PLANS[pl]))
        m.req(0, '/%s?%s' % (path.decode()[1:], b.decode()), method, hd, b'xx' if hd else b'')
    m.get(0)
    for i in range(3):
        m.run(Script().q())
        m.get(0)
    s = m.slot(MB)
    got = m.take(s) if s is not None else b''
    w = setcmd(path, b) if n <= MAX and kind != 'e' and full is not False else b''
    if head and got == b'':
        w = b''
    if full is None and got == b'':
        w = b''
    if kind == 'p' and head and w:
        return 'the answer to HEAD was stored: %s' % short(got), None
    if pl.startswith('pipe') or pl == 'reset':
        if got and not w.startswith(got):
            return 'the cache got %s instead of %s' % (short(got), short(w)), None
    elif got != w:
        return 'the cache got %s instead of %s' % (short(got), short(w)), None
    rs, left, d = m.resps(0, [method]) if full is not None else ([], b'', b'')
    if full is True and not head and (len(rs) != 1 or rs[0].body != (b if kind != 'e' else b'not here')):
        return 'the client got %s' % short(d), None
    # reply of the cache, then another response is stored
    if s is not None and got and kind != 'p':
        for p in pieces(ANSWERS[a], cut):
            m.run(Script().send(s, p).q())
    m.run(Script().close(0).q().advance(1.5).q().connect(1, port=40001))
    ok = None
    for t in range(3):
        m.req(1, '/later?%d' % t)
        s2 = m.slot(MB)
        ok = s2 is not None and m.take(s2)
        rs, left, d = m.resps(1, ['GET'])
        if len(rs) != 1 or rs[0].body != b'%d' % t:
            return 'the client got %s later' % short(d), None
        if ok and ok.endswith(setcmd(b'/later', b'%d' % t)):
            break
        m.run(Script().advance(1.5).q())
    else:
        return 'later responses are not stored: %s' % short(ok or b''), None
    return m.end(), (kind, bool(got), pl)


def store_multi(m, k, pl):
    m.begin(k)
    m.req(0, '/w?0')
    s = m.slot(MB)
    if s is None:
        return 'nothing stored', None
    m.run(Script().send(s, b'STORED\r\n').q())
    m.take(s)
    m.get(0); m.take(0)
    if PLANS[pl]:
        m.run(Script().plan(s, 'w', PLANS[pl]))
    sc = Script()
    for i in range(k):
        sc.send(i, req('GET', '/m%d?%s' % (i, 'abcdefghij'[:i + 1])))
    m.run(sc.q())
    for i in range(4):
        m.run(Script().q())
        m.get(*range(k))
    want = [setcmd(b'/m%d' % i, b'abcdefghij'[:i + 1]) for i in range(k)]
    got = m.take(s)
    left, rest = list(want), got
    while rest:
        w = [x for x in left if rest.startswith(x)]
        if not w:
            break
        left.remove(w[0])
        rest = rest[len(w[0]):]
    if (rest or left) and not (pl == 'pipe1' and any(x.startswith(rest) for x in left)):
        return 'the cache got %s instead of %s' % (short(got, 300), short(b''.join(want), 300)), None
    for i in range(k):
        rs, left, d = m.resps(i, ['GET'])
        if len(rs) != 1 or rs[0].body != b'abcdefghij'[:i + 1]:
            return 'client %d got %s' % (i, short(d)), None
    return m.end(), (k, not left)


# ---------------------------------------------------------------- keys
KEY = conf('''
if req.path =~ "^/c/(.*)$" {
  memcached.lookup (["server" => "%(a)s", "key" => "k:%%1:%%{req.query}"], { header.add "X-M" => "hit"; }, { header.add "X-M" => "miss"; respond "content"; memcached.store ["server" => "%(b)s", "key" => "k:%%1:%%{req.query}"]; });
} else {
  memcached.lookup (["server" => "%(a)s"], { header.add "X-M" => "hit"; }, { header.add "X-M" => "miss"; respond "content"; memcached.store ["server" => "%(b)s"]; });
}
env.set "X" => "1";
''' % {'a': MA, 'b': MB}, ['mod_memcached'])
REWR = conf('''
memcached.lookup (["server" => "%(a)s"], { header.add "X-M" => "hit"; }, { header.add "X-M" => "miss"; respond "content"; memcached.store ["server" => "%(b)s"]; rewrite "^" => "/other"; });
''' % {'a': MA, 'b': MB}, ['mod_memcached', 'mod_rewrite'])


def key_cases(th):
    def gen():
        out = []
        for b in range(1, 256):
            out.append('/a%%%02X' % b)
        for n in (1, 2, 100, 249, 250, 251, 252, 254, 255, 256, 257, 1000):
            out.append('/' + 'k' * (n - 1))
        out += ['/c/', '/c/x', '/c/x?q', '/c/y?q', '/c/%20', '/c/x%0ay', '/c/' + 'l' * 300, '/c/' + 'l' * 244 + '?1', '/c/' + 'l' * 245 + '?1', '/c/' + 'l' * 246 + '?1', '/c/%ff?q']
        return out
    return gen


def key_drive(sim, key, wd):
    from urllib.parse import unquote_to_bytes
    m = MC(sim)
    m.begin()
    p, _, q = key.partition('?')
    raw = bytes(c if 0x20 <= c != 0x7f else 0x5f for c in unquote_to_bytes(p))     # control characters never get into the path
    if raw.startswith(b'/c/') and b'\n' not in raw:
        raw = b'k:' + raw[3:] + b':' + q.encode()
    ok = 0 < len(raw) <= 250 and all(0x20 < c < 0x7f for c in raw)
    m.req(0, key)
    s = m.slot(MA)
    g = m.take(s) if s is not None else b''
    if not (g.startswith(b'get ') and g.endswith(b'\r\n')):
        return 'lookup sent %s' % short(g), None
    k = g[4:-2]
    if ok and k != raw:
        return 'looked up %s instead of %s' % (short(k), short(raw)), None
    if not re.match(rb'^[\x21-\x7e]{1,250}$', k):
        return 'invalid key %s' % short(k), None
    if not ok and k != hashlib.sha1(raw).hexdigest().encode():
        return 'the key %s is not the hash of %s' % (short(k), short(raw)), None
    m.run(Script().send(s, b'END\r\n').q())
    m.get(0)
    s = m.slot(MB)
    g = m.take(s) if s is not None else b''
    if g != b'set ' + k + b' 0 30 7\r\ncontent\r\n':
        return 'looked up %s, but stored %s' % (short(k), short(g)), None
    rs, left, d = m.resps(0, ['GET'])
    if len(rs) != 1 or rs[0].body != b'content':
        return 'client got %s' % short(d), None
    return m.end(['/c/flush']), (ok,)


# ---------------------------------------------------------------- connecting
def conn_cases(th):
    def gen():
        evs = ['r', 'o', 'f', 't']      # request, connect completes, fails, time passes
        n = 7 if th else 6
        out = []
        for mode in (0, 1, -ECONNREFUSED, -EMFILE):
            for k in range(1, n + 1):
                for e in itertools.product(evs, repeat=k):
                    if e[-1] != 'r' or 'tttt' in ''.join(e) or (mode != 1 and ('o' in e or 'f' in e)):
                        continue
                    out.append((mode, ''.join(e)))
        return out
    return gen


def conn_drive(sim, key, wd):
    mode, h = key
    m = MC(sim)
    m.begin()
    m.run(Script().connmode(MA, mode))
    m.slow = mode == 1
    n, out = 0, ''
    for c in h:
        if c == 'r':
            m.req(0, '/q%d' % n)
            s = m.slot(MA)
            g = m.take(s) if s is not None else b''
            if g:
                if g != b'get /q%d\r\n' % n:
                    return 'the cache got %s' % short(g), None
                m.run(Script().send(s, val(b'/q%d' % n, b'v%d' % n)).q())
                m.get(0)
            got, b = hitmiss(m, 0)
            if (got, b) != (('hit', b'v%d' % n) if g else ('miss', b'fallback')):
                return 'request %d got %s %s' % (n, got, short(b)), None
            if mode == 0 and got != 'hit':
                return 'request %d was no hit, though the cache is up' % n, None
            if mode == 1 and s is not None and m.pend is None and s in getattr(m, 'up', ()) and got != 'hit':
                return 'request %d was no hit, though the connection is up' % n, None
            out += got[0]
            n += 1
        elif c in 'of' and m.pend is not None:
            m.run(Script().complete(m.pend, c == 'o').q())
            if c == 'o':
                m.up = getattr(m, 'up', ()) + (m.pend,)
            m.pend = None
        elif c == 't':
            m.run(Script().advance(1.1).q())
    # the cache is up: at the latest the second request reaches it
    if m.pend is not None:
        m.run(Script().complete(m.pend, True).q())
        m.pend = None
    m.slow = False
    m.run(Script().connmode(MA, 0))
    for t in range(2):
        m.run(Script().advance(1.5).q())
        m.req(0, '/z')
        s = m.slot(MA)
        g = m.take(s) if s is not None else b''
        if g:
            m.run(Script().send(s, val(b'/z', b'zz')).q())
            m.get(0)
        got, b = hitmiss(m, 0)
        if got == 'hit':
            break
    if (got, b) != ('hit', b'zz'):
        return 'the cache is not used again: %s' % got, None
    return m.end(), out


# ---------------------------------------------------------------- the Lua interface
LUA = '''
local con = memcached.new("%s")
local function show(r)
 return tostring(r.code) .. "|" .. tostring(r.key) .. "|" .. tostring(r.flags) .. "|" .. tostring(r.cas) .. "|" .. tostring(r.data) .. "|" .. (r.error and "error" or "")
end
local function finish(vr, r)
 vr:handle_direct(); vr.resp.status = 200; vr.out:add(show(r))
end
LAST = LAST or "none"
local last = { s = "none" }
actions = function(vr)
 local op, key, value, ttl = vr.req.headers["X-Op"], vr.req.headers["X-Key"], vr.req.headers["X-Val"], vr.req.headers["X-Ttl"]
 ttl = ttl ~= "" and ttl and tonumber(ttl) or nil
 if op == "last" then vr:handle_direct(); vr.resp.status = 200; vr.out:add(last.s); return end
 if op == "setq" then
  local ok, err
  if ttl then ok, err = con:setq(key, value, ttl) else ok, err = con:setq(key, value) end
  vr:handle_direct(); vr.resp.status = 200; vr.out:add(tostring(ok)); return
 end
 if op == "getcb" or op == "setcb" then
  local f = function(r) last.s = show(r) end
  local rq, err
  last.s = "waiting"
  if op == "getcb" then rq, err = con:get(key, f)
  elseif ttl then rq, err = con:set(key, value, f, ttl) else rq, err = con:set(key, value, f) end
  last.rq = rq
  vr:handle_direct(); vr.resp.status = 200; vr.out:add(rq and "ok" or "down"); return
 end
 if not REQ.rq then
  local rq, err
  if op == "get" then rq, err = con:get(key, vr)
  elseif ttl then rq, err = con:set(key, value, vr, ttl) else rq, err = con:set(key, value, vr) end
  if not rq then vr:handle_direct(); vr.resp.status = 200; vr.out:add("down"); return end
  REQ.rq = rq
  return lighty.HANDLER_WAIT_FOR_EVENT
 end
 local r = REQ.rq.response
 if not r.code then return lighty.HANDLER_WAIT_FOR_EVENT end
 finish(vr, r)
end
''' % MA


def lua_cfg(wd):
    p = os.path.join(wd, 'mc.lua')
    if not os.path.exists(p) or open(p).read() != LUA:
        with open(p + '.%d' % os.getpid(), 'w') as f:
            f.write(LUA)
        os.rename(p + '.%d' % os.getpid(), p)
    return conf('if req.path == "/flush" { respond "x"; } else { lua.handler "%s"; }' % p, ['mod_memcached', 'mod_lua'])


LOPS = ['get', 'getcb', 'set', 'setcb', 'setq']


def lua_cases(th):
    def gen():
        out = []
        for seq in itertools.product(LOPS, repeat=2):
            for ttl in ('', '5'):
                for bad in ('', 'close', 'err'):
                    out.append((seq, ttl, bad))
        for op in LOPS:
            r = lua_reply(op, '')[0]
            for c in range(1, len(r)):
                out.append(((op,), '', c))
        return out
    return gen


def lua_reply(op, bad):
    if op.startswith('get'):
        return (b'ERROR\r\n', '4|nil|nil|nil|nil|error') if bad == 'err' else (b'VALUE kk 12 5 77\r\nv\r\nal\r\nEND\r\n', '0|kk|12|77|v\r\nal|')
    return (b'NOT_STORED\r\n', '4|nil|nil|nil|nil|error') if bad == 'err' else (b'STORED\r\n', '0|nil|nil|nil|nil|')


def lua_drive(sim, key, wd):
    seq, ttl, bad = key
    m = MC(sim)
    out = ''
    for op in seq:
        m.begin()
        hd = [('X-Op', op), ('X-Key', 'kk'), ('X-Val', 'value'), ('X-Ttl', ttl)]
        want = b'get kk\r\n' if op.startswith('get') else b'set kk 0 %s 5\r\nvalue\r\n' % (ttl.encode() or b'300')
        rep, w = lua_reply(op, bad)
        for t in range(3):
            m.take(0)
            m.req(0, '/', 'GET', hd)
            d = m.take(0)
            s = m.slot(MA)
            g = m.take(s) if s is not None else b''
            if g:
                break
            if not d.startswith(b'HTTP/1.1 200') or not d.endswith(b'\r\ndown') and not d.endswith(b'\r\nnil'):
                return '%s: nothing sent, and the client got %s' % (op, short(d)), None
            m.run(Script().advance(1.5).q())
        if g != want:
            return '%s: the cache got %s instead of %s' % (op, short(g), short(want)), None
        if bad == 'close':
            m.run(Script().send(s, rep[:3]).q().close(s).q())
            w = '4|nil|nil|nil|nil|error'
        else:
            for p in pieces(rep, (bad,) if isinstance(bad, int) else ()):
                m.run(Script().send(s, p).q())
        m.get(0)
        d += m.take(0)
        rs, left = parse_responses(d, m.eof.get(0), ['GET'])
        if len(rs) != 1 or left or rs[0].status != 200:
            return '%s: the client got %s' % (op, short(d)), None
        b = rs[0].body.decode('latin-1')
        if op in ('get', 'set'):
            if b != w:
                return '%s: the script got %r instead of %r' % (op, b, w), None
        else:
            if b != ('true' if op == 'setq' else 'ok'):
                return '%s returned %r' % (op, b), None
            if op != 'setq':
                m.req(0, '/', 'GET', [('X-Op', 'last'), ('X-Key', 'k'), ('X-Val', 'v'), ('X-Ttl', '')])
                rs, left, d = m.resps(0, ['GET'])
                if len(rs) != 1 or rs[0].body.decode('latin-1') != w:
                    return '%s: the callback got %s instead of %r' % (op, short(d), w), None
        out += op[0]
        m.run(Script().close(0).q())
    # drop the connection to the cache: the script's connection stays, a request makes it notice
    sc = Script().connmode(MA, -ECONNREFUSED)
    for k in m.con.get(MA, []):
        sc.close(k)
    sc.q().advance(1.5).connect(1, port=40001).send(1, req('GET', '/', [('X-Op', 'setq'), ('X-Key', 'k'), ('X-Val', 'v'), ('X-Ttl', '')])).q().drain(1)
    m.run(sc)
    return m.end(), (out, str(bad))


def run(ctx):
    th = ctx.thorough
    ctx.rules.append('a complete reply to a get is served byte for byte as a hit however it arrives; every other reply, closed or refused connection is a miss, and later lookups work again')
    ctx.drive('lookup', LOOKUP, look_cases(th), look_drive)
    ctx.drive('several lookups at once', LOOKUP, multi_cases(th), multi_drive)
    ctx.rules.append('exactly the complete bodies of 200 responses up to maxsize are stored, as one valid set command each, under the key of the lookup, with the configured flags and ttl')
    ctx.drive('store', STORE, store_cases(th), store_drive)
    ctx.drive('keys', KEY, key_cases(th), key_drive)
    ctx.drive('keys of rewritten requests', REWR, lambda: ['/a', '/b%20', '/' + 'k' * 300], key_drive)
    ctx.drive('connecting', LOOKUP, conn_cases(th), conn_drive)
    ctx.rules.append('the Lua interface sends and returns the same')
    ctx.drive('Lua interface', lua_cfg, lua_cases(th), lua_drive)
