"""C04: requests do not influence each other (recycled connections, keep-alive, aborted and concurrent requests)"""
import itertools, base64, re
from h import *


def setup(wd):
    d = os.path.join(wd, 'doc', 'd')
    os.makedirs(d, exist_ok=True)
    for n, v in (('f', b'0123456789'), ('g', b'abc' * 5000), ('d/index.html', b'index')):
        p = os.path.join(wd, 'doc', n)
        with open(p, 'wb') as f:
            f.write(v)
        os.utime(p, (1600000000, 1600000000))
    with open(os.path.join(wd, 'pw'), 'w') as f:
        f.write('bob:secret\n')


def config(wd):
    return conf('''
auth.debug false;
if req.path =^ "/opt" { server.tag "other"; header.add "X-O" => "1"; env.set "HTTP_Q" => "z"; static.exclude_extensions ".x"; keepalive_x_dummy; }
else if req.path =^ "/auth" { auth.plain [ "method" => "basic", "realm" => "r", "file" => "%(wd)s/pw", "ttl" => 10 ]; }
if req.path =^ "/rw" { rewrite "^/rw(.*)" => "/echo$1?rw=1"; }
if req.path =^ "/noetag" { etag.use [[]]; }
if req.path =^ "/nb" { buffer_request_body false; }
if req.path =^ "/lim" { server.tag "lim"; mime_types [ "" => "x/y" ]; }
docroot "%(wd)s/doc";
if req.path =^ "/al" { alias "/al" => "%(wd)s/doc/d"; }
if req.path =^ "/pi" { alias "/pi" => "%(wd)s/doc"; pathinfo; }
if req.path =$ "/scgi" { scgi "unix:/s"; }
else if req.path =$ "/fcgi" { fastcgi "unix:/f"; }
else if req.path =$ "/proxy" { proxy "unix:/p"; }
else if req.path =$ "/defl" { respond 200 => "hellohellohellohellohellohello"; header.overwrite "Content-Type" => "text/html"; deflate; }
else if req.path =^ "/echo" { respond 200 => "%%{req.host}|%%{req.path}|%%{req.query}|%%{req.header[X]}|%%{req.header[Q]}|%%{phys.path}|%%{phys.pathinfo}|%%{req.env[REMOTE_USER]}|%%{req.env[HTTP_Q]}|%%{resp.header[X-O]}"; }
else if req.path =^ "/opt" { respond 200 => "opt"; }
else if req.path =^ "/pi" { respond 200 => "%%{phys.path}|%%{phys.pathinfo}"; }
else if req.path =^ "/noetag" { alias "/noetag" => "%(wd)s/doc"; static; }
else if req.path =^ "/lim" { alias "/lim" => "%(wd)s/doc"; static; }
else { index ["index.html", "x"]; static; }
'''.replace('keepalive_x_dummy;', '') % dict(wd=os.path.join(os.path.dirname(wd), 'shared')), ['mod_scgi', 'mod_fastcgi', 'mod_proxy', 'mod_rewrite', 'mod_deflate', 'mod_auth'])


def rec(t, data=b''):
    return bytes((1, t, 0, 1)) + struct.pack('>HBB', len(data), 0, 0) + data


CGI = b'Status: 201\r\nX-B: back\r\n\r\nbody of backend'
BACK = {'s': [CGI[:20], CGI[20:]], 'f': [rec(6, CGI[:30]), rec(6, CGI[30:]) + rec(6) + rec(3, b'\0' * 8)], 'p': [b'HTTP/1.1 200 OK\r\nTransfer-', b'Encoding: chunked\r\nX-P: 1\r\n\r\n3\r\nabc\r\n', b'4\r\ndefg\r\n0\r\n\r\n']}
AUTH = base64.b64encode(b'bob:secret').decode()

L = {
    'a': (req('GET', '/echo/a?x=1', [('X', 'secret'), ('Q', 'q')]), None),
    'b': (req('GET', '/echo', host='other.host'), None),
    'c': (req('POST', '/echo/c', [('Content-Length', '5')], b'12345'), None),
    'd': (req('POST', '/scgi', [('Transfer-Encoding', 'chunked'), ('X', 'y')], chunked(b'hello', [2, 3])), 's'),
    'e': (req('GET', '/f'), None),
    'f': (req('GET', '/f', [('Range', 'bytes=2-4')]), None),
    'g': (req('GET', '/f', [('If-Modified-Since', 'Sun, 13 Sep 2020 12:26:40 GMT')]), None),
    'h': (req('HEAD', '/g'), None),
    'i': (req('GET', '/pi/f/info'), None),
    'j': (req('GET', '/opt'), None),
    'k': (req('GET', '/fcgi?a'), 'f'),
    'l': (req('GET', '/proxy'), 'p'),
    'm': (req('GET', '/rw/x?old'), None),
    'n': (req('GET', '/missing'), None),
    'o': (b'GET /f HTTP/1.1\r\nHost: x\r\nContent-Length: x\r\n\r\n', None),
    'p': (req('GET', '/echo', version='1.0'), None),
    'q': (req('GET', '/defl', [('Accept-Encoding', 'gzip')]), None),
    'r': (req('POST', '/nb/fcgi', [('Transfer-Encoding', 'chunked')], chunked(b'hello', [5])), 'f'),
    's': (req('POST', '/nb/scgi', [('Content-Length', '4'), ('Expect', '100-continue')], b'1234'), 's'),
    't': (req('GET', '/auth/scgi', [('Authorization', 'Basic ' + AUTH)]), 's'),
    'u': (req('GET', '/auth/f'), None),
    'v': (req('GET', '/scgi'), 's'),
    'w': (req('GET', '/g'), None),
    'x': (req('GET', '/noetag/f'), None),
    'y': (req('GET', '/lim/f'), None),
    'z': (req('GET', '/defl'), None),
    'A': (req('GET', '/al/index.html', [('Connection', 'close')]), None),
    'B': (req('POST', '/nb/fcgi', [('Content-Length', '9')], b'123456789'), 'f'),
    'C': (req('POST', '/missing', [('Transfer-Encoding', 'chunked')], chunked(b'hello', [5])), None),
}
CLOSES = 'opAc'      # the baseline decides; these are only an ordering hint


class Play:
    def __init__(self):
        self.sc = Script()
        self.nb = 64

    def back(self, k, upto=None):
        """play the backend answer of letter k; upto: number of segments, then stop"""
        b = L[k][1]
        if b:
            n = self.nb
            self.nb += 1
            self.sc.drain(n)
            segs = BACK[b] if upto is None else BACK[b][:upto]
            for s in segs:
                self.sc.send(n, s).q()
            if upto is None:
                self.sc.drain(n).close(n).q()
            return n

    def full(self, c, k):
        self.sc.send(c, L[k][0]).q()
        self.back(k)
        self.sc.drain(c)


def baseline(ctx):
    """observations of every request alone on a freshly started server"""
    base = {}
    setup(os.path.join(ctx.tmp, 'shared'))
    wd = os.path.join(ctx.tmp, 'base')
    for k in L:
        s = Sim(config(wd), wd)
        try:
            p = Play()
            p.sc.connect(0)
            p.full(0, k)
            r = s.run(p.sc.info(0).reset())
        finally:
            s.close()
        back = r.data.get(64)
        if L[k][1] and not back:
            raise RuntimeError('baseline %s: backend not used: %r' % (k, r.data))
        if not r.data.get(0):
            raise RuntimeError('baseline %s: no response' % k)
        base[k] = (r.data.get(0, b''), back, bool(r.eof.get(0)))
    return base


def undate(d):
    return re.sub(rb'\r\nDate: [^\r]*\r\n', b'\r\nDate: #\r\n', d)


def same(got, want):
    if got is None or want is None:
        return got == want
    return undate(got) == undate(want)


def seq_cases(base, th):
    ks = list(L)
    n = 4 if th else 3
    for t in itertools.product(ks, repeat=n):
        if any(base[k][2] for k in t[:-1]):
            continue         # closes the connection
        p = Play()
        p.sc.connect(0)
        for k in t:
            p.full(0, k)
        yield ('seq', ''.join(t)), p.sc.info(0).reset()
    for t in itertools.product(ks, repeat=2):
        if base[t[0]][2]:
            continue
        # pipelined
        p = Play()
        p.sc.connect(0).send(0, L[t[0]][0] + L[t[1]][0]).q()
        for k in t:
            p.back(k)
        yield ('pipe', ''.join(t)), p.sc.q().drain(0).info(0).reset()
    # three different connections one after the other: recycled connection objects
    for t in itertools.product(ks, repeat=3 if th else 2):
        p = Play()
        for i, k in enumerate(t):
            p.sc.connect(i)
            p.full(i, k)
            p.sc.close(i).q()
        yield ('recycle', ''.join(t)), p.sc.reset()


def seq_judge(base):
    def judge(key, r):
        kind, t = key
        want = b''
        if kind == 'recycle':
            for i, k in enumerate(t):
                if not same(r.data.get(i, b''), base[k][0]):
                    return 'request %d (%s): %s instead of %s' % (i, k, short(r.data.get(i), 400), short(base[k][0], 400))
        else:
            want = b''.join(base[k][0] for k in t)
            if not same(r.data.get(0, b''), want):
                return 'responses %s instead of %s' % (short(r.data.get(0), 700), short(want, 700))
            if bool(r.eof.get(0)) != base[t[-1]][2]:
                return 'connection state after the last response: eof=%r expected %r' % (r.eof.get(0), base[t[-1]][2])
        n = 64
        for k in t:
            if L[k][1]:
                if not same(r.data.get(n), base[k][1]):
                    return 'backend data of %s: %s instead of %s' % (k, short(r.data.get(n), 700), short(base[k][1], 700))
                n += 1
        return None
    return judge


def abort_cases(base, th):
    """a request is abandoned at every byte / backend stage, then another one is served"""
    ks = list(L)
    victims = ks if th else 'abdehjklmqrsvBt'
    for k in ks:
        d = L[k][0]
        pts = range(1, len(d) + 1)
        for i in pts:
            for how in ('close', 'shut'):
                for v in victims if i > len(d) - 3 or th else 'abdkB':
                    p = Play()
                    p.sc.connect(0).send(0, d[:i]).q()
                    getattr(p.sc, how)(0).q()
                    if how == 'shut':
                        p.sc.close(0).q()
                    # a backend may have been contacted or not; use fresh numbering for the second request
                    p.sc.reset()
                    p.sc.connect(1)
                    p.full(1, v)
                    yield ('abort', k, i, how, v), p.sc.info(1).reset()
        if L[k][1]:
            for st in range(0, len(BACK[L[k][1]]) + 1):
                for who in ('client', 'backend', 'both'):
                    for v in ks:
                        p = Play()
                        p.sc.connect(0).send(0, d).q()
                        n = p.back(k, st)
                        if who in ('client', 'both'):
                            p.sc.close(0).q()
                        if who in ('backend', 'both'):
                            p.sc.close(n).q()
                        p.sc.close(0).q().reset()
                        p.nb = 64
                        p.sc.connect(1)
                        p.full(1, v)
                        yield ('babort', k, st, who, v), p.sc.info(1).reset()


def abort_judge(base):
    def judge(key, r):
        v = key[-1]
        if not same(r.data.get(1, b''), base[v][0]):
            return 'after an aborted request: %s instead of %s' % (short(r.data.get(1), 700), short(base[v][0], 700))
        if bool(r.eof.get(1)) != base[v][2]:
            return 'connection state eof=%r expected %r' % (r.eof.get(1), base[v][2])
        if base[v][1] is not None:
            # backend slots restart after the reset; the last drained data belongs to the second request
            got = r.data.get(64, b'')
            w = base[v][1]
            if not same(got, w) and not any(same(x, w) for k, x in r.steps if k == 64 and x):
                return 'backend data %s instead of %s' % (short(got, 700), short(w, 700))
        return None
    return judge


def inter_script(x, i, y):
    """request y (or nothing) is served completely while x is in progress on another connection"""
    d = L[x][0]
    h = d.index(b'\r\n\r\n')
    sc = Script().connect(0).send(0, d[:i]).q()
    # does x have a backend connection already? (fully received, or streamed with complete header)
    early = L[x][1] and (i == len(d) or (b'/nb/' in d and i >= h + 4 and (L[x][1] == 'f' or b'Content-Length' in d)))
    bx, by = (64, 65) if early else (65, 64)
    if not y or not L[y][1]:
        bx = 64
    if y:
        sc.connect(1).send(1, L[y][0]).q()

    def ans(k, n, segs):
        for s in segs:
            sc.send(n, s).q()
        sc.drain(n).close(n).q()
    if early:
        sc.drain(bx).send(bx, BACK[L[x][1]][0]).q()
    if y and L[y][1]:
        sc.drain(by)
        ans(y, by, BACK[L[y][1]])
    sc.drain(1)
    if i < len(d):
        sc.send(0, d[i:]).q()
    if L[x][1]:
        sc.drain(bx)
        ans(x, bx, BACK[L[x][1]][1 if early else 0:])
    sc.drain(0).drain(1).info(0).info(1).reset()
    return sc, bx, by


def points(x, th):
    d = L[x][0]
    h = d.index(b'\r\n\r\n')
    pts = {1, 10, h - 1, h + 2, h + 4, len(d) - 1, len(d)} if not th else range(1, len(d) + 1)
    return [i for i in sorted(pts) if 1 <= i <= len(d)]


def inter_base(ctx, th):
    """reference for x received in two parts: nothing else happens on the server"""
    wd = os.path.join(ctx.tmp, 'base')
    out = {}
    s = Sim(config(wd), wd)
    for x in L:
        for i in points(x, th):
            sc, bx, by = inter_script(x, i, None)
            r = s.run(sc)
            if not r.data.get(0) or (L[x][1] and not r.data.get(64)):
                raise RuntimeError('reference for %s cut at %d is empty' % (x, i))
            out[x, i] = (r.data[0], r.data.get(64), bool(r.eof.get(0)))
    s.close()
    return out


def inter_cases(base, th):
    ks = list(L)
    for x in ks:
        d = L[x][0]
        h = d.index(b'\r\n\r\n')
        for i in points(x, th):
            for y in ks:
                if not th and i not in (h + 4, len(d) - 1, 10, len(d)) and y not in 'abdk':
                    continue
                sc, bx, by = inter_script(x, i, y)
                yield ('inter', x, i, y, bx, by), sc


def inter_judge(base, ref):
    def judge(key, r):
        _, x, i, y, bx, by = key
        for c, k, b, (w, wb, weof) in ((0, x, bx, ref[x, i]), (1, y, by, base[y])):
            if not same(r.data.get(c, b''), w):
                return 'connection %d (%s): %s instead of %s' % (c, k, short(r.data.get(c), 700), short(w, 700))
            if bool(r.eof.get(c)) != weof:
                return 'connection %d (%s): eof=%r expected %r' % (c, k, r.eof.get(c), weof)
            if L[k][1] and not same(r.data.get(b), wb):
                return 'backend data of %s: %s instead of %s' % (k, short(r.data.get(b), 700), short(wb, 700))
        return None
    return judge


def run(ctx):
    th = ctx.thorough
    base = baseline(ctx)
    ctx.rules.append('differential: every request kind alone on a fresh server is the reference; the same bytes must be observed (client and backend side) after every history of the enumerated kinds')
    ctx.explore('sequences and pipelines on one connection, recycled connections', config, lambda: seq_cases(base, th), seq_judge(base))
    ctx.explore('after requests aborted at every point', config, lambda: abort_cases(base, th), abort_judge(base))
    ctx.explore('concurrent requests on two connections', config, lambda: inter_cases(base, th), inter_judge(base, inter_base(ctx, th)))
