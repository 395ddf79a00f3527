"""C02: every response on the wire is self-framed and equal to the generated message"""
from h import *

FILES = {'e.txt': b'', 'one.txt': b'1', 'ten.txt': b'0123456789', 'big.bin': bytes(range(256)) * 1200}


def setup(wd):
    d = os.path.join(wd, 'doc')
    os.makedirs(os.path.join(d, 'dir'), exist_ok=True)
    for n, v in FILES.items():
        p = os.path.join(d, n)
        with open(p, 'wb') as f:
            f.write(v)
        os.utime(p, (1600000000, 1600000000))


STATUS = [200, 201, 204, 205, 206, 301, 304, 400, 404, 499, 500, 503, 599]


def config(wd):
    st = ''.join('else if req.path == "/s%d" { respond 200 => "body-%d"; set_status %d; }\n' % (s, s, s) for s in STATUS)
    rs = ''.join('else if req.path == "/r%d" { respond %d => "body-%d"; }\n' % (s, s, s) for s in STATUS)
    rn = ''.join('else if req.path == "/n%d" { respond %d; }\n' % (s, s) for s in STATUS)
    return conf('''
if req.path == "/scgi" { scgi "unix:/scgi"; }
else if req.path == "/fcgi" { fastcgi "unix:/fcgi"; }
else if req.path == "/proxy" { proxy "unix:/proxy"; }
else if req.path == "/scgi-defl" { scgi "unix:/scgi"; deflate; }
else if req.path == "/text" { respond 200 => "hello %%{req.method}"; }
else if req.path == "/cl" { header.overwrite "Content-Length" => "3"; respond 200 => "hello"; }
else if req.path == "/te" { header.overwrite "Transfer-Encoding" => "foo"; header.remove "Transfer-Encoding"; respond 200 => "hello"; }
else if req.path == "/conn" { header.add "Connection" => "Upgrade"; respond 200 => "hello"; }
else if req.path == "/redir" { redirect "http://other/%%{req.path}"; }
else if req.path == "/tail" { respond 200 => "tail"; }
%s%s%s
else { docroot "%s/doc"; static; }
''' % (st, rs, rn, wd), ['mod_scgi', 'mod_fastcgi', 'mod_proxy', 'mod_deflate', 'mod_redirect'])


# --- requests: method x version x connection header
VAR = []
for m in ('GET', 'HEAD', 'POST'):
    for v in ('1.1', '1.0'):
        for c in (None, 'keep-alive', 'close', 'Keep-Alive', 'Close', 'upgrade'):
            VAR.append((m, v, c))


def mk(m, v, c, path):
    h = []
    if c:
        h.append(('Connection', c))
    b = b''
    if m == 'POST':
        h.append(('Content-Length', '3'))
        b = b'abc'
    return req(m, path, h, b, version=v)


def wantclose(v, c):
    c = (c or '').lower()
    return c == 'close' if v == '1.1' else c != 'keep-alive'


TAIL = req('GET', '/tail')
NOBODY = (204, 205, 304)


def check(rs, left, r, method, want, status, close, maybody=True, mustclose=None):
    """want: exact body (None: any)"""
    if left:
        return 'left over bytes %s' % short(left)
    fin = [x for x in rs if x.status >= 200]
    if not fin:
        return 'no response (eof=%r)' % r.eof.get(0)
    x = fin[0]
    if status and x.status != status:
        return 'status %d expected %d' % (x.status, status)
    if not x.complete:
        return 'response incomplete: %r' % x
    if method != 'HEAD' and x.status not in NOBODY and want is not None and x.body != want:
        return 'body %s expected %s' % (short(x.body), short(want))
    if (method == 'HEAD' or x.status in NOBODY) and x.body:
        return 'body in a response without body'
    if len(x.get('date')) != 1 or len(x.get('server')) != 1:
        return 'date/server headers: %r' % x.headers
    if x.version == '1.0' and x.one('transfer-encoding'):
        return 'chunked for a 1.0 client'
    if close and not x.close:
        return 'client asked for close, response does not announce it: %r' % x.headers
    if x.close:
        if len(fin) != 1:
            return 'data after a response which announced close'
        if not r.eof.get(0):
            return 'announced close, connection still open'
    else:
        if x.framing == 'close':
            return 'body delimited by close on a persistent connection'
        if r.eof.get(0):
            return 'persistent connection closed'
        if len(fin) != 2 or fin[1].status != 200 or fin[1].body != b'tail':
            return 'following response wrong: %r' % fin[1:]
    return None


def direct_cases():
    paths = ['/text', '/cl', '/te', '/conn', '/redir', '/missing', '/dir', '/e.txt', '/one.txt', '/ten.txt', '/big.bin']
    paths += ['/%s%d' % (k, s) for k in 'srn' for s in STATUS]
    for p in paths:
        for m, v, c in VAR:
            yield ('direct', p, m, v, c), Script().connect(0).send(0, mk(m, v, c, p) + TAIL).q().drain(0).q().drain(0).info(0).reset()


def direct_judge(key, r):
    _, p, m, v, c = key
    rs, err = bodies(r, 0, [m, 'GET'])
    if err:
        return err
    status = want = None
    if p in ('/text', '/cl', '/te', '/conn'):
        status, want = 200, {'/text': b'hello ' + m.encode()}.get(p, b'hello')
    elif p == '/redir':
        status, want = 301, b''
    elif p == '/missing':
        status = 405 if m == 'POST' else 404
    elif p == '/dir':
        status = None
    elif p[1:] in FILES:
        if m == 'POST':
            status = 405
        else:
            status, want = 200, FILES[p[1:]]
    else:
        status = int(p[2:])
        if p[1] in 'rs':
            want = b'body-%d' % status
        elif status < 400:
            want = b''
    return check(rs[0], rs[1], r, m, want, status, wantclose(v, c))


# --- backend responses
def bcases(thorough):
    B = [b'', b'x', b'hello world', bytes(range(256)) * 40]
    for app in ('scgi', 'fcgi', 'proxy', 'scgi-defl'):
        for st in (200, 204, 205, 304, 404, 500):
            for bi, b in enumerate(B):
                for cl in (None, 0, -1, 1, 'chunked') if app == 'proxy' else (None, 0, -1, 1):
                    if cl == -1 and not b:
                        continue
                    for segs in ('all', 'head', 'bytes2') if thorough else ('all', 'head'):
                        for m in ('GET', 'HEAD', 'POST'):
                            for v, c in (('1.1', None), ('1.0', None), ('1.0', 'keep-alive'), ('1.1', 'close')):
                                yield app, st, bi, cl, segs, m, v, c


def bbody(bi):
    return [b'', b'x', b'hello world', bytes(range(256)) * 40][bi]


def fcgi_rec(t, data, rid=1):
    out = b''
    if not data:
        return bytes((1, t, 0, rid, 0, 0, 0, 0))
    for i in range(0, len(data), 60000):
        d = data[i:i + 60000]
        pad = -len(d) % 8
        out += bytes((1, t, 0, rid)) + struct.pack('>H', len(d)) + bytes((pad, 0)) + d + b'\0' * pad
    return out


def bscript(app, st, bi, cl, segs, m, v, c):
    b = bbody(bi)
    sc = Script().connect(0).send(0, mk(m, v, c, '/' + app) + TAIL).q().drain(64)
    if app == 'proxy':
        h = b'HTTP/1.1 %d X\r\nX-B: 1\r\n' % st
    else:
        h = b'Status: %d\r\nX-B: 1\r\n' % st
    body = b
    if cl == 'chunked':
        h += b'Transfer-Encoding: chunked\r\n'
        body = chunked(b, [len(b)] if b else [])
    elif cl is not None:
        h += b'Content-Length: %d\r\n' % (len(b) + cl)
    h += b'\r\n'
    if m == 'HEAD' and app == 'proxy':
        body = b''
    if app == 'fcgi':
        ps = {'all': [fcgi_rec(6, h + body) + fcgi_rec(6, b'') + fcgi_rec(3, b'\0' * 8)],
              'head': [fcgi_rec(6, h), (fcgi_rec(6, body) if body else b'') + fcgi_rec(6, b'') + fcgi_rec(3, b'\0' * 8)],
              'bytes2': [fcgi_rec(6, h[:3]), fcgi_rec(6, h[3:]), fcgi_rec(6, body) if body else b'', fcgi_rec(6, b''), fcgi_rec(3, b'\0' * 8)]}[segs]
    else:
        ps = {'all': [h + body], 'head': [h, body], 'bytes2': [h[:3], h[3:-1], h[-1:] + body[:1], body[1:]]}[segs]
    for p in ps:
        if p:
            sc.send(64, p).q()
    sc.close(64).q().drain(0).q().drain(0).info(0).reset()
    return sc


def backend_judge(key, r):
    app, st, bi, cl, segs, m, v, c = key
    b = bbody(bi)
    rs, err = bodies(r, 0, [m, 'GET'])
    mismatch = isinstance(cl, int) and cl != 0
    http10 = v == '1.0'
    if err:
        if mismatch and http10 and r.eof.get(0):
            return None    # the backend lied about the length, the connection is closed
        return err
    rs, left = rs
    fin = [x for x in rs if x.status >= 200]
    if not fin:
        return 'no response (eof=%r)' % r.eof.get(0)
    x = fin[0]
    if mismatch and m != 'HEAD' and st not in NOBODY:
        # no wrong framing on a connection that stays usable
        if not r.eof.get(0) and not r.rst.get(0):
            if x.complete and not x.close and len(fin) == 2 and fin[1].body == b'tail':
                return None
            return 'connection hangs: %r' % fin
        return None
    want = b
    if app == 'scgi-defl':
        if x.one('content-encoding'):
            return 'deflate without accept-encoding'
    if st >= 400 and not b:
        want = None   # error page may replace an empty body
    return check(rs, left, r, m, want, st, wantclose(v, c))


def run(ctx):
    ctx.explore('server generated responses x method x version x connection header', config, direct_cases, direct_judge, setup=setup)

    def bc():
        for k in bcases(ctx.thorough):
            yield k, bscript(*k)
    ctx.explore('backend responses x framing x method x version', config, bc, backend_judge, setup=setup)

    # two consecutive responses of every kind on one connection
    P = ['/text', '/n204', '/n304', '/n205', '/r404', '/n404', '/ten.txt', '/e.txt', '/redir', '/big.bin', '/scgi']
    VV = [(m, v, c) for m in ('GET', 'HEAD') for v, c in (('1.1', None), ('1.0', 'keep-alive'))]
    if ctx.thorough:
        VV += [('POST', '1.1', None), ('GET', '1.1', 'close')]

    def seqs():
        for p1 in P:
            for p2 in P:
                for a in VV:
                    for b in VV:
                        sc = Script().connect(0).send(0, mk(*a, p1) + mk(*b, p2) + TAIL).q().drain(0)
                        k = 64
                        for p in (p1, p2):
                            if p == '/scgi':
                                sc.drain(k).send(k, 'Status: 200\r\n\r\nbackend').q().close(k).q()
                                k += 1
                        yield ('seq', p1, a, p2, b), sc.drain(0).q().drain(0).info(0).reset()
    ctx.explore('sequences of two responses', config, seqs, seq_judge, setup=setup)
    ctx.rules.append('response source x method x HTTP version x Connection header (x backend framing x segmentation); each followed by a pipelined request whose answer must be found where the framing says')


def seq_judge(key, r):
    _, p1, a, p2, b = key
    rs, err = bodies(r, 0, [a[0], b[0], 'GET'])
    if err:
        return err
    rs, left = rs
    if left:
        return 'left over %s' % short(left)
    for i, (p, (m, v, c)) in enumerate(((p1, a), (p2, b))):
        if i >= len(rs):
            return 'response %d missing' % i
        x = rs[i]
        if not x.complete:
            return 'response %d incomplete' % i
        st = 200 if p in ('/text', '/scgi') or p[1:] in FILES else 301 if p == '/redir' else int(p[2:])
        if m == 'POST' and p[1:] in FILES:
            st = 405
        if x.status != st:
            return 'response %d: status %d expected %d' % (i, x.status, st)
        want = None
        if p == '/scgi':
            want = b'backend'
        elif p == '/text':
            want = b'hello ' + m.encode()
        elif p[1:] in FILES and st == 200:
            want = FILES[p[1:]]
        elif p[1] == 'r' and p != '/redir':
            want = b'body-%d' % st
        if m != 'HEAD' and want is not None and x.body != want:
            return 'response %d: body %s expected %s' % (i, short(x.body), short(want))
        if x.close:
            if len(rs) != i + 1 or not r.eof.get(0):
                return 'response %d announces close, but the connection goes on' % i
            if not (p == '/scgi' and v == '1.0') and not wantclose(v, c):
                return 'response %d: unexpected close' % i
            return None
    if len(rs) != 3 or rs[2].body != b'tail' or r.eof.get(0):
        return 'tail response: %r eof %r' % (rs[2:], r.eof)
    return None
