"""C35: TLS connections carry exactly the HTTP exchange a plain connection would, for every cut, fault, close and corruption"""
import itertools, os
from h import *
import tls, c10

T = tls.DIR
SSL1, GNU, GMANY, GSNI, VPEER, VREQ, VANY, VDEEP, GDB = range(1, 10)
VERS = ('1.2', '1.3')


def mkconf(wd):
    return conf('''
if req.path == "/str" { respond 200 => "hello world, this is a response"; }
else if req.path == "/tail" { respond 200 => "tail"; }
else if req.path == "/who" { openssl.setenv "client"; respond 200 => "<%{req.environment[SSL_CLIENT_S_DN_CN]}> %{req.scheme}"; }
else if req.path == "/p" { proxy "unix:/p"; }
else if req.path == "/s" { scgi "unix:/s"; }
else if req.path == "/f" { fastcgi "unix:/f"; }
else if req.path =^ "/df" { docroot "WD/root"; static; deflate; }
else { docroot "WD/root"; static; }
'''.replace('WD', wd), ['mod_scgi', 'mod_fastcgi', 'mod_proxy', 'mod_deflate', 'mod_openssl', 'mod_gnutls'], setup='''
mime_types [".txt" => "text/plain"]; etag.use [["mtime"]];
fetch.files_static "sni" => "WD/sni/x_*.pem";
openssl ["listen" => "127.0.0.1:441", "pemfile" => "T/srv.pem"];
gnutls ["listen" => "127.0.0.1:442", "pemfile" => "T/srv.pem"];
gnutls ["listen" => "127.0.0.1:443", "pemfile" => "T/srv.pem", "pemfile" => "T/a.pem", "pemfile" => "T/b.pem", "pemfile" => "T/w.pem"];
gnutls ["listen" => "127.0.0.1:444", "pemfile" => "T/srv.pem", "sni-backend" => "sni", "sni-fallback-pemfile" => "T/w.pem"];
openssl ["listen" => "127.0.0.1:445", "pemfile" => "T/srv.pem", "verify" => true, "client-ca-file" => "T/ca.crt"];
openssl ["listen" => "127.0.0.1:446", "pemfile" => "T/srv.pem", "verify" => true, "verify-require" => true, "client-ca-file" => "T/ca.crt"];
openssl ["listen" => "127.0.0.1:447", "pemfile" => "T/srv.pem", "verify" => true, "verify-require" => true, "verify-any" => true];
openssl ["listen" => "127.0.0.1:448", "pemfile" => "T/srv.pem", "verify" => true, "verify-require" => true, "verify-depth" => 0, "client-ca-file" => "T/ca.crt"];
gnutls ["listen" => "127.0.0.1:449", "pemfile" => "T/srv.pem", "session-db-size" => 32];
'''.replace('WD', wd).replace('T/', T + '/'))


def setup(wd):
    c10.setup(wd)
    os.makedirs(wd + '/sni', exist_ok=True)
    for n, c in (('a.example', 'a'), ('b.example', 'b'), ('broken.example', None), ('xn--bcher-kva.example', 'a')):
        with open(wd + '/sni/x_%s.pem' % n, 'w') as f:
            f.write(open('%s/%s.pem' % (T, c)).read() if c else 'no certificate\n')


class Plain:
    """the same interface without TLS"""
    def __init__(self, sim, k=0, **kw):
        self.sim, self.k = sim, k
        self.plain = b''
        self.eof = self.rst = self.notify = False
        self.err = None
        self.other = []
        self.step(Script().connect(k, **kw))

    def step(self, sc):
        sc.q().drain(self.k)
        r = self.sim.run(sc.raw())
        self.other.append(r)
        self.plain += r.data.get(self.k, b'')
        self.eof = self.eof or bool(r.eof.get(self.k))
        self.rst = self.rst or bool(r.rst.get(self.k))
        return r

    def handshake(self):
        return True

    def send(self, data, read=True):
        self.step(Script().send(self.k, data))

    def records(self, chunks):
        for c in chunks:
            self.send(c)

    def read(self):
        pass

    def wait(self, n=1):
        for _ in range(n):
            self.step(Script())

    def bye(self):
        self.step(Script().shut(self.k))


def exchange(c, kind, b=64, chunks=None, more=2, close=False):
    """one exchange of c10's kinds over the connection c; returns what the backend was told"""
    rq, methods, bk = c10.KINDS[kind]
    if close:
        rq = rq.replace(b' HTTP/1.1\r\n', b' HTTP/1.1\r\nConnection: close\r\n') if close is True else rq
    if chunks:
        c.records(parts(rq, chunks))
    else:
        c.send(rq)
    told = b''
    if bk:
        segs, cl = c10.BK[bk]
        told += c.step(Script().q().drain(b)).data.get(b, b'')
        c.read()
        for s in segs:
            c.step(Script().send(b, s))
            c.read()
        sc = Script()
        if cl:
            sc.close(b)
        c.step(sc)
        c.read()
    c.wait(30 if kind == 'huge' else more)
    for r in c.other:
        if r.data.get(b) and not told:
            told = r.data[b]
    return told


def canon(kind, data, eof):
    try:
        return repr(c10.canon(kind, data, eof))
    except Exception as e:
        return 'unparsable: %s %s' % (e, short(data, 300))


def nodate(s):
    import re
    return re.sub(r"'date', '[^']*'", "'date'", s)


PORT = [20000]


def ref(sim, kind, close=False):
    c = Plain(sim, 0)
    told = exchange(c, kind, close=close)
    r = (nodate(canon(kind, c.plain, c.eof)), told_of(kind, told, False) if c10.KINDS[kind][2] else None, c.eof, c.rst)
    sim.run(Script().reset(1.1).raw())
    return r


def finish(sim, c, what='', slots=True):
    """everything is released, other connections are fine"""
    r = sim.run(Script().reset(1.1).raw())
    if r.leak[0]:
        return 'connections or descriptors leaked: %r %s' % (r.leak, what)
    if getattr(sim, 'nfin', 0) % 8 == 0:
        r = sim.run(Script().connect(0).send(0, c10.G('/tail')).q().drain(0).reset().raw())
        if b'\r\n\r\ntail' not in r.data.get(0, b''):
            return 'later plain request not answered: %r' % (r.data,)
    sim.nfin = getattr(sim, 'nfin', 0) + 1


def same(sim, c, kind, told, close=False):
    want = ref0(sim, kind, close)
    got = nodate(canon(kind, c.plain, c.eof))
    if got != want[0]:
        return 'kind %s: over TLS %s\nplain: %s\n(handshake %s, error %s, close_notify %s)' % (kind, got[:700], want[0][:700], getattr(c, 'up', None), c.err, c.notify)
    if want[1] is not None:
        x, y = told_of(kind, told, tls.context), want[1]
        if x != y:
            return 'kind %s: backend was told %r instead of %r' % (kind, x, y)
    if c.eof != want[2]:
        return 'kind %s: connection %s, plain connection %s' % (kind, 'closed' if c.eof else 'kept open', 'closed' if want[2] else 'kept open')
    if c.rst or want[3]:
        return 'kind %s: connection reset (TLS %s, plain %s) although the client only sent more than was needed' % (kind, c.rst, want[3])
    if c.eof and not c.notify:
        return 'kind %s: complete response, connection closed without close_notify (error %s)' % (kind, c.err)
    if c.notify and not c.eof:
        return 'kind %s: close_notify but the connection stays open' % kind


def told_of(kind, d, secure):
    """what the backend was told; the variables that describe TLS are checked and removed"""
    x = c10.backend_in(kind, d)
    b = c10.KINDS[kind][2]
    if b == 's':
        env, body = parse_scgi(x)
    elif b == 'f':
        env, body = x[0].pop(4, b''), x
        env = params(env)
    else:
        return repr(x).replace('https', 'http') if secure else repr(x)
    env = dict(env)
    https = env.pop('HTTPS', None)
    port = env.pop('SERVER_PORT', '')
    env.pop('REMOTE_PORT', None)
    scheme = env.pop('REQUEST_SCHEME', None)
    if secure and (https != 'on' or not port.startswith('44') or scheme not in (None, 'https')) or not secure and (https or port.startswith('44') or scheme not in (None, 'http')):
        env['bad'] = (https, port, scheme)
    return sorted(env.items()), body


def params(d):
    out = []
    p = 0

    def ln():
        nonlocal p
        n = d[p]
        p += 1
        if n > 127:
            n = int.from_bytes(d[p - 1:p + 3], 'big') & 0x7fffffff
            p += 3
        return n
    while p < len(d):
        a = ln()
        b = ln()
        out.append((d[p:p + a].decode('latin1'), d[p + a:p + a + b].decode('latin1')))
        p += a + b
    return out


def ref0(sim, kind, close):
    return sim.refs[(kind, close)]


def prepare(sim, keys):
    if not hasattr(sim, 'refs'):
        sim.refs = {}
    for k in keys:
        if k not in sim.refs:
            sim.refs[k] = ref(sim, *k)


def eq(sim, key, wd):
    l, ver, kind, close, tr, plans, chunks = key
    prepare(sim, [(kind, close)])

    def pre(sc):
        for s, w, p in plans:
            if s:
                sc.plan(64, w, p)

    c = tls.Client(sim, 0, l, context=tls.context(ver), tr=tls.every(tr[1]) if tr and tr[0] == 'every' else tls.cut(*tr[1:]) if tr else None, pre=pre)
    sc = Script()
    n = 0
    for s, w, p in plans:
        if not s:
            sc.plan(0, w, p)
            n += 1
    if n and plans[0][2] and tr and tr[0] == 'late':
        pass
    if n and not (tr and tr[0] == 'late'):
        sim.run(sc.raw())
    if not c.handshake():
        return 'handshake failed: %s' % c.err, None
    if n and tr and tr[0] == 'late':
        sim.run(sc.raw())
    told = exchange(c, kind, chunks=chunks, close=close, more=12 if plans else 2)
    m = same(sim, c, kind, told, close)
    o = (kind, close, c.eof, c.notify, len(c.plain))
    return m or finish(sim, c), o


def eq_cases(ctx):
    kinds = list(c10.KINDS)

    def cases():
        for l in (SSL1, GNU):
            for ver in VERS:
                for kind in kinds:
                    for close in (False, True):
                        yield l, ver, kind, close, None, (), None
        # every position of the client's stream (hello, finished, request)
        for l, ver in itertools.product((SSL1, GNU), VERS):
            for kind, close, hi in (('three', False, 560), ('pup', False, 640)) if ctx.thorough else (('three', False, 560),):
                for p in range(1, hi):
                    yield l, ver, kind, close, ('cut', p), (), None
                if ctx.thorough:
                    for p in itertools.combinations(range(1, hi, 11), 2):
                        yield l, ver, kind, close, ('cut',) + p, (), None
            for n in (1, 2, 3, 7) if ctx.thorough else (1, 5):
                for kind in kinds if ctx.thorough else ('three', 'sup', 'big'):
                    yield l, ver, kind, False, ('every', n), (), None
            # cut of the request into records
            n = len(c10.KINDS['three'][0])
            for p in range(1, n, 1 if ctx.thorough else 3):
                yield l, ver, 'three', False, None, (), (p,)
        # what the kernel takes of the server's writes and gives to its reads
        W = (1, 3, 40, -11, -4) if ctx.thorough else (1, 40, -11)
        for l, ver in itertools.product((SSL1, GNU), VERS):
            for kind in ('three', 'big', 'pe', 'sup', 'huge') if ctx.thorough else ('three', 'big', 'pe'):
                for close in (True, False):
                    for late in (None, ('late',)):
                        for p in itertools.product(W, repeat=4 if ctx.thorough else 3):
                            yield l, ver, kind, close, late, ((0, 'w', list(p)),), None
                        for p in itertools.product(W, repeat=4 if ctx.thorough else 2):
                            yield l, ver, kind, close, late, ((0, 'r', list(p)),), None
                    for a, b in itertools.product((100, 5000, 20000), (-11, 7)):
                        yield l, ver, kind, close, ('late',), ((0, 'w', [a, b] * 20),), None
    return cases


# -- closes
def close_fn(sim, key, wd):
    """the client stops after n steps: nothing may be left, and only what would be executed on a plain connection is"""
    l, ver, kind, upto, how, drop = key
    rq, methods, bk = c10.KINDS[kind]
    data = rq[:upto] if upto is not None else b''
    seen = []
    for c in (Plain(sim, 0), None):
        if c is None:
            c = tls.Client(sim, 0, l, context=tls.context(ver))
            if drop is None:
                if not c.handshake():
                    return 'handshake failed', None
            else:      # stop in the handshake
                for _ in range(drop):
                    c.op(c.do)
                    c.flush()
                if how == 'x':
                    c.step(Script().close(0))
                elif how in 'ht':
                    c.step(Script().shut(0))
                else:
                    c.step(Script())
                r = sim.run(Script().advance(700).q().drain(0).q().send(0, b'x').q().send(0, b'x').q().raw())
                if how == '-' and not (r.eof.get(0) or r.rst.get(0) or c.eof or r.sendfail):
                    return 'unfinished handshake keeps its connection for 700 s', None
                if c.plain:
                    return 'data before the handshake', None
                return finish(sim, c), (how, drop)
        else:
            if drop is not None:
                sim.run(Script().reset(1.1).raw())
                continue
        if data:
            c.send(data)
        if how == 'x':
            c.step(Script().close(0))
        elif how == 'h':
            c.step(Script().shut(0))
        elif how == 'b':
            c.bye()
        elif how == 't' and c.__class__ is not Plain:
            c.bye()
            c.step(Script().shut(0))
        elif how == 't':
            c.step(Script().shut(0))
        r = sim.run(Script().q().drain(64).q().drain(0).raw())
        told = b''.join(x.data.get(64, b'') for x in c.other) + r.data.get(64, b'')
        seen.append((len([1 for x in c.other for _ in x.connects]) + len(r.connects), bool(r.eof.get(64) or any(x.eof.get(64) for x in c.other)), len(c10.backend_in(kind, told)) if 0 else complete(bk, told)))
        m = finish(sim, c)
        if m:
            return m, None
    if len(seen) == 2 and seen[0] != seen[1] and how != 'b':
        return 'plain: %r, TLS: %r (backend connections, connection to it closed, complete request told)' % tuple(seen), None
    if len(seen) == 2 and seen[1][2] and not seen[0][2]:
        return 'incomplete request executed over TLS: %r' % (seen,), None
    return None, (how, tuple(seen[-1]) if seen else None)


def complete(bk, told):
    if not bk or not told:
        return False
    if bk == 's':
        try:
            env, body = parse_scgi(told)
            return len(body) == int(dict(env).get('CONTENT_LENGTH', 0))
        except Exception:
            return False
    if bk == 'f':
        try:
            s, ok = c10.fcgi_in(told)
        except Exception:
            return False
        p = 0
        while p < len(told):       # end of stdin
            if told[p + 1] == 5 and told[p + 4:p + 6] == b'\0\0':
                return True
            i = int.from_bytes(told[p + 4:p + 6], 'big')
            p += 8 + i + told[p + 6]
        return False
    return told.endswith(b'0\r\n\r\n') or (b'content-length' not in told.lower() and told.endswith(b'\r\n\r\n') and b'chunked' not in told.lower())


def close_cases(ctx):
    def cases():
        for l, ver in itertools.product((SSL1, GNU), VERS):
            for drop in (0, 1, 2):
                for how in 'xh-':
                    yield l, ver, 'str', None, how, drop
            for kind in ('sup', 'fup', 'pup', 'p', 'str', 'huge') if ctx.thorough else ('sup', 'pup', 'huge'):
                n = len(c10.KINDS[kind][0])
                n0 = c10.KINDS[kind][0].index(b'GET /tail') if b'GET /tail' in c10.KINDS[kind][0] else n
                for p in sorted(set(list(range(0, n0, 1 if ctx.thorough else 23)) + [n0 - 1, n0, n])):
                    for how in 'xhbt':
                        yield l, ver, kind, p, how, None
    return cases


# -- corruption
def hello(ver, sni=None, cache={}):
    """ClientHello"""
    if (ver, sni) not in cache:
        import ssl
        i, o = ssl.MemoryBIO(), ssl.MemoryBIO()
        c = tls.context(ver).wrap_bio(i, o, server_hostname=sni)
        try:
            c.do_handshake()
        except ssl.SSLWantReadError:
            pass
        cache[(ver, sni)] = o.read()
    return cache[(ver, sni)]


def gone(sim, c):
    """after a while the server has given up the connection"""
    r = sim.run(Script().advance(700).q().drain(0).q().send(0, b'x').q().send(0, b'x').q().raw())
    if not (c.eof or c.rst or r.eof.get(0) or r.rst.get(0) or r.sendfail):
        return 'connection still open after 700 s'


def unprotected(d, p):
    """the version of a record, and the dummy change cipher spec of TLS 1.3"""
    q = 0
    while q < len(d):
        n = 5 + int.from_bytes(d[q + 3:q + 5], 'big')
        if q <= p < q + n:
            return p in (q + 1, q + 2) or p == q and d[q] == 23 or d[q] == 20
        q += n
    return False


def corrupt_fn(sim, key, wd):
    """flight f (0 hello, 1 finished and what follows, 2 request) has byte p changed by x"""
    l, ver, f, p, x = key
    state = {'n': -1, 'hit': False, 'free': False}

    def tr(pos, d):
        state['n'] += 1
        if state['n'] == f and p < len(d):
            state['hit'] = True
            state['free'] = unprotected(d, p)
            d = d[:p] + bytes([d[p] ^ x]) + d[p + 1:]
        return [d]

    c = tls.Client(sim, 0, l, sni='a.example', context=tls.context(ver), tr=tr)
    c.handshake()
    if c.up:
        c.send(c10.G('/p'))
    c.wait(1)
    if not state['hit'] or state['free']:
        return finish(sim, c), 'out of range'
    con = [x for r in c.other for x in r.connects]
    if con and not (f == 0):
        return 'request executed although byte %d of flight %d was changed' % (p, f), None
    if b'HTTP/1.' in c.wire and False:
        return 'plaintext on the wire', None
    if c.plain:
        return 'response %r although byte %d of flight %d was changed' % (short(c.plain), p, f), None
    if f < 2 and c.up and con:
        return 'request executed after a changed handshake', None
    m = gone(sim, c)
    return m or finish(sim, c), (f, c.up, c.err, c.eof)


def corrupt_cases(ctx):
    def cases():
        for l, ver in itertools.product((SSL1, GNU, GSNI) if ctx.thorough else (SSL1, GSNI), VERS):
            for f, n in ((0, 260), (1, 170), (2, 80)):
                for p in range(n):
                    for x in [1 << i for i in range(8)] + [0xff] if ctx.thorough else (1, 0x80):
                        yield l, ver, f, p, x
    return cases


# -- raw input instead of TLS
def sni_ext(b):
    return b'\0\0' + struct.pack('>H', len(b)) + b


def name(n, t=0, ln=None):
    return bytes([t]) + struct.pack('>H', len(n) if ln is None else ln) + n


def lst(b, ln=None):
    return struct.pack('>H', len(b) if ln is None else ln) + b


SNIS = {
    'one': lst(name(b'a.example')),
    'two': lst(name(b'a.example') + name(b'b.example')),
    'three': lst(name(b'x', 7) + name(b'b.example') + name(b'a.example')),
    'othertype': lst(name(b'b.example', 1)),
    'other first': lst(name(b'zzzz', 3) + name(b'b.example')),
    'empty list': lst(b''),
    'empty': b'',
    'one byte': b'\0',
    'empty name': lst(name(b'')),
    'empty names': lst(name(b'') * 3),
    'empty other': lst(name(b'', 3) + name(b'b.example')),
    'empty, then': lst(name(b'') + name(b'a.example')),
    'trailing': lst(name(b'a.example')) + b'xyz',
    'trailing in list': lst(name(b'a.example') + b'\0'),
    'trailing 2': lst(name(b'a.example') + b'\0\0'),
    'trailing 3': lst(name(b'a.example') + b'\0\0\0'),
    'name too long': lst(name(b'a.example', ln=500)),
    'name too short': lst(name(b'a.example', ln=3)),
    'list too long': lst(name(b'a.example'), ln=999),
    'list too short': lst(name(b'a.example'), ln=2),
    'nul': lst(name(b'a.example\0.b.example')),
    'utf8': lst(name('bücher.example'.encode())),
    'bad utf8': lst(name(b'\xff\xfe.example')),
    'bad utf8, then': lst(name(b'\xff\xfe.example') + name(b'b.example')),
    'long': lst(name(b'a' * 4000 + b'.example')),
    'label too long': lst(name(b'a' * 70 + b'.example')),
    'path': lst(name(b'../../tls/a')),
    'slash': lst(name(b'/etc/passwd')),
    'star': lst(name(b'*')),
    'dot': lst(name(b'a.example.')),
    'upper': lst(name(b'A.EXAMPLE')),
    'broken': lst(name(b'broken.example')),
}


def with_sni(h, body, first=True, recs=None):
    """the hello h without SNI, with this SNI extension"""
    hs = h[5:]
    b = hs[4:]
    p = 2 + 32
    p += 1 + b[p]
    p += 2 + int.from_bytes(b[p:p + 2], 'big')
    p += 1 + b[p]
    exts = b[p + 2:]
    if body is not None:
        exts = sni_ext(body) + exts if first else exts + sni_ext(body)
    b = b[:p] + struct.pack('>H', len(exts)) + exts
    hs = b'\x01' + len(b).to_bytes(3, 'big') + b
    if not recs:
        recs = [len(hs)]
    out = b''
    q = 0
    for n in recs + [len(hs)]:
        part = hs[q:q + n]
        q += n
        if part:
            out += h[:3] + struct.pack('>H', len(part)) + part
    return out


def certs_in(wire):
    return [n for n in ('srv', 'a', 'b', 'w') if tls.der(n) in wire]


def unrecord(wire):
    """handshake bytes of the server's records"""
    out = b''
    p = 0
    while p + 5 <= len(wire):
        n = int.from_bytes(wire[p + 3:p + 5], 'big')
        if wire[p] == 22:
            out += wire[p + 5:p + 5 + n]
        p += 5 + n
    return out


def raw_fn(sim, key, wd):
    l, what, segs, want, end = key
    c = Plain(sim, 0, listener=l)
    for s in segs:
        c.step(Script().send(0, s))
    if end:
        c.step(Script().shut(0) if end == 'h' else Script().close(0))
    else:
        c.wait(1)
    if b'HTTP/1.' in c.plain:
        return 'answered in plain text: %s' % short(c.plain), None
    got = certs_in(unrecord(c.plain))
    if want is not None and not end and got != want:
        return '%s: certificates %r instead of %r (%s)' % (what, got, want, short(c.plain)), None
    o = (what, len(c.plain) > 0, tuple(got))
    m = None if end else gone(sim, c)
    return m or finish(sim, c), o


def raw_cases(ctx):
    def cases():
        G = [b'GET /str HTTP/1.1\r\nHost: x\r\n\r\n', b'\0' * 40, b'\xff' * 70000, b'\x16', b'\x16\x03\x01\xff\xff' + b'a' * 100, b'\x16\x03\x01\0\0' * 20,
             b'\x15\x03\x01\0\x02\x02\x28', b'\x15\x03\x03\0\x02\x01\0', b'\x17\x03\x03\0\x05hello', b'\x80\x2e\x01\x03\x01' + b'\0' * 46, b'\x16\x03\x01\0\x04\x01\0\0\0', b'\x16\x03\x01\0\x04\x02\0\0\0',
             b'\x16\x03\x01\0\x04\x01\xff\xff\xff' + b'\x16\x03\x03\x40\0' + b'b' * 0x4000, b'\x14\x03\x03\0\x01\x01', b'\x18\x03\x03\0\x03\x01\x40\0']
        for l in (SSL1, GNU, GSNI, VREQ):
            for g in G:
                for end in (None, 'h', 'x'):
                    yield l, 'garbage', (g,), None, end
                    yield l, 'garbage', (g[:3], g[3:]), None, end
        h0 = hello('1.2', None)
        SN = {'one': ['a'], 'upper': None, 'broken': ['w'], 'dot': None}
        for n, body in SNIS.items():
            for first in (True, False):
                d = with_sni(h0, body, first)
                for end in (None, 'h', 'x'):
                    yield GSNI, 'sni ' + n, (d,), SN.get(n), end
                    yield GMANY, 'sni ' + n, (d,), ['a'] if n == 'one' else None, end
                    yield SSL1, 'sni ' + n, (d,), ['srv'] if n == 'one' else None, end
                if len(d) < 1000:
                    yield GSNI, 'sni %s bytes' % n, tuple(d[i:i + 1] for i in range(len(d))), SN.get(n), None
        # the hello in pieces and records
        for sni, want in (('a.example', ['a']), ('b.example', ['b']), ('c.example', ['w']), (None, ['srv'])):
            d = with_sni(h0, lst(name(sni.encode())) if sni else None, True)
            for i in range(1, len(d), 1 if ctx.thorough else 2):
                yield GSNI, 'cut', (d[:i], d[i:]), want, None
                yield GSNI, 'truncated', (d[:i],), [], (None, 'h', 'x')[i % 3]
                yield SSL1, 'truncated', (d[:i],), [], (None, 'h', 'x')[i % 3]
            for i in range(1, len(d) - 5, 1 if ctx.thorough else 3):
                r = with_sni(h0, lst(name(sni.encode())) if sni else None, True, [i])
                yield GSNI, 'records', (r,), want, None
                yield GSNI, 'records2', (r[:5 + i], r[5 + i:]), want, None
                yield SSL1, 'records', (r,), ['srv'], None
            yield GSNI, 'byte records', (with_sni(h0, lst(name(sni.encode())) if sni else None, False, [1] * len(d)),), want if 0 else None, None
    return cases


# -- certificates by name
def names_fn(sim, key, wd):
    l, ver, sni, want = key
    c = tls.Client(sim, 0, l, sni=sni, context=tls.context(ver))
    if not c.handshake():
        return 'handshake failed: %s' % c.err, None
    if want and c.cert() != tls.der(want):
        return 'name %r: certificate %r instead of %s' % (sni, [n for n in ('srv', 'a', 'b', 'w') if tls.der(n) == c.cert()], want), None
    c.send(c10.G('/str'))
    if b'hello world' not in c.plain:
        return 'no response', None
    return finish(sim, c), (l, sni)


def names_cases():
    for ver in VERS:
        for sni, many, db in ((None, 'srv', 'srv'), ('a.example', 'a', 'a'), ('b.example', 'b', 'b'), ('srv.example', 'srv', 'w'), ('c.example', None, 'w'),
                              ('x.w.example', None, 'w'), ('w.example', 'w', 'w'), ('bücher.example', None, 'a'), ('broken.example', None, 'w'), ('nope', None, 'w')):
            yield GMANY, ver, sni, many
            yield GSNI, ver, sni, db
            yield SSL1, ver, sni, 'srv'
            yield GNU, ver, sni, None if sni else 'srv'


# -- client certificates
OKS = {   # listener: {client certificate: CN seen, or None if refused}
    SSL1: {None: '', 'cli': '', 'cli2': '', 'self': ''},
    VPEER: {None: '', 'cli': 'client one', 'cli2': None, 'self': None, 'cliexp': None, 'cli3': 'client deep'},
    VREQ: {None: None, 'cli': 'client one', 'cli2': None, 'self': None, 'cliexp': None, 'cli3': 'client deep'},
    VANY: {None: None, 'cli': 'client one', 'cli2': 'client other', 'self': 'client self', 'cli3': 'client deep'},
    VDEEP: {None: None, 'cli': 'client one', 'cli2': None, 'self': None, 'cliexp': None, 'cli3': None},
}
SPOOF = [('Ssl-Client-S-Dn-Cn', 'client one'), ('SSL_CLIENT_S_DN_CN', 'client one')]


def cert_fn(sim, key, wd):
    l, ver, cert, tr, resume = key
    want = OKS[l][cert]
    ctxt = tls.context(ver, cert)
    sess = None
    for rnd in range(1 + resume):
        c = tls.Client(sim, rnd, l, context=ctxt, tr=tls.every(tr) if tr else None, session=sess, port=40000 + rnd)
        c.handshake()
        if c.up:
            c.send(c10.G('/who', SPOOF))
            c.wait(1)
            c.send(c10.G('/p', SPOOF))
        got = None
        con = [x for r in c.other for x in r.connects]
        if b'\r\n\r\n' in c.plain:
            got = c.plain.split(b'\r\n\r\n', 1)[1]
        if want is None:
            if got or con:
                return 'certificate %s, round %d: request executed: %r %r' % (cert, rnd, got, con), None
            m = None
            r = sim.run(Script().advance(700).q().drain(rnd).raw())
            if not (c.eof or c.rst or r.eof.get(rnd)):
                return 'refused client is kept connected', None
        else:
            if got is None or not got.startswith(b'<%s> https' % want.encode()):
                return 'certificate %s, round %d: %r instead of %r (handshake %s %s)' % (cert, rnd, got, want, c.up, c.err), None
            if not con:
                return 'second request not executed', None
        if resume and c.up and want is not None:
            c.wait(1)
            sess = c.o.session
            if rnd and not c.o.session_reused and l in (VREQ, VANY, VPEER, SSL1) and False:
                return 'session not reused', None
    return finish(sim, c), (l, cert, want, c.err)


def cert_cases():
    for l, m in OKS.items():
        for cert in m:
            for ver in VERS:
                for tr in (None, 1, 50):
                    for resume in (0, 1):
                        yield l, ver, cert, tr, resume


def resume_fn(sim, key, wd):
    """a session of one listener offered to another one"""
    l1, l2, ver, c1, c2, nt = key
    a = tls.Client(sim, 0, l1, context=tls.context(ver, c1, noticket=nt), sni='a.example')
    if not a.handshake():
        return 'handshake failed: %s' % a.err, None
    a.send(c10.G('/who'))
    a.wait(1)
    ctxt = tls.context(ver, c1, noticket=nt)
    b = tls.Client(sim, 1, l2, context=ctxt, session=a.o.session, port=40001, sni='a.example')
    b.handshake()
    if b.up:
        b.send(c10.G('/who'))
        b.wait(1)
    want = OKS[l2][c1] if l2 in OKS else ''
    got = b.plain.split(b'\r\n\r\n', 1)[1] if b'\r\n\r\n' in b.plain else None
    if want is None and got is not None:
        return 'session of listener %d lets a client without acceptable certificate into listener %d: %r' % (l1, l2, got), None
    if want is not None and (got is None or not got.startswith(b'<%s> https' % want.encode())):
        if l1 == l2 or b.up:
            return 'with a session: %r instead of %r (%s)' % (got, want, b.err), None
    return finish(sim, b), (l1, l2, b.up, bool(b.up and b.o.session_reused))


def resume_cases():
    for ver in VERS:
        for nt in (False, True):
            for c1 in (None, 'cli', 'cli2', 'self'):
                for l1 in (SSL1, GNU, VPEER, VREQ, VANY, GDB):
                    if OKS.get(l1, {}).get(c1, '') is None:
                        continue
                    for l2 in (SSL1, GNU, VPEER, VREQ, VANY, VDEEP, GDB):
                        yield l1, l2, ver, c1, None, nt


# -- the backend breaks
def break_fn(sim, key, wd):
    """a response without length that is cut off is not ended with close_notify"""
    l, ver, path, n, how = key
    c = tls.Client(sim, 0, l, context=tls.context(ver))
    if not c.handshake():
        return 'handshake failed', None
    c.send(req('GET', '/p', version='1.0'))
    full = {'chunked': b'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n1a\r\nabcdefghijklmnopqrstuvwxyz\r\n1\r\n!\r\n0\r\n\r\n',
            'length': b'HTTP/1.1 200 OK\r\nContent-Length: 27\r\n\r\nabcdefghijklmnopqrstuvwxyz!'}[path]
    c.step(Script().send(64, full[:n]))
    c.read()
    c.step(Script().close(64) if how == 'x' else Script().shut(64))
    c.read()
    c.wait(3)
    body = c.plain.partition(b'\r\n\r\n')[2]
    done = n >= len(full)
    st = c.plain[:12]
    if done:
        if not (c.eof and c.notify and body == b'abcdefghijklmnopqrstuvwxyz!'):
            return 'complete response: %s eof %s close_notify %s %s' % (short(c.plain, 400), c.eof, c.notify, c.err), None
    elif st.endswith(b'200') and c.notify and not complete10(c.plain, 27):
        return 'response cut off after %d bytes of the backend ends with close_notify: %s' % (n, short(c.plain, 400)), None
    elif st.endswith(b'200') and not c.eof:
        return 'response cut off, connection stays open', None
    return finish(sim, c), (done, c.eof, c.notify, st)


def complete10(d, n):
    h, s, b = d.partition(b'\r\n\r\n')
    return b'content-length' in h.lower() and False or len(b) >= n


def break_cases():
    for l, ver in itertools.product((SSL1, GNU), VERS):
        for path, n in (('chunked', 90), ('length', 65)):
            for i in range(1, n + 1):
                for how in 'xh':
                    yield l, ver, path, i, how


# -- two connections
def two_fn(sim, key, wd):
    l1, l2, ver, order = key
    cs = []
    todo = []
    for i, l in ((0, l1), (1, l2)):
        def steps(i=i, l=l):
            c = tls.Client(sim, i, l, context=tls.context(ver), sni='ab'[i] + '.example', port=40000 + i)
            cs.append((i, c))
            yield
            c.op(c.do)
            c.flush()
            yield
            c.handshake()
            yield
            c.send(c10.G('/str' if i else '/small', [('X', 'y')]))
            yield
            c.send(c10.G('/small' if i else '/str', [('Connection', 'close')]))
            c.wait(1)
        todo.append(steps())
    for o in order:
        next(todo[o], None)
    for i, c in cs:
        c.wait(1)
        rs, left = parse_responses(c.plain, c.eof, ['GET', 'GET'])
        b = [x.body for x in rs]
        w = [c10.SMALL, b'hello world, this is a response']
        if i:
            w.reverse()
        if b != w or not c.notify or not c.eof:
            return 'connection %d: %r instead of %r (close_notify %s, closed %s, %s)' % (i, b, w, c.notify, c.eof, c.err), None
    return finish(sim, None), order


def two_cases(ctx):
    def cases():
        for l1, l2 in ((SSL1, SSL1), (GSNI, GSNI), (SSL1, GNU)):
            for ver in VERS if ctx.thorough else ('1.3',):
                for pos in itertools.combinations(range(10), 5):
                    yield l1, l2, ver, tuple(0 if i in pos else 1 for i in range(10))
    return cases


def run(ctx):
    ctx.assumptions += ['TLS libraries (OpenSSL, GnuTLS) are linked as installed; their random numbers are not controlled, observations are of the decrypted stream',
                        'client: OpenSSL of Python driven step by step']
    ctx.rules.append('the oracle of every exchange is the same exchange on a plain connection of the same server')
    for group, cases, fn in (('exchange', eq_cases(ctx), eq), ('closes', close_cases(ctx), close_fn), ('corruption', corrupt_cases(ctx), corrupt_fn),
                             ('raw input', raw_cases(ctx), raw_fn), ('names', names_cases, names_fn), ('client certificates', cert_cases, cert_fn),
                             ('sessions', resume_cases, resume_fn), ('broken responses', break_cases, break_fn), ('two connections', two_cases(ctx), two_fn)):
        if os.environ.get('C35_ONLY') and os.environ['C35_ONLY'] != group:
            continue
        ctx.drive(group, mkconf, cases, fn, setup=setup)
