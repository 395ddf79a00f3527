"""C10: what is sent and received does not depend on how the kernel cuts, interrupts or breaks reads and writes"""
import itertools, re
from h import *

SMALL = b'0123456789abcdefghij'
BIG = b''.join(b'%07d\n' % i for i in range(5000))          # 40000 bytes
HUGE = b''.join(b'%07d\n' % i for i in range(100000))       # 800000 bytes
GROW = 50000


def mkconf(wd):
    return conf('''
if req.path == "/str" { respond 200 => "hello world, this is a response"; }
else if req.path == "/tail" { respond 200 => "tail"; }
else if req.path == "/p" { proxy "unix:/p"; }
else if req.path == "/s" { scgi "unix:/s"; }
else if req.path == "/f" { fastcgi "unix:/f"; }
else if req.path =^ "/df" { docroot "%s/root"; static; deflate; }
else { docroot "%s/root"; static; }
''' % (wd, wd), ['mod_scgi', 'mod_fastcgi', 'mod_proxy', 'mod_deflate'], setup='mime_types [".txt" => "text/plain"]; etag.use [["mtime"]];')


def setup(wd):
    os.makedirs(wd + '/root', exist_ok=True)
    for n, d in (('small', SMALL), ('big', BIG), ('huge', HUGE), ('e', b''), ('df.txt', BIG[:4000])):
        with open(wd + '/root/' + n, 'wb') as f:
            f.write(d)


def rec(t, data=b'', pad=0, rid=1):
    return bytes((1, t)) + struct.pack('>HHBB', rid, len(data), pad, 0) + data + b'P' * pad


G = lambda p, *a, **k: req('GET', p, *a, **k)
RB = b'response body of the backend'
BK = {   # backend answers: list of segments, closing
    'p': ([b'HTTP/1.1 200 OK\r\nContent-Length: %d\r\nX-A: b\r\n\r\n' % len(RB) + RB[:5], RB[5:]], False),
    'pc': ([b'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n5\r\n' + RB[:5] + b'\r\n', b'%x\r\n' % len(RB[5:]) + RB[5:] + b'\r\n0\r\n\r\n'], False),
    'pe': ([b'HTTP/1.0 200 OK\r\nX-A: b\r\n\r\n' + RB[:5], RB[5:]], True),
    's': ([b'Status: 200\r\nX-A: b\r\n\r\n' + RB[:5], RB[5:]], True),
    'f': ([rec(6, b'X-A: b\r\n\r\n' + RB[:5], 3) + rec(7, b'err\n'), rec(6, RB[5:]) + rec(6) + rec(3, b'\0' * 8)], False),
}
UP = b''.join(b'%05d\n' % i for i in range(20))
# client request data, methods, backend (None: none)
KINDS = {
    'str': (G('/str'), ['GET'], None),
    'three': (G('/str') + G('/small') + G('/str', [('Connection', 'close')]), ['GET'] * 3, None),
    'small': (G('/small'), ['GET'], None),
    'empty': (G('/e') + G('/tail'), ['GET'] * 2, None),
    'big': (G('/big') + G('/tail'), ['GET'] * 2, None),
    'huge': (G('/huge') + G('/tail'), ['GET'] * 2, None),
    'range': (G('/big', [('Range', 'bytes=39000-')]) + G('/tail'), ['GET'] * 2, None),
    'ranges': (G('/big', [('Range', 'bytes=0-9,100-120,39990-39999')]) + G('/tail'), ['GET'] * 2, None),
    'head': (req('HEAD', '/big') + G('/small'), ['HEAD', 'GET'], None),
    'err': (G('/nonono') + G('/small'), ['GET'] * 2, None),
    'deflate': (G('/df.txt', [('Accept-Encoding', 'gzip')]) + G('/tail'), ['GET'] * 2, None),
    'old': (G('/big', version='1.0'), ['GET'], None),
    'p': (G('/p') + G('/small'), ['GET'] * 2, 'p'),
    'pc': (G('/p') + G('/tail'), ['GET'] * 2, 'pc'),
    'pe': (G('/p') + G('/tail'), ['GET'] * 2, 'pe'),
    's': (G('/s') + G('/tail'), ['GET'] * 2, 's'),
    'f': (G('/f') + G('/tail'), ['GET'] * 2, 'f'),
    'sup': (req('POST', '/s', [('Content-Length', str(len(UP)))], UP) + G('/tail'), ['POST', 'GET'], 's'),
    'pup': (req('POST', '/p', [('Transfer-Encoding', 'chunked')], chunked(UP, [1, 60, 59])) + G('/tail'), ['POST', 'GET'], 'p'),
    'fup': (req('POST', '/f', [('Content-Length', str(len(UP)))], UP) + G('/tail'), ['POST', 'GET'], 'f'),
}


def one(sc, k, b, kind, plans):
    """request of this kind on connection k; b: slot of its backend"""
    rq, methods, bk = KINDS[kind]
    for s, w, p in plans:
        if s:
            sc.plan(b, w, p)
    sc.connect(k)
    for s, w, p in plans:
        if not s:
            sc.plan(k, w, p)
    sc.send(k, rq).q().drain(k)
    if bk:
        segs, close = BK[bk]
        sc.q().drain(b)
        for s in segs:
            sc.send(b, s).q().drain(k)
        if close:
            sc.close(b)
        sc.q()
    for _ in range(8 if kind == 'huge' else 2):
        sc.drain(k).q()
    return sc.drain(k)


def script(kind, plans):
    sc = Script()
    n = 1 if KINDS[kind][2] else 0
    one(sc, 0, 64, kind, [])
    one(sc, 1, 64 + n, kind, plans)
    for s, w, p in plans:
        sc.plan_left(64 + n if s else 1, w)
    sc.connect(2, port=40002).send(2, G('/tail')).q().drain(2)
    return sc.reset()


def resps(kind, data, eof):
    m = list(KINDS[kind][1])
    return parse_responses(data, eof, m)


def canon(kind, data, eof):
    """responses without the framing chosen by the server for streams"""
    rs, left = resps(kind, data, eof)
    return [(x.status, sorted((k.lower(), v) for k, v in x.headers), x.body, x.framing, x.complete) for x in rs], left


def fcgi_in(d):
    """stdin and params streams of a FastCGI request"""
    out = {}
    p = 0
    while p < len(d):
        t = d[p + 1]
        i, l, pad = struct.unpack_from('>HHB', d, p + 2)
        out[t] = out.get(t, b'') + d[p + 8:p + 8 + l]
        p += 8 + l + pad
    return out, p == len(d)


def backend_in(kind, d):
    """what the backend was told, without the framing"""
    b = KINDS[kind][2]
    if b == 'f':
        return fcgi_in(d)
    if b[0] == 'p' and kind == 'pup':
        h, s, body = d.partition(b'\r\n\r\n')
        if b'chunked' in h.lower():
            o = b''
            while body:
                n, c, rest = body.partition(b'\r\n')
                n = int(n, 16)
                o += rest[:n]
                body = rest[n + 2:]
            return h, o
    return d


def judge(key, r):
    kind, plans = key
    n = 1 if KINDS[kind][2] else 0
    for k in (0, 1):
        r.data[k] = re.sub(rb'\r\nDate: [^\r]{29}(?=\r)', b'\r\nDate: Tue, 14 Nov 2023 00:00:00 GMT', r.data.get(k, b''))
    ref, got = r.data[0], r.data[1]
    if r.leak != [0]:
        return '%r sockets stay open in the server after all peers are gone' % r.leak
    x, e = bodies(r, 2, ['GET'])
    if e or len(x[0]) != 1 or x[0][0].body != b'tail':
        return 'another connection got %s' % short(r.data.get(2))
    try:
        want = canon(kind, ref, r.eof.get(0))
    except Bad as e:
        return 'unparsable response without any fault: %s' % e
    if want[1] or len(want[0]) != len(KINDS[kind][1]):
        return 'not all answers without any fault: %s' % short(ref, 400)
    fatal = [(s, v) for s, w, p in plans for v in p if v < 0 and v not in (-EAGAIN, -EINTR, -EINVAL)]
    closed = r.eof.get(1) or r.rst.get(1)
    stream = n and kind in ('pc', 'pe', 's', 'f', 'sup', 'fup', 'pup', 'p')
    if not fatal:
        if not stream:
            if got != ref:
                i = next((i for i in range(min(len(got), len(ref))) if got[i] != ref[i]), min(len(got), len(ref)))
                return 'sent %d bytes instead of %d, first difference at %d: %s instead of %s' % (len(got), len(ref), i, short(got[i:i + 80]), short(ref[i:i + 80]))
        else:
            try:
                have = canon(kind, got, r.eof.get(1))
            except Bad as e:
                return 'unparsable answer: %s in %s' % (e, short(got, 400))
            if have != want:
                return 'answers %s instead of %s' % (short(repr(have), 400), short(repr(want), 400))
        if bool(closed) != bool(r.eof.get(0)):
            return 'connection %s, but %s without faults' % ('closed' if closed else 'open', 'closed' if r.eof.get(0) else 'open')
        if n:
            a, b = backend_in(kind, r.data.get(64, b'')), backend_in(kind, r.data.get(65, b''))
            if a != b:
                return 'the backend got %s instead of %s' % (short(repr(b), 400), short(repr(a), 400))
        return None
    # the connection broke: a prefix, then nothing
    side = fatal[0][0]
    cut = re.search(rb'\r\nDate: [^\r]*$', got)
    if cut:
        got = got[:cut.start()]
    if side == 0:
        if not closed and all(v == 0 for v in r.planleft.values()):
            return 'the connection stays open after a fatal error'
        if not stream:
            if not ref.startswith(got):
                return 'sent %s before the error, not a prefix of %s' % (short(got, 300), short(ref, 300))
        else:
            # framing of streams may differ: compare what can be parsed
            h = got.split(b'\r\n\r\n')[0]
            if len(got) > 20 and not got.startswith(b'HTTP/1.1 200') and not ref.startswith(got):
                return 'sent %s before the error' % short(got)
            try:
                have, left = resps(kind, got, True)
                full = resps(kind, ref, r.eof.get(0))[0]
                for a, b in zip(have, full):
                    if a.complete and a.framing != 'close' and (a.status, a.body) != (b.status, b.body):
                        return 'complete answer %r %s before the error instead of %r' % (a, short(a.body), b)
                    if not (b.body or b'').startswith(a.body or b''):
                        return 'sent %s before the error, not a prefix of %s' % (short(a.body), short(b.body))
            except Bad:
                pass
        if n:
            a, b = backend_in(kind, r.data.get(64, b'')), r.data.get(65, b'')
            if kind not in ('pup', 'f', 'fup') and not r.data.get(64, b'').startswith(b):
                return 'the backend got %s, not a prefix of %s' % (short(b, 300), short(r.data.get(64), 300))
        return None
    # the connection to the backend broke: never a complete other answer with status 200
    if all(v == 0 for v in r.planleft.values()):
        try:
            have, left = resps(kind, got, closed)
        except Bad as e:
            if closed:
                return None
            return 'unparsable answer on an open connection: %s %s' % (e, short(got, 300))
        full = resps(kind, ref, r.eof.get(0))[0]
        if not have:
            return None if closed else 'no answer after the backend connection broke'
        a, b = have[0], full[0]
        if kind in ('pe', 's', 'sup') and fatal[0][1] in (-ECONNRESET, -ETIMEDOUT):
            return None if b.body.startswith(a.body) or a.status != 200 else 'answer %s is not a prefix of %s' % (short(a.body), short(b.body))     # the end of such answers is the end of the connection
        if a.complete and a.status == 200 and a.framing != 'close' and a.body != b.body:
            return 'complete answer %s after the backend connection broke instead of %s' % (short(a.body), short(b.body))
        if a.status == 200 and not b.body.startswith(a.body):
            return 'answer %s is not a prefix of %s' % (short(a.body), short(b.body))
        if not a.complete and not closed:
            return 'client waits for the rest of a broken answer'
    return None


W = (1, 7, 4000, -EAGAIN, -EINTR)
RW = (1, 5, 60, -EAGAIN, -EINTR)
FATAL_W = (-EPIPE, -ECONNRESET, -ETIMEDOUT, -EIO)
FATAL_R = (-ECONNRESET, -ETIMEDOUT, -EIO)


def seqs(al, n):
    for l in range(1, n + 1):
        yield from itertools.product(al, repeat=l)


def run(ctx):
    th = ctx.thorough
    n = 6 if th else 4
    def X(g, cases, j=judge, **k):
        ctx.explore(g, mkconf, cases, j, setup=setup, **k)

    def wr():
        for kind in KINDS:
            for p in seqs(W, n - 1 if kind in ('huge',) else n):
                yield (kind, ((0, 'w', p),)), script(kind, [(0, 'w', p)])
            for p in itertools.chain([()], seqs((1, 7, 4000, -EAGAIN), n - 1)):
                for f in FATAL_W:
                    yield (kind, ((0, 'w', p + (f,)),)), script(kind, [(0, 'w', p + (f,))])
            # everything byte by byte, and a failure after each byte
            for v in (1, 2, 3, 13):
                yield (kind, ((0, 'w', (v,) * 250),)), script(kind, [(0, 'w', (v,) * 250)])
            for i in range(0, 250, 1 if th else 7):
                for f in (-EAGAIN, -ECONNRESET):
                    p = (1,) * i + (f,)
                    yield (kind, ((0, 'w', p),)), script(kind, [(0, 'w', p)])
    X('what is written to a client', wr, batch=24)

    def sf():
        for kind in ('small', 'big', 'huge', 'range', 'ranges', 'three', 'old', 'err'):
            m = n - 1 if kind == 'huge' else n
            for p in seqs((1, 4000, 16384, -EAGAIN, -EINTR, -EINVAL), m):
                yield (kind, ((0, 's', p),)), script(kind, [(0, 's', p)])
            for p in itertools.chain([()], seqs((1, 4000, -EAGAIN, -EINVAL), m - 1)):
                for f in FATAL_W:
                    yield (kind, ((0, 's', p + (f,)),)), script(kind, [(0, 's', p + (f,))])
            for a in seqs((1, -EAGAIN, -EINTR, 20000), 2 if not th else 3):
                for b in seqs((1, 4000, -EAGAIN, -EINVAL), 2 if not th else 3):
                    yield (kind, ((0, 'w', a), (0, 's', b))), script(kind, [(0, 'w', a), (0, 's', b)])
            for c in (1, 30):
                p = (-EINVAL,) * 100
                yield (kind, ((0, 'w', (c,) * 200), (0, 's', p))), script(kind, [(0, 'w', (c,) * 200), (0, 's', p)])
    X('files: sendfile and its fallback', sf, batch=24)

    def rd():
        for kind in KINDS:
            if kind == 'huge':
                continue
            for p in seqs(RW, n):
                yield (kind, ((0, 'r', p),)), script(kind, [(0, 'r', p)])
            for p in itertools.chain([()], seqs((1, 5, 60, -EAGAIN), n - 1)):
                for f in FATAL_R:
                    yield (kind, ((0, 'r', p + (f,)),)), script(kind, [(0, 'r', p + (f,))])
            for v in (1, 2, 3, 13):
                yield (kind, ((0, 'r', (v,) * 250),)), script(kind, [(0, 'r', (v,) * 250)])
            for i in range(0, 120, 1 if th else 7):
                for f in (-EAGAIN, -ECONNRESET):
                    p = (1,) * i + (f,)
                    yield (kind, ((0, 'r', p),)), script(kind, [(0, 'r', p)])
    X('what is read from a client', rd, batch=24)

    def bk():
        for kind in KINDS:
            if not KINDS[kind][2]:
                continue
            for w, al, fa in (('r', RW, FATAL_R), ('w', W, FATAL_W)):
                for p in seqs(al, n):
                    yield (kind, ((1, w, p),)), script(kind, [(1, w, p)])
                for p in itertools.chain([()], seqs(al[:4], n - 1)):
                    for f in fa:
                        yield (kind, ((1, w, p + (f,)),)), script(kind, [(1, w, p + (f,))])
                for v in (1, 2, 3, 13):
                    yield (kind, ((1, w, (v,) * 250),)), script(kind, [(1, w, (v,) * 250)])
                for i in range(0, 120, 1 if th else 7):
                    for f in (-EAGAIN, -ECONNRESET):
                        p = (1,) * i + (f,)
                        yield (kind, ((1, w, p),)), script(kind, [(1, w, p)])
            for a in seqs((1, 5, -EAGAIN), 2 if not th else 3):
                for b in seqs((1, 7, -EAGAIN), 2):
                    pl = [(1, 'r', a), (0, 'w', b)]
                    yield (kind, tuple(pl)), script(kind, pl)
                    pl = [(0, 'r', a), (1, 'w', b)]
                    yield (kind, tuple(pl)), script(kind, pl)
    X('what is exchanged with backends', bk, batch=24)

    # ---- the file changes its size while it is sent to a client which does not read
    def fc():
        for kind in ('grown', 'shrunk'):
            for sizes in itertools.product((0, 100, 300000, 799999, 800000, 900000), repeat=2 if th else 1):
                for rg in (None, 'bytes=700000-', 'bytes=0-9,700000-799999'):
                    for p in ((), (-EINVAL,) * 30, (-EINTR, 1), (100000,) * 3):
                        for at in range(3):
                            yield (sizes, rg, len(p), p[:1], at), fscript(sizes, rg, p, at)
    def fscript(sizes, rg, p, at):
        sc = Script().fsop('t', 'root/huge', '800000').connect(0)
        if p:
            sc.plan(0, 's', p)
        if at == 0:
            sc.plan(0, 'w', (-EAGAIN,))
        sc.send(0, G('/huge', [('Range', rg)] if rg else []) + G('/tail')).q()
        for i in range(at):
            sc.drain(0).q()
        for s in sizes:
            sc.fsop('t', 'root/huge', str(s)).q().drain(0).q()
        for i in range(10):
            sc.drain(0).q()
        return sc.drain(0).connect(1, port=40001).send(1, G('/tail')).q().drain(1).reset().fsop('w', 'root/huge', '').fsop('t', 'root/huge', '800000').advance(12).q()
    def jf(key, r):
        sizes, rg, np, p, at = key
        d = r.data.get(0, b'')
        x, e = bodies(r, 1, ['GET'])
        if e or len(x[0]) != 1 or x[0][0].body != b'tail':
            return 'another connection got %s' % short(r.data.get(1))
        if r.leak != [0]:
            return '%r sockets stay open' % r.leak
        try:
            rs, left = parse_responses(d, r.eof.get(0), ['GET', 'GET'])
        except Bad as e:
            return 'unparsable: %s' % e
        if not rs:
            return 'no answer'
        full = rg is None
        a = rs[0]
        if a.status not in (200, 206):
            return 'status %d' % a.status
        want = int(a.one('content-length'))
        if full and want != 800000:
            return 'announced %d bytes' % want
        if len(a.body) > want or (a.complete and len(a.body) != want):
            return 'sent %d of %d bytes' % (len(a.body), want)
        if not a.complete:
            if min(sizes) >= 800000:
                return 'answer broken off after %d bytes although the file did not shrink' % len(a.body)
            if not (r.eof.get(0) or r.rst.get(0)):
                return 'client waits for %d bytes which are gone' % (want - len(a.body))
        elif len(rs) != 2 or rs[1].body != b'tail':
            return 'following request: %r' % rs[1:]
        return None
    X('files changing their size while sent', fc, jf, batch=8)

    # ---- the connection ends with the response, but the client still sends
    LREQ = {'str': (G('/str', [('Connection', 'close')]), 'GET'), 'big': (G('/big', [('Connection', 'close')]), 'GET'), 'old': (G('/small', version='1.0'), 'GET'),
            'err': (G('/nonono', [('Connection', 'close')]), 'GET'), 'body': (req('POST', '/str', [('Content-Length', '9000000')]), 'POST'), 'bad': (b'GET / / HTTP/1.1\r\n\r\n', 'GET'),
            'p': (G('/p', [('Connection', 'close')]), 'GET')}

    def late():
        for n, (rq, m) in LREQ.items():
            for p in ((), (100, -EAGAIN) * 3, (-EAGAIN,)):
                for l in range(1, 4 if th else 3):
                    for ex in itertools.product(((0, 1), (0, 3000), (0.5, 100000), (4, 2000), (2.5, 1)), repeat=l):
                        if sum(d for d, x in ex) > 9:
                            continue
                        for end in ('', 'shut', 'close'):
                            sc = Script().connect(0)
                            if p:
                                sc.plan(0, 'w', p).plan(0, 's', p)
                            sc.send(0, rq).q().drain(0).q()
                            if n == 'p':
                                sc.drain(64).q().send(64, b'HTTP/1.1 200 OK\r\nContent-Length: 4\r\n\r\nbody').q()
                            for d, x in ex:
                                if d:
                                    sc.drain(0).advance(d).q()
                                sc.send(0, b'x' * x).q()
                            sc.drain(0).q().drain(0).q()
                            if end == 'shut':
                                sc.shut(0).q()
                            elif end == 'close':
                                sc.close(0).q()
                            else:
                                sc.advance(13).q().send(0, b'x').q().send(0, b'x').q()
                            yield (n, len(p), ex, end), sc.reset()

    def jl(key, r):
        n, p, ex, end = key
        if r.leak != [0]:
            return '%r sockets stay open' % r.leak
        try:
            rs, left = parse_responses(r.data.get(0, b''), r.eof.get(0), [LREQ[n][1]] * 4)
        except Bad as e:
            return 'unparsable: %s' % e
        want = {'str': b'hello world, this is a response', 'big': BIG, 'old': SMALL, 'body': b'hello world, this is a response', 'p': b'body'}
        if len(rs) != 1 or left or not rs[0].complete or n in want and rs[0].body != want[n]:
            return 'answer %r %s' % (rs, short(r.data.get(0, b'')))
        if not r.eof.get(0):
            return 'the connection is not closed'
        late = 2 if not end else 0
        if r.rst.get(0) or len(r.sendfail) > late:
            return 'the connection is reset while the client still sends (%d failed sends): a network would lose the answer' % len(r.sendfail)
        if len(r.sendfail) < late:
            return 'the server waits for the client to close for more than 13 seconds'
        return None
    X('the client sends on after the last response', late, jl, batch=16)

    ctx.rules += ['results of reads, writes and sendfile on client and backend connections, short, EINTR, EAGAIN, EINVAL (sendfile) and fatal errors, all sequences up to %d' % n,
                  'files truncated and extended while they are sent', 'data the client sends after the last response, up to %d pieces' % (3 if th else 2)]
