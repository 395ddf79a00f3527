"""C01: request framing on a connection is a function of the byte stream only"""
from h import *

ECHO = '''
if req.path == "/scgi" { scgi "unix:/scgi"; }
else { respond 200 => "%{req.method}|%{req.host}|%{req.path}|%{req.query}|%{req.header[X-A]}|"; }
'''
CONF = conf(ECHO, ['mod_scgi'])
SMUG = b'GET /evil HTTP/1.1\r\nHost: evil\r\n\r\n'


class M:
    def __init__(s, name, raw, expect, method='GET', close=False, body=0, scgi=None, interim=0, head=None):
        s.name, s.raw, s.expect, s.method, s.close, s.scgi, s.interim = name, raw, expect, method, close, scgi, interim
        s.hl = raw.index(b'\n\r\n') + 3 if b'\n\r\n' in raw else raw.index(b'\n\n') + 2   # end of the header


def e(method, path, query='', host='x', xa=''):
    return ('%s|%s|%s|%s|%s|' % (method, host, path, query, xa)).encode('latin-1')


def menu():
    m = [
        M('get', req('GET', '/a'), e('GET', '/a')),
        M('get-query', req('GET', '/b?q=1&r=%20', host='HOST.x'), e('GET', '/b', 'q=1&r=%20', 'host.x')),
        M('get-hdr', req('GET', '/c', [('X-A', 'v: w,"q\\"uot"')]), e('GET', '/c', xa='v: w,"q\\"uot"')),
        M('get-lf', req('GET', '/lf', [('X-A', 'y')], eol='\n'), e('GET', '/lf', xa='y')),
        M('get-crlf-before', b'\r\n\r\n' + req('GET', '/cr'), e('GET', '/cr')),
        M('get-fold', b'GET /f HTTP/1.1\r\nHost: x\r\nX-A: a\r\n b\r\n\r\n', e('GET', '/f', xa='a b')),
        M('get-cl0', req('GET', '/cl0', [('Content-Length', '0')]), e('GET', '/cl0')),
        M('head', req('HEAD', '/h'), b'', 'HEAD'),
        M('get-1.0', req('GET', '/v0', version='1.0'), e('GET', '/v0'), close=True),
        M('get-1.0-ka', req('GET', '/v0', [('Connection', 'keep-alive')], version='1.0'), e('GET', '/v0')),
        M('get-close', req('GET', '/cc', [('Connection', 'close')]), e('GET', '/cc'), close=True),
        M('get-abs', b'GET http://abs:81/p?q HTTP/1.1\r\nHost: x\r\n\r\n', e('GET', '/p', 'q', 'abs')),
        M('options', b'OPTIONS * HTTP/1.1\r\nHost: x\r\n\r\n', e('OPTIONS', '/*'), 'OPTIONS'),
        M('post-cl', req('POST', '/p', [('Content-Length', str(len(SMUG)))], SMUG), e('POST', '/p'), 'POST'),
        M('post-cl0', req('POST', '/p0', [('Content-Length', '0')]), e('POST', '/p0'), 'POST'),
        M('post-chunk', req('POST', '/pc', [('Transfer-Encoding', 'chunked')], chunked(SMUG, [1, len(SMUG) - 1])), e('POST', '/pc'), 'POST'),
        M('post-chunk0', req('POST', '/pz', [('Transfer-Encoding', 'chunked')], b'0\r\n\r\n'), e('POST', '/pz'), 'POST'),
        M('post-chunk-trailer', req('POST', '/pt', [('Transfer-Encoding', 'chunked')], b'3\r\nabc\r\n0\r\nX-A: t\r\n\r\n'), e('POST', '/pt'), 'POST'),
        M('post-chunk-zeros', req('POST', '/px', [('Transfer-Encoding', 'chunked')], b'003\r\nabc\r\nA\r\n0123456789\r\n000\r\n\r\n'), e('POST', '/px'), 'POST'),
        M('put-expect', req('PUT', '/ex', [('Expect', '100-continue'), ('Content-Length', '4')], b'GET '), e('PUT', '/ex'), 'PUT', interim=1),
        M('delete', req('DELETE', '/d'), e('DELETE', '/d'), 'DELETE'),
        M('custom', req('FOOBAR', '/u', [('Content-Length', '2')], b'\r\n'), e('FOOBAR', '/u'), 'FOOBAR'),
    ]
    b1 = SMUG
    for nm, body, enc in (('cl', b1, None), ('chunk', b1, [5, len(b1) - 5]), ('cl1', b'Z', None), ('chunk1', b'Z', [1])):
        if enc is None:
            r = req('POST', '/scgi', [('Content-Length', str(len(body)))], body)
        else:
            r = req('POST', '/scgi', [('Transfer-Encoding', 'chunked')], chunked(body, enc))
        m.append(M('scgi-' + nm, r, b'done', 'POST', scgi=body))
    return m


MENU = menu()


def script(seq, cuts):
    data = b''.join(x.raw for x in seq)
    sc = Script().connect(0)
    pos = 0
    nb = 0
    pend = [x for x in seq if x.scgi is not None]
    ends = []
    q = 0
    for x in seq:
        q += len(x.raw)
        ends.append(q)
    done = 0
    i = 0
    for p in parts(data, cuts):
        sc.send(0, p).q().drain(0)
        pos += len(p)
        # answer every backend request whose body has arrived
        while True:
            while i < len(seq) and seq[i].scgi is None and ends[i] <= pos:
                i += 1
            if i < len(seq) and seq[i].scgi is not None and ends[i] <= pos:
                k = 64 + nb
                nb += 1
                sc.drain(k).send(k, 'Status: 200\r\nX-B: 1\r\n\r\ndone').q().close(k).q().drain(0)
                i += 1
            else:
                break
    sc.info(0).reset()
    return sc


def expected(seq):
    out = []
    for x in seq:
        out.append(x)
        if x.close:
            break
    return out


def early(seq, cuts):
    """indexes of requests answered by the server itself whose body is not complete when the header ends"""
    res = set()
    a = 0
    cs = sorted(cuts)
    for i, x in enumerate(seq):
        hend, bend = a + x.hl, a + len(x.raw)
        if x.scgi is None and x.method not in ('GET', 'HEAD') and bend > hend and any(hend <= c < bend for c in cs):
            res.add(i)
        a = bend
    return res


def judge(key, r):
    names, cuts = key
    seq = [BYNAME[n] for n in names]
    exp = expected(seq)
    rs, err = bodies(r, 0, [x.method for x in seq])
    if err:
        return err
    rs, left = rs
    if left:
        return 'incomplete bytes in the response stream: %s' % short(left)
    finals = [x for x in rs if x.status != 100]
    for x in rs:
        if x.status == 100 and not any(y.interim for y in exp):
            return 'unexpected 100 Continue'
    ea = early(seq, cuts)
    if len(finals) > len(exp):
        return 'more responses (%d) than requests (%d): %r' % (len(finals), len(exp), finals)
    for i, x in enumerate(finals):
        if x.status != 200:
            return 'request %d (%s) answered %d' % (i, exp[i].name, x.status)
        if not x.complete:
            return 'response %d incomplete' % i
        if exp[i].scgi is None and exp[i].method != 'HEAD' and x.body != exp[i].expect:
            return 'request %d (%s): got %r expected %r' % (i, exp[i].name, x.body, exp[i].expect)
        if exp[i].scgi is not None and x.body != b'done':
            return 'request %d (%s): got %r' % (i, exp[i].name, x.body)
    if len(finals) < len(exp):
        i = len(finals) - 1
        if i < 0 or i not in ea:
            return 'request %d (%s) not answered; %d responses; eof=%s' % (i + 1, exp[i + 1].name, len(finals), r.eof.get(0))
        if not r.eof.get(0):
            return 'connection left open without answering request %d' % (i + 1)
        exp = exp[:i + 1]
        closed = True
    else:
        closed = exp[-1].close or (len(exp) - 1) in ea
        if closed and exp[-1].close and not r.eof.get(0):
            return 'connection must be closed after the last response'
        if not closed and (r.eof.get(0) or r.info.get(0, (0, 0))[0]):
            return 'keep-alive connection closed by the server'
    # interim responses
    n100 = sum(1 for x in rs if x.status == 100)
    if n100 != sum(x.interim for x in exp):
        return '%d interim responses, expected %d' % (n100, sum(x.interim for x in exp))
    # request bodies as seen by the backend
    want = [x.scgi for x in exp if x.scgi is not None]
    if len(r.connects) != len(want):
        return 'backend connections %d, expected %d' % (len(r.connects), len(want))
    for i, w in enumerate(want):
        try:
            env, body = parse_scgi(r.data.get(64 + i, b''))
        except (Bad, ValueError) as ex:
            return 'backend request: %s' % ex
        if body != w:
            return 'backend got body %r, client sent %r' % (body, w)
        cl = [v for k, v in env if k == 'CONTENT_LENGTH']
        if cl != [str(len(w))]:
            return 'backend CONTENT_LENGTH %r, body %d' % (cl, len(w))
    if r.leak and r.leak[-1] != 0:
        return 'sockets left open after the client went away: %r' % r.leak
    return None


def pat(n):
    return (b'0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ-\n' * (n // 64 + 1))[:n]


TAIL = req('GET', '/tail')


def feed(sc, data, seg, k=None):
    for i in range(0, len(data), seg):
        sc.send(0, data[i:i + seg]).q()
        if k is not None:
            sc.drain(k)
    return sc


def bigscript(n, enc, seg):
    b = pat(n)
    if enc == 'cl':
        d = req('POST', '/scgi', [('Content-Length', str(n))], b)
    else:
        sz = {'c1': 1, 'c2': (n + 1) // 2}.get(enc) or int(enc[1:])
        if sz == 1:
            l = [1] * 100 + ([n - 100] if n > 100 else [])
        else:
            l = [sz] * (n // sz) + ([n % sz] if n % sz else [])
        d = req('POST', '/scgi', [('Transfer-Encoding', 'chunked')], chunked(b, l))
    sc = Script().connect(0)
    feed(sc, d + TAIL, seg, 64)
    for i in range(8):
        sc.q().drain(64)
    sc.send(64, 'Status: 200\r\n\r\ndone').q().close(64).q().drain(0).info(0).reset()
    return sc


def headscript(n, seg):
    """request whose header is exactly n bytes"""
    d = req('GET', '/big', [('X-A', 'z'), ('X-B', '')])
    d = d.replace(b'X-B: ', b'X-B: ' + b'y' * (n - len(d)))
    assert len(d) == n
    return feed(Script().connect(0), d + TAIL, seg).drain(0).info(0).reset()


def uriscript(n, seg):
    d = req('GET', '/' + 'u' * (n - 1), [('X-A', 'z')])
    return feed(Script().connect(0), d + TAIL, seg).drain(0).info(0).reset()


def judgebig(key, r):
    kind, n, enc, seg = key
    rs, err = bodies(r, 0, ['POST', 'GET'])
    if err:
        return err
    rs, left = rs
    if left or any(not x.complete for x in rs):
        return 'incomplete response stream'
    st = [x.status for x in rs]
    if kind == 'toolarge':
        if not st:   # not answered yet, but then nothing else may happen either
            return None if not r.eof.get(0) else None
        if st != [413] or not r.eof.get(0):
            return 'oversized header: status %r eof %r' % (st, r.eof)
        return None
    if kind == 'uri' and n > 8192:
        if st != [414] or not r.eof.get(0):
            return 'oversized uri: status %r eof %r' % (st, r.eof)
        return None
    if st != [200, 200] or r.eof.get(0):
        return 'status %r eof %r' % (st, r.eof)
    if rs[1].body != e('GET', '/tail'):
        return 'second response %r' % rs[1].body
    if kind == 'body':
        try:
            env, body = parse_scgi(r.data.get(64, b''))
        except (Bad, ValueError) as ex:
            return 'backend request: %s' % ex
        if body != pat(n):
            return 'backend got a different body (%d bytes, sent %d)' % (len(body), n)
    elif kind == 'head':
        if rs[0].body != e('GET', '/big', xa='z'):
            return 'first response %r' % rs[0].body
    return None


BYNAME = {x.name: x for x in MENU}


def run(ctx):
    def singles():
        for x in MENU:
            n = len(x.raw)
            yield ((x.name,), ()), script([x], ())
            yield ((x.name,), tuple(range(1, n))), script([x], range(1, n))
            for c in splits2(n):
                yield ((x.name,), c), script([x], c)
    ctx.explore('one request: whole, every split position, byte by byte', CONF, singles, judge)

    def triples3():
        for x in MENU:
            for c in splits3(len(x.raw), 1 if ctx.thorough else 2):
                yield ((x.name,), c), script([x], c)
    ctx.explore('one request: every pair of split positions', CONF, triples3, judge)

    def pairs():
        for x in MENU:
            for y in MENU:
                seq = [x, y]
                n = len(x.raw) + len(y.raw)
                nm = (x.name, y.name)
                yield (nm, ()), script(seq, ())
                yield (nm, tuple(range(1, n))), script(seq, range(1, n))
                for c in splits2(n):
                    yield (nm, c), script(seq, c)
    ctx.explore('two pipelined requests: whole, every split position, byte by byte', CONF, pairs, judge)

    def seq3():
        sub = MENU if ctx.thorough else [x for x in MENU if x.name in ('get', 'get-lf', 'head', 'post-cl', 'post-chunk', 'post-chunk-trailer', 'put-expect', 'scgi-cl', 'scgi-chunk1', 'get-1.0-ka')]
        for t in itertools.product(sub, repeat=3):
            n = sum(len(x.raw) for x in t)
            nm = tuple(x.name for x in t)
            b1 = len(t[0].raw)
            b2 = b1 + len(t[1].raw)
            for c in ((), (b1,), (b2,), (b1, b2), (b1 - 1,), (b1 + 1,), (b2 - 1,), (b2 + 1,), (b1 + t[1].hl,), (b1 - 1, b2 - 1), (b1 + 1, b2 + 1)):
                yield (nm, c), script(t, c)
            if ctx.thorough:
                yield (nm, tuple(range(1, n))), script(t, range(1, n))
    ctx.explore('three pipelined requests around the message boundaries', CONF, seq3, judge)

    def seq4():
        sub = [BYNAME[n] for n in (('get', 'head', 'post-cl', 'post-chunk', 'scgi-cl', 'scgi-chunk1') if ctx.thorough else ('get', 'post-cl', 'scgi-chunk1'))]
        for k in (4, 5) if ctx.thorough else (4,):
            for t in itertools.product(sub, repeat=k):
                yield (tuple(x.name for x in t), ()), script(t, ())
    ctx.explore('four/five pipelined requests in one segment', CONF, seq4, judge)
    # large messages: sizes around the i/o block and queue limits, header end around buffer boundaries
    def big():
        sizes = [4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32768, 65535, 65536, 65537]
        if ctx.thorough:
            sizes += [131072, 262143, 262144, 262145, 524288, 1 << 20]
        for n in sizes:
            for enc in ('cl', 'c1', 'c2', 'c4096', 'c65000'):
                for seg in (65536, 16384, 1000) if ctx.thorough else (65536, 16384):
                    yield ('body', n, enc, seg), bigscript(n, enc, seg)
        for n in list(range(4090, 4102)) + list(range(8186, 8198)) + list(range(16378, 16392)) + list(range(32762, 32776)) + [60000, 65000]:
            for seg in (1 << 20, 4096, 1000):
                yield ('head', n, '', seg), headscript(n, seg)
        for n in (65537, 70000, 100000, 200000):
            for seg in (1 << 20, 16384):
                yield ('toolarge', n, '', seg), headscript(n, seg)
        for n in (8100, 8192, 8193, 8200, 20000):
            for seg in (1 << 20, 4096):
                yield ('uri', n, '', seg), uriscript(n, seg)
    ctx.explore('large headers, URIs and bodies', CONF, big, judgebig, batch=8)
    ctx.rules.append('case = (sequence of requests from a %d entry menu, split positions); the server process sees the segments one at a time and is run to quiescence after each' % len(MENU))
    ctx.assumptions += ['one worker, plain TCP listener (socketpair transport), virtual clock', 'socket errors and short writes are explored in C10']
