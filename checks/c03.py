"""C03: malformed requests are rejected, everything else is served; compared with a reference model on all small mutations"""
from h import *
import reqmodel

CONF = conf('respond 200 => "%{req.method}|%{req.host}|%{req.path}|%{req.query}|%{req.header[X-A]}|";')


def echo(o):
    xa = [v for k, v in o.headers if k.lower() == b'x-a']
    return b'|'.join((o.method, o.host, o.path, o.query, xa[-1] if xa else b'')) + b'|'


BASES = {
    'get': b'GET /a/b?q=1 HTTP/1.1\r\nHost: h.x:80\r\nX-A: v "q" w\r\n\r\n',
    'head': b'HEAD /%41 HTTP/1.0\nConnection: keep-alive\n\n',
    'abs': b'GET http://u:p@ab.c:81/p/../q?x HTTP/1.1\r\nHost: y\r\n\r\n',
    'post': b'POST /p HTTP/1.1\r\nHost: x\r\nContent-Length: 5\r\n\r\nab\r\nc',
    'chunk': b'POST /p HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n0a\r\n0123456789\r\n0\r\nT: x\r\n\r\n',
    'fold': b'GET /f HTTP/1.1\r\nHost: [::1]:8\r\nX-A: a\r\n\tb\r\nB: "x\\"y"\r\n\r\n',
    'opt': b'OPTIONS * HTTP/1.1\r\nHost: x\r\nExpect: 100-continue\r\nX-A: \r\n\r\n',
}
TAIL = b'GET /tail HTTP/1.1\r\nHost: tail\r\n\r\n'
INS = [0, 1, 9, 10, 13, 31, 32, 33, 34, 37, 42, 43, 45, 46, 47, 48, 57, 58, 59, 61, 63, 64, 65, 91, 92, 93, 97, 102, 123, 127, 128, 255]

HDRS = {
    'Content-Length': ['0', '1', '5', '05', '+5', '-1', '', ' ', '5 ', ' 5', '5,5', '5, 5', '0x5', '5.0', '1e1', 'a', '5a', '9223372036854775807', '9223372036854775808', '18446744073709551616', '99999999999999999999999'],
    'Transfer-Encoding': ['chunked', 'Chunked', 'identity', 'gzip', 'chunked, chunked', 'gzip, chunked', 'chunked,', '', 'xchunked', 'identity, chunked', ' chunked'],
    'Expect': ['100-continue', '100-Continue', 'foo', '', '100-continue, foo'],
    'Host': ['', 'a', 'A.B', 'a.', 'a..', '..', '[::1]', '[::1', '::1', '1.2.3.4', '1.2.3.4:', 'a:80', 'a:', 'a:b', 'a b', 'a/b', 'a%41', 'a%4', 'u@a', '[v1.a]', '[g]', 'a,b', '-', '_', 'a\t', '"a"', '1.2.3.4.5', '[::1.2.3.4]', '[::1]:8080', '[]', 'a..b', '.a'],
    'Connection': ['close', 'Close', 'keep-alive', 'Keep-Alive', '', 'foo'],
}


def stream_cases(thorough):
    seen = set()

    def emit(tag, d):
        if d in seen:
            return None
        seen.add(d)
        return (tag, d)
    for name, b in BASES.items():
        yield emit((name, 'base'), b)
        for i in range(len(b)):
            for c in range(256):
                if c != b[i]:
                    x = emit((name, 'rep', i, c), b[:i] + bytes((c,)) + b[i + 1:])
                    if x:
                        yield x
            for c in (range(256) if thorough else INS):
                x = emit((name, 'ins', i, c), b[:i] + bytes((c,)) + b[i:])
                if x:
                    yield x
            for k in (1, 2, 3):
                x = emit((name, 'del', i, k), b[:i] + b[i + k:])
                if x:
                    yield x
            x = emit((name, 'swap', i), b[:i] + b[i + 1:i + 2] + b[i:i + 1] + b[i + 2:])
            if x:
                yield x
            x = emit((name, 'dup', i), b[:i + 1] + b[i:])
            if x:
                yield x
            if thorough and i + 1 < len(b):
                for c1 in INS:
                    for c2 in INS:
                        x = emit((name, 'rep2', i, c1, c2), b[:i] + bytes((c1, c2)) + b[i + 2:])
                        if x:
                            yield x


def hdr_cases():
    for m in ('GET', 'HEAD', 'POST', 'PUT', 'DELETE', 'OPTIONS', 'get', 'X'):
        for v in ('1.0', '1.1'):
            base = [('Host', 'x')]
            for k, vals in HDRS.items():
                for a in vals:
                    for second in [None] + (vals[:6] if k != 'Host' else ['a', 'b', '']):
                        hs = [(k, a)] + ([(k, second)] if second is not None else [])
                        if k != 'Host':
                            hs = base + hs
                        for body in (b'', b'12345', b'0\r\n\r\n', b'5\r\n12345\r\n0\r\n\r\n'):
                            yield (m, v, tuple(hs), body), req(m, '/h', hs, body, version=v, host=None)
                            if k != 'Host' and m in ('GET', 'POST') and v == '1.1':
                                # the same with unrelated headers around and between
                                h2 = [('A', 'b')] + [y for h in hs for y in (h, ('Z', 'y'))]
                                yield (m, v, tuple(h2), body), req(m, '/h', h2, body, version=v, host=None)
                                h2 = hs + [('A', 'b')]
                                yield (m, v, tuple(h2), body), req(m, '/h', h2, body, version=v, host=None)
            for cl in ('0', '5', ''):
                for te in ('chunked', 'identity', 'gzip'):
                    for order in (0, 1):
                        hs = base + ([('Content-Length', cl), ('Transfer-Encoding', te)] if order == 0 else [('Transfer-Encoding', te), ('Content-Length', cl)])
                        for body in (b'', b'12345', b'0\r\n\r\n', b'5\r\n12345\r\n0\r\n\r\n'):
                            yield (m, v, tuple(hs), body), req(m, '/h', hs, body, version=v, host=None)
    for ver in ('0.9', '1.2', '2.0', '1.10', '01.1', '1.01', '1', '1.', '.1', '1.1 ', 'a.b', '11.1'):
        yield ('version', ver), b'GET / HTTP/' + ver.encode() + b'\r\nHost: x\r\n\r\n'
    for d in (b'GET /\r\n\r\n', b'GET / HTTP/1.1\r\n\r\n', b'GET / HTTP/1.0\r\n\r\n', b'\r\n\r\n\r\n', b'\n\n', b'GET  / HTTP/1.1\r\nHost: x\r\n\r\n', b' GET / HTTP/1.1\r\nHost: x\r\n\r\n', b'PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n',
              b'\x16\x03\x01\x00\x05hello\r\n\r\n', b'GET / HTTP/1.1\r\n Host: x\r\n\r\n', b'GET / HTTP/1.1\r\nHost : x\r\n\r\n', b'GET / HTTP/1.1\r\n: x\r\nHost: x\r\n\r\n', b'GET / http/1.1\r\nHost: x\r\n\r\n'):
        yield ('misc', d), d


def judge_stream(d, r, early=False):
    outs = reqmodel.run(d)
    ms = [o.method.decode('latin-1') for o in outs if hasattr(o, 'method')]
    try:
        rs, left = parse_responses(r.data.get(0, b''), r.eof.get(0), ms)
    except Bad as ex:
        return 'unparsable response stream: %s; request %r' % (ex, d)
    if left:
        return 'incomplete response bytes'
    m = reqmodel.compare(outs, [x for x in rs if x.status >= 200], bool(r.eof.get(0)), echo, early)
    if m:
        return '%s; stream %r' % (m, d)
    return None


def run(ctx):
    def one(d):
        return Script().connect(0).send(0, d + TAIL).q().drain(0).info(0).reset()

    def muts():
        for x in stream_cases(ctx.thorough):
            if x:
                yield x, one(x[1])
    ctx.explore('every small mutation of well formed requests', CONF, muts, lambda k, r: judge_stream(k[1] + TAIL, r))

    def hdrs():
        for k, d in hdr_cases():
            yield (k, d), one(d)
    ctx.explore('framing relevant header values x method x version', CONF, hdrs, lambda k, r: judge_stream(k[1] + TAIL, r))

    def trunc():
        for name, b in BASES.items():
            for i in range(len(b)):
                yield (name, b[:i]), Script().connect(0).send(0, b[:i]).q().drain(0).info(0).reset()
    ctx.explore('every truncation', CONF, trunc, lambda k, r: judge_stream(k[1], r) if k[1] else None)

    if ctx.thorough:
        def split():
            for x in stream_cases(False):
                if x:
                    d = x[1] + TAIL
                    sc = Script().connect(0)
                    for i in range(0, len(d), 1):
                        sc.send(0, d[i:i + 1]).q()
                    yield x, sc.drain(0).info(0).reset()

        def judge2(k, r):
            return judge_stream(k[1] + TAIL, r, True)
        ctx.explore('mutations delivered byte by byte', CONF, split, judge2)
    ctx.rules.append('byte streams: %d base messages x (replace each byte by all 256 values, insert, delete, swap, duplicate), header value menus; oracle = reference grammar lib/reqmodel.py' % len(BASES))
