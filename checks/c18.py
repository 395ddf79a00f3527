"""C18: backend responses are relayed exactly; a broken off response is never presented as complete"""
import itertools
from h import *

CONF = conf('''
if req.path == "/tail" { respond 200 => "tail"; }
else if req.path == "/s" { scgi "unix:/s"; }
else if req.path == "/f" { fastcgi "unix:/f"; }
else { proxy "unix:/p"; }
''', ['mod_scgi', 'mod_fastcgi', 'mod_proxy'])

TAIL = req('GET', '/tail')
APPS = {'s': '/s', 'f': '/f', 'p': '/p'}


def rec(t, data=b'', pad=0, rid=1, ver=1):
    return bytes((ver, t)) + struct.pack('>HHBB', rid, len(data), pad, 0) + data + b'P' * pad


def script(app, segs, end, method='GET', version='1.1', drain_each=False, tail=True):
    h = []
    sc = Script().connect(0).send(0, req(method, APPS[app], h, version=version) + (TAIL if tail else b'')).q().drain(64)
    for s in segs:
        if s:
            sc.send(64, s).q()
            if drain_each:
                sc.drain(0)
    if end == 'close':
        sc.close(64).q()
    elif end == 'shut':
        sc.shut(64).q()
    elif end == 'rst':
        sc.plan(64, 'r', [-ECONNRESET]).send(64, b'!').q()
    return sc.drain(0).q().drain(0).info(64).reset()


# ---- well formed backend messages: (name, status line or Status header, headers, body, framing)
HS = [(), (('X-A', '1'), ('Set-Cookie', 'a=b'), ('Set-Cookie', 'c="d;e"'), ('X-Empty', '')), (('Content-Type', 'text/x'), ('Location', 'http://a/?b=c,d'))]


class Msg:
    def __init__(self, app, status, headers, body, framing, eol=b'\r\n', pre=b'', opts=''):
        self.app, self.status, self.headers, self.body, self.framing = app, status, headers, body, framing
        l = []
        if app == 'p':
            l.append(b'HTTP/1.%d %d X' % (0 if '0' in opts else 1, status))
            if 'c' in opts:
                l.append(b'Connection: close')
            if 'k' in opts:
                l.append(b'Connection: keep-alive')
        elif status != 200:
            l.append(b'Status: %d' % status)
        for n, v in headers:
            l.append(('%s: %s' % (n, v)).encode())
        b = body
        if framing == 'cl':
            l.append(b'Content-Length: %d' % len(body))
        elif framing == 'chunked':
            l.append(b'Transfer-Encoding: chunked')
            b = chunked(body, [1, len(body) - 1] if len(body) > 1 else [len(body)] if body else [])
        elif framing == 'close':
            l.append(b'Connection: close')
        self.head = pre + b''.join(x + eol for x in l) + eol
        self.wire = self.head + b
        self.key = (app, status, headers, body, framing, eol, pre, opts)


def fin(rs):
    return [x for x in rs if x.status >= 200]


def hdrs_ok(x, headers):
    for n in {n for n, v in headers}:
        want = [v for m, v in headers if m == n]
        if [v for v in x.get(n)] != want:
            return 'header %s: %r expected %r' % (n, x.get(n), want)
    for n, v in x.headers:
        if n.lower() in ('status',):
            return 'Status header leaked'
        if n.lower() not in ('date', 'server', 'content-length', 'transfer-encoding', 'connection') and n not in [m for m, _ in headers]:
            return 'unexpected header %r' % ((n, v),)
    return None


def judge_complete(r, m, method='GET', version='1.1'):
    rs, err = bodies(r, 0, [method, 'GET'])
    if err:
        return err
    rs, left = rs
    f = fin(rs)
    if left or not f or not f[0].complete:
        return 'complete backend response not relayed completely: %r %s' % (f, short(r.data.get(0), 300))
    x = f[0]
    if x.status != m.status:
        return 'status %d expected %d' % (x.status, m.status)
    e = hdrs_ok(x, m.headers)
    if e:
        return e
    if method != 'HEAD' and x.body != m.body:
        return 'body %s expected %s' % (short(x.body), short(m.body))
    if version == '1.1':
        if r.eof.get(0) or len(f) != 2 or f[1].body != b'tail':
            return 'following request on the connection: %r eof=%r' % (f[1:], r.eof)
    return None


def judge_broken(r, m, version='1.1'):
    """the backend broke off before its message was complete"""
    d = r.data.get(0, b'')
    rs, err = bodies(r, 0, ['GET', 'GET'])
    if err:
        # a chunked body without end is fine, but only if the connection is gone
        if not (r.eof.get(0) or r.rst.get(0)):
            return 'broken response, but the connection stays open: %s' % short(d, 300)
        return None
    rs, left = rs
    f = fin(rs)
    if not f:
        if r.eof.get(0) or r.rst.get(0):
            return None
        return 'client hangs after the backend broke off (no response): %s' % short(d)
    x = f[0]
    if x.complete and x.status >= 500 and m.status < 500:
        return None          # error response instead
    if not x.complete:
        if not (r.eof.get(0) or r.rst.get(0)):
            return 'client hangs in an incomplete response'
        if not m.body.startswith(x.body):
            return 'relayed bytes %s are not a prefix of the backend body' % short(x.body)
        return None
    if m.framing == 'cl' and x.framing == 'length' and x.body == m.body:
        return None          # nothing but the end marker is missing
    if version == '1.0' and x.framing == 'close':
        return None if m.body.startswith(x.body) else 'relayed bytes %s are not a prefix of the backend body' % short(x.body)
    return 'broken off backend response presented as complete: %d %s (framing %s)' % (x.status, short(x.body), x.framing)


BODIES = [b'', b'x', b'hello world']


def messages(th):
    for app in 'sfp':
        for st in (200, 404, 503, 302):
            for hs in HS:
                for b in BODIES:
                    if st >= 400 and not b:
                        continue        # documented: replaced by an error page
                    for fr in ('none', 'cl') + (('chunked', 'close') if app == 'p' else ()):
                        yield Msg(app, st, hs, b, fr)
        yield Msg(app, 200, HS[1], b'abc', 'cl', eol=b'\n')
        yield Msg(app, 200, HS[1], b'abc', 'none', eol=b'\n')
    for opts in ('c', 'k', '0', '0k', '0c', 'ck'):
        for fr in ('cl', 'chunked', 'none'):
            if (fr == 'chunked' and '0' in opts) or (fr == 'none' and opts in ('0k', 'ck')):
                continue
            for b in BODIES[1:]:
                yield Msg('p', 200, (), b, fr, opts=opts)
    for st in (100, 102):
        yield Msg('p', 200, HS[1], b'abc', 'cl', pre=b'HTTP/1.1 %d Continue\r\nX-Drop: 1\r\n\r\n' % st)
        yield Msg('p', 200, HS[1], b'abc', 'chunked', pre=(b'HTTP/1.1 %d Continue\r\n\r\n' % st) * 2)


def wrap(app, w, style):
    """FastCGI framings of the byte stream w; other protocols use it as it is"""
    if app != 'f':
        return w
    end = rec(3, b'\0' * 8)
    if style == 0:
        return (rec(6, w) if w else b'') + rec(6) + end
    if style == 1:       # byte wise records with padding
        return b''.join(rec(6, bytes((c,)), pad=i % 8) for i, c in enumerate(w)) + rec(6, b'', 3) + rec(3, b'\0' * 8, 2)
    if style == 2:       # interleaved stderr, unknown records, max padding
        k = len(w) // 2
        return rec(7, b'err1\n') + rec(6, w[:k], 255) + rec(7, b'err2') + rec(11, b'\0' * 8) + (rec(6, w[k:], 1) if w[k:] else b'') + rec(7) + rec(6) + end
    return rec(6, w) + end     # END_REQUEST without end of stdout


def seg_cases(th):
    for m in messages(th):
        for style in range(4 if m.app == 'f' else 1):
            d = wrap(m.app, m.wire, style)
            L = len(d)
            ends = ('close',) if m.framing in ('none', 'close') and m.app != 'f' else ('close', 'open') if m.app != 's' else ('close',)
            for end in ends:
                yield (m.key, style, (), end, 'GET', '1.1'), script(m.app, [d], end)
                yield (m.key, style, 'bytes', end, 'GET', '1.1'), script(m.app, [d[i:i + 1] for i in range(L)], end, drain_each=True)
                for me, v in (('HEAD', '1.1'), ('GET', '1.0')):
                    if m.app == 'p' and me == 'HEAD':
                        continue
                    yield (m.key, style, (), end, me, v), script(m.app, [d], end, me, v, tail=v == '1.1')
                for i in range(1, L) if th or m.status == 200 else ():
                    yield (m.key, style, (i,), end, 'GET', '1.1'), script(m.app, [d[:i], d[i:]], end)
                if th or (m.status == 200 and m.headers == () and m.body in (b'x', b'hello world')):
                    step = 1 if th else 3
                    for i in range(1, L, step):
                        for j in range(i + 1, L, step):
                            yield (m.key, style, (i, j), end, 'GET', '1.1'), script(m.app, [d[:i], d[i:j], d[j:]], end)


def unkey(k):
    return Msg(*k)


def seg_judge(key, r):
    mk, style, cuts, end, me, v = key
    return judge_complete(r, unkey(mk), me, v)


def complete_at(m, style, i, d, end):
    """is the message complete when only d[:i] was received and the connection is gone?"""
    w = d[:i]
    if m.app == 'f':
        # stdout closed (explicit eof) and whole records only, or END_REQUEST
        p = 0
        out = b''
        eof = done = False
        while p + 8 <= len(w):
            t = w[p + 1]
            ln, pad = struct.unpack('>HB', w[p + 4:p + 7])
            have = w[p + 8:p + 8 + ln]
            if t == 6:
                out += have
                if ln == 0:
                    eof = True
            if t == 3 and len(have) == 8:
                done = True
            if len(have) < ln or len(w) < p + 8 + ln + pad:
                partial = len(have) < ln
                p = len(w) + (1 if partial else 0)
                break
            p += 8 + ln + pad
        rest = p != len(w)
        if out != m.wire:
            return False
        if done:
            return True
        if eof:
            return None if rest else True     # end of stdout seen, END_REQUEST missing or partial: either is fine
        return False
    if m.app == 's' and m.framing == 'cl' or m.framing in ('cl', 'chunked') or m.status in (204, 304):
        if m.app == 's' and m.framing == 'cl':
            # CGI: Content-Length is not part of the SCGI framing, the end of the connection is
            return ('prefix', w[len(m.head):]) if len(w) >= len(m.head) else False
        return i >= len(d)
    if len(w) < len(m.head):
        return False
    if m.framing in ('none', 'close'):
        # delimited by the connection end: what was received is the message
        return ('prefix', w[len(m.head):])     # a reset counts as end: backends reset after their response if they did not read all input
    return False


def trunc_cases(th):
    for m in messages(th):
        for style in range(4 if m.app == 'f' else 1):
            d = wrap(m.app, m.wire, style)
            for end in ('close', 'shut', 'rst'):
                if not th and (m.status in (302, 503) or (m.status == 404 and (end != 'close' or m.headers))):
                    continue
                for i in range(len(d)):
                    for v in ('1.1', '1.0') if th or (end == 'close' and not m.headers) else ('1.1',):
                        for split in (0, 1) if i > 1 and (th or (m.status == 200 and end == 'close')) else (0,):
                            segs = [d[:i - split], d[i - split:i]] if split else [d[:i]]
                            yield (m.key, style, i, end, v, split), script(m.app, segs, end, 'GET', v, tail=v == '1.1')


def trunc_judge(key, r):
    mk, style, i, end, v, split = key
    m = unkey(mk)
    d = wrap(m.app, m.wire, style)
    c = complete_at(m, style, i, d, end)
    if c is None:
        a, b = judge_complete(r, m, 'GET', v), judge_broken(r, m, v)
        return None if a is None or b is None else '%s / %s' % (a, b)
    if isinstance(c, tuple):
        m2 = Msg(m.app, m.status, m.headers, c[1], m.framing, opts=m.key[7])
        if m.status >= 400 and not c[1]:
            return None
        if m.framing == 'cl' and judge_broken(r, m, v) is None:
            return None
        return judge_complete(r, m2, 'GET', v)
    if c:
        return judge_complete(r, m, 'GET', v)
    return judge_broken(r, m, v)


# ---- all short sequences of FastCGI records
RECS = {
    'H': rec(6, b'X-A: 1\r\n\r\n'), 'b': rec(6, b'body', 4), 'h': rec(6, b'Status: 201\r\nX-A'), 'i': rec(6, b': 1\r\n\r\nx'), 'z': rec(6), 'E': rec(3, b'\0' * 8), 'e': rec(7, b'msg'), 'y': rec(7), 'u': rec(99, b'zz', 3),
    'O': rec(3, b'\0\0\0\0\2\0\0\0'), 'V': rec(6, b'body', ver=2), 'w': rec(3, b'\0' * 4), 'X': rec(3, b'\0\0\0\1\0\0\0\0'),
}


def fcgi_model(seq, end):
    """-> (verdict, stdout) verdict in complete/broken/pending"""
    out = b''
    closed = eclosed = False
    for c in seq:
        if c in 'Hbhi':
            if closed:
                return 'broken', out
            out += RECS[c][8:8 + struct.unpack('>H', RECS[c][4:6])[0]]
        elif c == 'z':
            closed = True
        elif c == 'y':
            eclosed = True
        elif c == 'e' and eclosed:
            return 'broken', out
        elif c in 'EX':
            return 'complete', out
        elif c in 'OVw':
            return 'broken', out
    if end == 'open':
        return 'pending', out
    return ('complete' if closed else 'broken'), out


def rec_cases(th):
    for n in range(1, 6 if th else 5):
        for t in itertools.product('HbhizEeyuOVwX', repeat=n):
            if any(c in 'EOVwX' for c in t[:-1]):
                continue
            for end in ('close', 'open'):
                d = b''.join(RECS[c] for c in t)
                yield (''.join(t), end), script('f', [d], end)


def parse_cgi(out):
    """-> (status, headers, body) or None (incomplete) or False (invalid)"""
    h, s, b = out.partition(b'\r\n\r\n')
    if not s:
        return None if all(x in (b'Status: 201',) or b'X-A: '.startswith(x) or x.startswith(b'X-A') for x in out.split(b'\r\n') if x) or not out else 'maybe'
    hs = []
    st = 200
    for l in h.split(b'\r\n'):
        n, c, v = l.partition(b':')
        if not c or not n or b' ' in n:
            return False
        if n == b'Status':
            st = int(v)
        else:
            hs.append((n.decode(), v.strip().decode('latin-1')))
    return st, hs, b


def rec_judge(key, r):
    t, end = key
    verdict, out = fcgi_model(t, end)
    p = parse_cgi(out)
    d = r.data.get(0, b'')
    rs, err = bodies(r, 0, ['GET', 'GET'])
    gone = r.eof.get(0) or r.rst.get(0)
    if p is False or p == 'maybe' or p is None:
        if verdict == 'pending' and p is not False:
            if p is None and d:
                return 'response before the backend header is complete: %s' % short(d)
            if not d or p == 'maybe':
                return None
        if err:
            return err
        f = fin(rs[0])
        if not f:
            return None if gone else 'client hangs: %s' % short(d)
        if f[0].status < 500:
            return 'expected an error response, got %r' % f[0]
        return None
    st, hs, b = p
    m = Msg('f', st, (), b, 'none')
    m.headers = tuple(hs)
    if verdict == 'complete':
        return judge_complete(r, m)
    if verdict == 'pending':
        if err:
            return None if not gone else 'connection closed while the backend is still responding'
        f = fin(rs[0])
        if f and f[0].complete:
            return 'response completed while the backend is still responding: %r' % f[0]
        return None if not gone else 'connection closed while the backend is still responding'
    return judge_broken(r, m)


# ---- arbitrary bytes in the response header
def gram_cases(th):
    bases = {'s': b'Status: 200\r\nX-A: v1\r\nX-B: v2\r\n\r\nbody', 'p': b'HTTP/1.1 200 OK\r\nX-A: v1\r\nContent-Length: 4\r\n\r\nbody'}
    for app, d in bases.items():
        hl = d.index(b'\r\n\r\n') + 4
        for i in range(hl):
            for c in range(256):
                yield (app, 'rep', i, c), script(app, [d[:i] + bytes((c,)) + d[i + 1:]], 'close')
            for c in (0, 9, 10, 13, 32, 34, 58, 65, 127, 255):
                yield (app, 'ins', i, c), script(app, [d[:i] + bytes((c,)) + d[i:]], 'close')
            yield (app, 'del', i, 0), script(app, [d[:i] + d[i + 1:]], 'close')


def gram_judge(key, r):
    """whatever the backend sends: the client gets one well formed message (or a closed connection), and the next request is served in sync"""
    d = r.data.get(0, b'')
    try:
        # octets above 127 are passed through in names and values
        rs, left = parse_responses(bytes(c if c < 128 else 0x71 for c in d), r.eof.get(0), ['GET', 'GET'])
        err = None
    except Bad as e:
        err = str(e)
    gone = r.eof.get(0) or r.rst.get(0)
    if err:
        return None if gone and 'chunk' in err else '%s in %s' % (err, short(d, 300))
    f = fin(rs)
    if not f:
        return None if gone else 'client hangs'
    x = f[0]
    for n, v in x.headers:
        if '\r' in v or '\n' in v or '\0' in v:
            return 'control character in header %r' % ((n, v),)
    if not x.complete and not gone:
        return 'client hangs'
    if x.complete and not gone and (len(f) != 2 or f[1].body != b'tail'):
        return 'next response %r' % f[1:]
    return None


def fail_cases(th):
    for app in 'sfp':
        for e in (ECONNREFUSED, ETIMEDOUT, ECONNRESET, 13, 2, 104, 11, 101, 113, EMFILE):
            sc = Script().connplan([-e] * 20).connect(0).send(0, req('GET', APPS[app]) + TAIL).q()
            yield (app, 'connect', e), sc.advance(20).q().advance(20).q().drain(0).reset(30)
        for ok in (0,):
            sc = Script().connplan([1]).connect(0).send(0, req('GET', APPS[app]) + TAIL).q().complete(64, False).q().advance(20).q().drain(0).reset(30)
            yield (app, 'inprogress', ok), sc
        sc = Script().connplan([1]).connect(0).send(0, req('GET', APPS[app]) + TAIL).q().advance(6).q().advance(10).q().drain(0).reset(30)
        yield (app, 'connect timeout', 0), sc
        # backend closes / resets / write fails before it read anything
        for e in ('close', 'shut', 'rst'):
            yield (app, 'early', e), script(app, [], e)
        for w in (EPIPE, ECONNRESET):
            sc = Script().connplan([1]).connect(0).send(0, req('GET', APPS[app]) + TAIL).q().plan(64, 'w', [-w]).complete(64).q().close(64).q().drain(0).reset(30)
            yield (app, 'write', w), sc


def fail_judge(key, r):
    rs, err = bodies(r, 0, ['GET', 'GET'])
    if err:
        return err
    f = fin(rs[0])
    if not f:
        if key[1] in ('early', 'write') and r.eof.get(0):
            return None
        return 'no response'
    if f[0].status not in (500, 502, 503, 504) or not f[0].complete:
        return 'expected an error response, got %r' % f[0]
    if f[0].close:
        return None if r.eof.get(0) else 'announced close'
    if len(f) != 2 or f[1].body != b'tail':
        return 'next response: %r' % f[1:]
    return None


def run(ctx):
    th = ctx.thorough
    ctx.rules.append('backend byte streams: messages x framing x every cut; every truncation point x close/half-close/reset; all FastCGI record sequences up to length %d; every byte value at every header position' % (5 if th else 4))
    ctx.explore('segmentation of complete responses', CONF, lambda: seg_cases(th), seg_judge)
    ctx.explore('truncation at every byte', CONF, lambda: trunc_cases(th), trunc_judge)
    ctx.explore('FastCGI record sequences', CONF, lambda: rec_cases(th), rec_judge)
    ctx.explore('header bytes', CONF, lambda: gram_cases(th), gram_judge)
    ctx.explore('connect and early failures', CONF, lambda: fail_cases(th), fail_judge, isolate=True)
