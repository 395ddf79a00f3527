"""Reference model of the request side: byte stream -> sequence of outcomes.

Written from RFC 2616/3986 with the documented tolerances (bare LF line ends, empty lines before a request,
unencoded delimiters in the URI); it is compared with the implementation on every explored byte stream."""
import re

SEP = b'()<>@,;:\\"/[]?={} \t'
TOKEN = bytes(c for c in range(256) if c > 31 and c != 127 and c not in SEP)
TSET = frozenset(TOKEN)
INC, BAD = 'incomplete', 'bad'


def is_text(c):
    return c > 31 and c != 127


# ---------------------------------------------------------------- URI
UNRES = rb"A-Za-z0-9\-._~"
SUB = rb"!$&'()*+,;="
PCH = rb"[" + UNRES + SUB + rb":@<>%\" {}|\\^\[\]`]"
PATH = rb"/(?:/|" + PCH + rb")*"
QF = rb"(?:" + PCH + rb"|[/?])*"
REG = rb"(?:[" + UNRES + SUB + rb"]|%[0-9A-Fa-f]{2})+"
V4 = rb"[0-9]{1,3}\.[0-9]{1,3}\.[0-9]{1,3}\.[0-9]{1,3}"
IPL = rb"\[(?:[:0-9A-Fa-f]+(?:" + V4 + rb")?|v[0-9A-Fa-f]+\.[" + UNRES + SUB + rb":]+)\]"
HOST = rb"(?:" + IPL + rb"|" + REG + rb")"
USER = rb"(?:[" + UNRES + SUB + rb":]|%[0-9A-Fa-f]{2})*"
TARGET = rb"(?P<path>" + PATH + rb")(?:\?(?P<query>" + QF + rb"))?(?:#(?:" + PCH + rb"|[/?#])*)?"
ABS = re.compile(rb"^(?P<scheme>https?)://(?P<auth>(?:" + USER + rb"@)?(?P<host>" + HOST + rb")(?::[0-9]+)?)" + TARGET + rb"$", re.S)
ORIGIN = re.compile(rb"^" + TARGET + rb"$", re.S)
HOSTHDR = re.compile(rb"^(?P<host>" + HOST + rb")(?::[0-9]+)?$", re.S)


def url_decode(p):
    out = bytearray()
    i = 0
    n = len(p)
    while i < n:
        c = p[i]
        if c == 0x25:
            if i + 2 < n:
                try:
                    h = p[i + 1:i + 3]
                    if not re.match(rb'^[0-9A-Fa-f]{2}$', h):
                        raise ValueError
                    c = int(h, 16)
                    if c < 32 or c == 127:
                        c = 0x5f
                    out.append(c)
                except ValueError:
                    pass
                i += 3
                continue
            break
        if c < 32 or c == 127:
            c = 0x5f
        out.append(c)
        i += 1
    return bytes(out)


def simplify(p):
    """resolve '.', '..' and empty segments; never above the root"""
    if not p.startswith(b'/'):
        p = b'/' + p
    segs = p.split(b'/')[1:]
    out = []
    for i, s in enumerate(segs):
        last = i == len(segs) - 1
        if s == b'' or s == b'.':
            if last:
                out.append(b'')
        elif s == b'..':
            if out:
                out.pop()
            if last:
                out.append(b'')
        else:
            out.append(s)
    return b'/' + b'/'.join(out)


def parse_uri(raw, method):
    """-> None | dict(path, query, host or None, scheme, raw_path)"""
    if raw == b'*':
        if method != b'OPTIONS':
            return None
        return dict(path=b'/*', query=b'', host=None, authority=None, scheme=None, raw_path=b'*')
    m = ABS.match(raw)
    host = auth = scheme = None
    if m:
        host = m.group('host').lower()
        auth = m.group('auth').lower()
        scheme = m.group('scheme')
    else:
        m = ORIGIN.match(raw)
        if not m:
            return None
    q = m.group('query')
    return dict(path=simplify(url_decode(m.group('path'))), query=q or b'', host=host, authority=auth, scheme=scheme,
                raw_path=m.group('path') + (b'?' + q if q is not None else b''))


# ---------------------------------------------------------------- header
def eat_crlf(d, p):
    """-> new position, None (no line end here) or INC"""
    if p >= len(d):
        return INC
    if d[p] == 10:
        return p + 1
    if d[p] == 13:
        if p + 1 >= len(d):
            return INC
        return p + 2 if d[p + 1] == 10 else None
    return None


def parse_head(d, p):
    """-> (INC,) | (BAD,) | ('ok', pos, method, uri, version, headers)"""
    n = len(d)
    while True:
        r = eat_crlf(d, p)
        if r == INC:
            return (INC,)
        if r is None:
            break
        p = r
    s = p
    while p < n and d[p] in TSET:
        p += 1
    if p >= n:
        return (INC,)
    if d[p] != 32 or p == s:
        return (BAD,)
    method = d[s:p]
    p += 1
    s = p
    while p < n and is_text(d[p]) and d[p] != 32:
        p += 1
    if p >= n:
        return (INC,)
    if d[p] != 32 or p == s:
        return (BAD,)
    uri = d[s:p]
    p += 1
    s = p
    lit = b'HTTP/'
    for c in lit:
        if p >= n:
            return (INC,)
        if d[p] != c:
            return (BAD,)
        p += 1
    a = p
    while p < n and 48 <= d[p] <= 57:
        p += 1
    if p >= n:
        return (INC,)
    if p == a or d[p] != 0x2e:
        return (BAD,)
    p += 1
    b = p
    while p < n and 48 <= d[p] <= 57:
        p += 1
    if p >= n:
        return (INC,)
    if p == b:
        return (BAD,)
    version = d[s:p]
    r = eat_crlf(d, p)
    if r == INC:
        return (INC,)
    if r is None:
        return (BAD,)
    p = r
    headers = []
    while True:
        r = eat_crlf(d, p)
        if r == INC:
            return (INC,)
        if r is not None:
            return ('ok', r, method, uri, version, headers)
        s = p
        while p < n and d[p] in TSET:
            p += 1
        if p >= n:
            return (INC,)
        if p == s or d[p] != 58:
            return (BAD,)
        key = d[s:p]
        p += 1
        while p < n and d[p] in (32, 9):
            p += 1
        v0 = p
        quote = False
        fold = False
        while True:
            if p >= n:
                return (INC,)
            c = d[p]
            if c == 10 or c == 13:
                r = eat_crlf(d, p)
                if r == INC:
                    return (INC,)
                if r is None:
                    return (BAD,)
                if r >= n:
                    return (INC,)
                if d[r] in (32, 9):
                    fold = True
                    p = r + 1
                    continue
                if quote:
                    return (BAD,)
                break
            if c == 9 or is_text(c):
                if quote and c == 0x5c:
                    if p + 1 >= n:
                        return (INC,)
                    if not (31 < d[p + 1] < 127):
                        return (BAD,)
                    p += 2
                    continue
                if c == 0x22:
                    quote = not quote
                p += 1
                continue
            return (BAD,)
        v = d[v0:p].rstrip(b'\r\n ')
        if fold:
            v = re.sub(rb'[\r\n][ \t\r\n]*', b' ', re.sub(rb'[\r\n][ \t\r\n]*$', b'', v))
        headers.append((key, v))
        p = r


class Out:
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)

    def __repr__(self):
        return 'Out(%s)' % ', '.join('%s=%r' % x for x in self.__dict__.items())


def get(headers, name):
    return [v for k, v in headers if k.lower() == name]


def parse_chunked(d, p):
    """-> (state, pos, body)  state in ok|INC|BAD"""
    body = bytearray()
    n = len(d)
    while True:
        s = p
        while p < n and d[p:p + 1] in b'0123456789abcdefABCDEF' and p < n:
            p += 1
        if p >= n:
            return (BAD if p - s and int(d[s:p], 16) > 0x7fffffffffffffff else INC), p, bytes(body)
        if p == s or d[p] != 13:
            return BAD, p, bytes(body)
        ln = int(d[s:p], 16)
        if ln > 0x7fffffffffffffff:
            return BAD, p, bytes(body)
        p += 1
        if p >= n:
            return INC, p, bytes(body)
        if d[p] != 10:
            return BAD, p, bytes(body)
        p += 1
        if ln == 0:
            # trailer up to an empty line
            while True:
                e = d.find(b'\r\n', p)
                if e < 0:
                    return INC, n, bytes(body)
                if e == p:
                    return 'ok', e + 2, bytes(body)
                p = e + 2
        body += d[p:p + ln]
        p += ln
        for c in b'\r\n':
            if p >= n:
                return INC, n, bytes(body)
            if d[p] != c:
                return BAD, p, bytes(body)
            p += 1


def run(d, maxreq=10, strict_post=True):
    """-> list of Out: kind 'ok' (answered request), 'err' (rejected + close), 'badbody', 'partial' (body incomplete), 'wait'"""
    p = 0
    out = []
    while True:
        if p >= len(d):
            out.append(Out('wait'))
            return out
        h = parse_head(d, p)
        if h[0] == INC:
            out.append(Out('wait'))
            return out
        if h[0] == BAD:
            out.append(Out('err'))
            return out
        _, p, method, uri, version, headers = h
        host = get(headers, b'host')
        con = [x.lower() for x in get(headers, b'connection')]
        if version not in (b'HTTP/1.0', b'HTTP/1.1'):
            out.append(Out('err', status=505))
            return out
        v11 = version == b'HTTP/1.1'
        close = (b'close' in con) if v11 else (b'keep-alive' not in con)
        if len(host) > 1 or (v11 and (not host or host[0] == b'')):
            out.append(Out('err'))
            return out
        u = parse_uri(uri, method)
        if u is None:
            out.append(Out('err'))
            return out
        hn = u['host']
        if hn is None and host and host[0] != b'':
            m = HOSTHDR.match(host[0].lower())
            if not m:
                out.append(Out('err'))
                return out
            hn = m.group('host')
        hn = (hn or b'').rstrip(b'.')
        if hn.startswith(b'.') or b'..' in hn:
            out.append(Out('err'))
            return out
        cl = get(headers, b'content-length')
        length = None
        if cl:
            if len(cl) > 1 or not re.match(rb'^[0-9]+$', cl[0]):
                out.append(Out('err'))
                return out
            length = int(cl[0])
            if length > 0x7fffffffffffffff:
                out.append(Out('err'))
                return out
        chunk = False
        bad = False
        for t in get(headers, b'transfer-encoding'):
            if t.lower() == b'identity':
                continue
            if t.lower() == b'chunked' and not chunk:
                chunk = True
                length = None
                continue
            bad = True
        exp = get(headers, b'expect')
        if any(x.lower() != b'100-continue' for x in exp) or (exp and not v11):
            bad = True
        if method in (b'GET', b'HEAD') and (chunk or (length or 0) > 0):
            bad = True
        if method == b'POST' and length is None and not chunk and strict_post:
            bad = True
        if bad:
            out.append(Out('err'))
            return out
        o = Out('ok', method=method, close=close, path=u['path'], query=u['query'], host=hn, headers=headers, body=b'', v11=v11, interim=bool(exp), raw_path=u['raw_path'], framed=bool(chunk or length))
        if chunk:
            st, p, o.body = parse_chunked(d, p)
            if st == BAD:
                o.kind = 'badbody'
            elif st == INC:
                o.kind = 'partial'
        elif length:
            o.body = d[p:p + length]
            p += length
            if len(o.body) < length:
                o.kind = 'partial'
        out.append(o)
        if o.kind != 'ok' or o.close or len(out) >= maxreq:
            return out


def compare(outs, resps, eof, echo, early=False):
    """resps: parsed final responses; echo(o) -> expected body.  returns None or a message"""
    i = 0
    for o in outs:
        if o.kind == 'wait':
            if len(resps) > i:
                return 'response %d although the request is incomplete: %r' % (i, resps[i])
            if eof:
                return 'connection closed while the request is incomplete'
            return None
        if o.kind == 'err':
            if len(resps) != i + 1:
                return '%d responses, expected %d (last one rejecting the request)' % (len(resps), i + 1)
            if resps[i].status < 400:
                return 'malformed request answered with %d' % resps[i].status
            if not eof:
                return 'connection not closed after a malformed request'
            if getattr(o, 'status', None) and resps[i].status != o.status:
                return 'status %d expected %d' % (resps[i].status, o.status)
            return None
        if o.kind in ('badbody', 'partial'):
            if len(resps) > i + 1:
                return 'responses after an incomplete/invalid request body: %r' % resps[i:]
            if len(resps) == i + 1:
                if not eof:
                    return 'connection kept open although the request body is incomplete/invalid'
                if resps[i].status < 400 and o.kind == 'partial' and o.method != b'HEAD' and resps[i].body != echo(o):
                    return 'response %d: %r expected %r' % (i, resps[i].body, echo(o))
            elif o.kind == 'badbody' and not eof:
                return 'connection kept open after an invalid request body'
            return None
        if len(resps) <= i:
            return 'request %d %r not answered (eof=%r)' % (i, o, eof)
        if resps[i].status != 200:
            return 'valid request %d answered with %d' % (i, resps[i].status)
        if o.method != b'HEAD' and resps[i].body != echo(o):
            return 'request %d: %r expected %r' % (i, resps[i].body, echo(o))
        i += 1
        if early and o.framed and eof and len(resps) == i:
            return None     # answered before the body was there: connection closed
        if o.close:
            if len(resps) != i:
                return 'responses after close'
            if not eof:
                return 'connection not closed'
            return None
    if len(resps) != i:
        return '%d responses, %d requests' % (len(resps), i)
    return None
