"""Strict client side HTTP/1.x response parser (the oracle's view of the wire)."""
import re

TOKEN = re.compile(rb"^[!#$%&'*+\-.^_`|~0-9A-Za-z]+$")


class Bad(Exception):
    pass


class Resp:
    __slots__ = ('status', 'version', 'reason', 'headers', 'body', 'complete', 'framing', 'close', 'raw_head', 'trailing')

    def get(self, name):
        name = name.lower()
        return [v for k, v in self.headers if k.lower() == name]

    def one(self, name):
        v = self.get(name)
        return v[0] if v else None

    def __repr__(self):
        return 'Resp(%d,%s,%r,%s)' % (self.status, self.framing, self.body[:80], 'complete' if self.complete else 'INCOMPLETE')


def parse_head(data, pos):
    e = data.find(b'\r\n\r\n', pos)
    if e < 0:
        return None
    lines = data[pos:e].split(b'\r\n')
    m = re.match(rb'^HTTP/(1\.[01]) ([1-9][0-9][0-9]) (.*)$', lines[0], re.S)
    if not m:
        raise Bad('bad status line %r' % lines[0][:100])
    hs = []
    for l in lines[1:]:
        if b'\n' in l or b'\r' in l or b'\0' in l:
            raise Bad('control characters in header line %r' % l[:100])
        k, c, v = l.partition(b':')
        if not c or not TOKEN.match(k):
            raise Bad('bad header line %r' % l[:100])
        hs.append((k.decode('latin-1'), v.strip(b' \t').decode('latin-1')))
    r = Resp()
    r.version = m.group(1).decode()
    r.status = int(m.group(2))
    r.reason = m.group(3).decode('latin-1')
    r.headers = hs
    r.body = b''
    r.complete = False
    r.framing = None
    r.close = False
    r.raw_head = data[pos:e + 4]
    r.trailing = []
    return r, e + 4


def parse_responses(data, eof, methods):
    """methods: request methods in order.  returns (list of Resp, leftover bytes).
    raises Bad for anything a strict recipient cannot frame unambiguously"""
    out = []
    pos = 0
    mi = 0
    while pos < len(data):
        h = parse_head(data, pos)
        if h is None:
            return out, data[pos:]
        r, pos = h
        if r.status // 100 == 1:
            out.append(r)
            r.complete = True
            r.framing = 'interim'
            continue
        method = methods[mi] if mi < len(methods) else None
        mi += 1
        cl = r.get('content-length')
        te = r.get('transfer-encoding')
        con = ','.join(r.get('connection')).lower()
        toks = [t.strip() for t in con.split(',')]
        r.close = 'close' in toks or (r.version == '1.0' and 'keep-alive' not in toks)
        if len(set(cl)) > 1 or len(cl) > 1:
            raise Bad('several Content-Length headers %r' % cl)
        if cl and not re.match(r'^[0-9]+$', cl[0]):
            raise Bad('bad Content-Length %r' % cl)
        if te and cl:
            raise Bad('both Content-Length and Transfer-Encoding')
        if te and r.version == '1.0':
            raise Bad('Transfer-Encoding in an HTTP/1.0 response')
        out.append(r)
        if method == 'HEAD' or r.status in (204, 304):
            r.complete = True
            r.framing = 'nobody'
            if te and r.status == 204:
                raise Bad('Transfer-Encoding in 204')
        elif te:
            if [t.strip().lower() for t in ','.join(te).split(',')] != ['chunked']:
                raise Bad('unexpected transfer coding %r' % te)
            r.framing = 'chunked'
            body = bytearray()
            while True:
                e = data.find(b'\r\n', pos)
                if e < 0:
                    r.body = bytes(body)
                    return out, data[pos:]
                m = re.match(rb'^([0-9a-fA-F]+)(?:;.*)?$', data[pos:e])
                if not m:
                    raise Bad('bad chunk header %r' % data[pos:e][:60])
                n = int(m.group(1), 16)
                pos = e + 2
                if n == 0:
                    while True:
                        e = data.find(b'\r\n', pos)
                        if e < 0:
                            r.body = bytes(body)
                            return out, data[pos:]
                        l = data[pos:e]
                        pos = e + 2
                        if not l:
                            break
                        r.trailing.append(l)
                    r.complete = True
                    break
                body += data[pos:pos + n]
                if pos + n + 2 > len(data):
                    r.body = bytes(body)
                    if pos + n < len(data) and data[pos + n:pos + n + 1] != b'\r':
                        raise Bad('chunk not terminated by CRLF')
                    return out, b''
                if data[pos + n:pos + n + 2] != b'\r\n':
                    raise Bad('chunk not terminated by CRLF')
                pos += n + 2
            r.body = bytes(body)
        elif cl:
            n = int(cl[0])
            r.framing = 'length'
            r.body = data[pos:pos + n]
            pos += n
            r.complete = len(r.body) == n
            if not r.complete:
                return out, b''
        else:
            r.framing = 'close'
            r.body = data[pos:]
            pos = len(data)
            r.complete = bool(eof)
            r.close = True
    return out, b''
