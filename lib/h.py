"""shared helpers for the checks"""
import itertools, os
from sim import *
import http1
from http1 import parse_responses, Bad


def conf(body, modules=(), setup='', listen='127.0.0.1:80', threads=0):
    ml = 'module_load [%s];' % ', '.join('"%s"' % m for m in modules) if modules else ''
    return 'setup {\n %s\n listen "%s";\n tasklet_pool.threads %d;\n %s\n}\n%s\n' % (ml, listen, threads, setup, body)


def req(method='GET', path='/', headers=(), body=b'', version='1.1', host='x', eol='\r\n'):
    l = ['%s %s HTTP/%s' % (method, path, version)]
    if host is not None:
        l.append('Host: ' + host)
    for k, v in headers:
        l.append('%s: %s' % (k, v))
    d = (eol.join(l) + eol + eol).encode('latin-1')
    return d + (body.encode('latin-1') if isinstance(body, str) else body)


def chunked(data, sizes, last=b'0\r\n\r\n'):
    if isinstance(data, str):
        data = data.encode('latin-1')
    out = b''
    p = 0
    for n in sizes:
        d = data[p:p + n]
        p += n
        out += b'%x\r\n' % len(d) + d + b'\r\n'
    assert p == len(data), (p, len(data))
    return out + last


def parse_scgi(d):
    """-> (env dict list, body) or raises"""
    n, c, rest = d.partition(b':')
    n = int(n)
    if len(rest) < n + 1:
        raise Bad('scgi: short netstring %d < %d' % (len(rest), n + 1))
    hdr = rest[:n]
    if rest[n:n + 1] != b',':
        raise Bad('scgi: netstring not terminated')
    parts = hdr.split(b'\0')
    if parts[-1] != b'' or len(parts) % 2 != 1:
        raise Bad('scgi: odd header list')
    env = [(parts[i].decode('latin-1'), parts[i + 1].decode('latin-1')) for i in range(0, len(parts) - 1, 2)]
    return env, rest[n + 1:]


def short(b, n=160):
    if b is None:
        return 'None'
    return repr(b[:n]) + ('...(%d)' % len(b) if len(b) > n else '')


def splits2(n):
    for i in range(1, n):
        yield (i,)


def splits3(n, step=1):
    for i in range(1, n, step):
        for j in range(i + 1, n, step):
            yield (i, j)


def parts(data, cuts):
    out = []
    a = 0
    for c in list(cuts) + [len(data)]:
        out.append(data[a:c])
        a = c
    return out


def bodies(res, k, methods):
    """parsed responses of slot k or an error string"""
    try:
        rs, left = parse_responses(res.data.get(k, b''), res.eof.get(k), methods)
    except Bad as e:
        return None, 'unparsable response stream: %s in %s' % (e, short(res.data.get(k), 400))
    return (rs, left), None
