"""C06: static files: exact bytes, Range handling, MIME type, exclusion, methods"""
import itertools, re
from h import *

BIG = b''.join(b'%07d\n' % i for i in range(40000))     # 320000 bytes
FILES = {'f0.txt': b'', 'f1.txt': b'X', 'f2.txt': b'ab', 'f10.txt': b'0123456789', 'big.bin': BIG}
MIME = {'.txt': 'text/plain', '.gz': 'application/gzip', '.tar.gz': 'application/x-tgz', 'README': 'text/readme', '.b.txt': 'text/b', 't': 'x/t', '.c': 'text/c', '\u00ff'.encode('latin-1').decode('latin-1'): 'x/ff'}
MIME.pop('\u00ff')
NAMES = [''.join(t) for k in (1, 2, 3) for t in itertools.product(['a', '.txt', '.gz', '.tar', 'README', '.b', '.c', 't', '.'], repeat=k)]
NAMES = sorted(set(n for n in NAMES if n not in ('.', '..')))
EXCL = ['.php', '~', '.inc']
XNAMES = ['a.php', '.php', 'php', 'a.phpx', 'a~', '~', 'a~b', 'a.inc', 'x.php.txt', 'a.PHP', 'inc', 'd.php/f.txt']


def setup(wd):
    d = os.path.join(wd, 'doc')
    os.makedirs(os.path.join(d, 'dir'), exist_ok=True)
    os.makedirs(os.path.join(d, 'm'), exist_ok=True)
    os.makedirs(os.path.join(d, 'x', 'd.php'), exist_ok=True)
    for n, v in FILES.items():
        put(os.path.join(d, n), v)
    for n in NAMES:
        put(os.path.join(d, 'm', n), n.encode())
    for n in XNAMES:
        put(os.path.join(d, 'x', n), n.encode())
    f = os.path.join(d, 'fifo')
    if not os.path.exists(f):
        os.mkfifo(f)


def put(p, v):
    with open(p, 'wb') as f:
        f.write(v)
    os.utime(p, (1600000000, 1600000000))


def config(wd):
    mt = ', '.join('"%s" => "%s"' % kv for kv in MIME.items())
    return conf('''
mime_types [ ".txt" => "overwritten/later", %s ];
static.exclude_extensions [ ".php", "~", ".inc" ];
docroot "%s/doc";
if req.host == "norange" { static.range_requests false; }
if req.host == "sync" { stat.async false; }
if req.host == "nofail" { static_no_fail; respond 200 => "fallback"; } else { static; }
''' % (mt, wd))


def mime(name):
    best = None
    for s, t in MIME.items():
        if name.endswith(s) and (best is None or len(s) > len(best)):
            best = s
    return MIME[best] if best else 'application/octet-stream'


OWS = r'[ \t]*'
R1 = r'(?:(\d+)' + OWS + '-' + OWS + r'(\d*)|-' + OWS + r'(\d+))'


def parse_range(v, n):
    """-> None (syntactically invalid) or the list of satisfiable (first, last)"""
    m = re.match(r'^bytes=(.*)$', v)
    if not m:
        return None
    out = []
    cnt = 0
    for e in m.group(1).split(','):
        e = e.strip(' \t')
        if not e:
            continue
        cnt += 1
        x = re.match('^' + R1 + '$', e)
        if not x:
            return None
        if x.group(3) is not None:
            k = int(x.group(3))
            if k >= 2 ** 60:
                return None
            a, b = max(0, n - k), n - 1
            if k == 0:
                continue
        else:
            a = int(x.group(1))
            b = int(x.group(2)) if x.group(2) else n - 1
            if a >= 2 ** 60 or b >= 2 ** 60:
                return None
            if x.group(2) and a > b:
                # RFC: invalid spec; lighttpd skips the element
                return 'inverted'
            b = min(b, n - 1)
        if a <= b:
            out.append((a, b))
    if not cnt:
        return None
    return out


BOUND = re.compile(r'^multipart/byteranges;\s*boundary=([^ ;]+)$')


def parse_multi(x, data, mt):
    m = BOUND.match(x.one('content-type') or '')
    if not m:
        return None, 'no content-range and no multipart: %r' % x.headers
    b = m.group(1).encode()
    s = x.body
    parts_ = []
    if not s.startswith(b'\r\n--' + b):
        return None, 'multipart does not start with a delimiter: %s' % short(s)
    pos = 0
    while True:
        d = b'\r\n--' + b
        if s[pos:pos + len(d)] != d:
            return None, 'multipart: no delimiter at %d' % pos
        pos += len(d)
        if s[pos:pos + 2] == b'--':
            if s[pos + 2:] not in (b'', b'\r\n'):
                return None, 'multipart: trailing data'
            return parts_, None
        if s[pos:pos + 2] != b'\r\n':
            return None, 'multipart: delimiter line'
        pos += 2
        e = s.index(b'\r\n\r\n', pos)
        hd = dict((l.split(':', 1)[0].lower(), l.split(':', 1)[1].strip()) for l in s[pos:e].decode('latin-1').split('\r\n') if ':' in l)
        pos = e + 4
        c = re.match(r'^bytes (\d+)-(\d+)/(\d+)$', hd.get('content-range', ''))
        if not c:
            return None, 'multipart: part without range'
        a, z, n = map(int, c.groups())
        if n != len(data) or a > z or z >= n:
            return None, 'multipart: bad range %r' % (c.group(0),)
        if hd.get('content-type') != mt:
            return None, 'multipart: content type %r' % hd
        if s[pos:pos + z - a + 1] != data[a:z + 1]:
            return None, 'multipart: part %d-%d has wrong bytes' % (a, z)
        pos += z - a + 1
        parts_.append((a, z))


def got_ranges(x, data, mt):
    cr = x.one('content-range')
    if cr:
        c = re.match(r'^bytes (\d+)-(\d+)/(\d+)$', cr)
        if not c:
            return None, 'content-range %r' % cr
        a, z, n = map(int, c.groups())
        if n != len(data) or a > z or z >= n:
            return None, 'content-range %r' % cr
        if x.body != data[a:z + 1]:
            return None, 'range %d-%d: wrong bytes %s' % (a, z, short(x.body))
        if x.one('content-type') != mt:
            return None, 'content type %r' % x.one('content-type')
        return [(a, z)], None
    return parse_multi(x, data, mt)


def resp(r, m):
    rs, err = bodies(r, 0, [m])
    if err:
        return None, err
    rs, left = rs
    if left or len(rs) != 1 or not rs[0].complete:
        return None, 'no complete response: %s' % short(r.data.get(0))
    return rs[0], None


def rjudge(key, r):
    host, m, name, rng = key
    x, err = resp(r, m)
    if err:
        return err
    data = FILES[name]
    mt = mime(name)
    exp = parse_range(rng, len(data)) if rng is not None and host != 'norange' else 'none'
    full = x.status == 200 and (m == 'HEAD' or x.body == data) and x.one('content-type') == mt and not x.get('content-range') and x.one('content-length') in ((str(len(data)), None) if m == 'HEAD' else (str(len(data)),))
    if host != 'norange':
        if x.one('accept-ranges') != 'bytes' and x.status in (200, 206):
            return 'no Accept-Ranges'
    elif x.get('accept-ranges'):
        return 'Accept-Ranges although disabled'
    if exp == 'none':
        return None if full else 'expected the complete file, got %r %s' % (x, short(x.body))
    ok416 = x.status == 416 and x.one('content-range') == 'bytes */%d' % len(data)
    if exp is None or exp == 'inverted':
        if full or ok416:
            return None
        if x.status != 206:
            return 'invalid range: status %d' % x.status
        if m == 'HEAD':
            return None
        got, err = got_ranges(x, data, mt)
        return err
    if not exp:
        return None if ok416 else 'expected 416, got %r' % x
    if x.status != 206:
        return 'expected 206, got %d' % x.status
    if m == 'HEAD':
        if not x.one('content-length'):
            return 'HEAD without content-length'
        if x.one('content-range'):
            if x.one('content-range') != 'bytes %d-%d/%d' % (exp[0] + (len(data),)) or int(x.one('content-length')) != exp[0][1] - exp[0][0] + 1:
                return 'HEAD range headers: %r' % x.headers
        return None
    got, err = got_ranges(x, data, mt)
    if err:
        return err
    if got != exp:
        return 'ranges %r expected %r' % (got, exp)
    return None


def rcases(th):
    seen = set()

    def emit(host, m, n, rng):
        k = (host, m, n, rng)
        if k in seen:
            return
        seen.add(k)
        h = [] if rng is None else [('Range', rng)]
        s = Script().connect(0).send(0, req(m, '/' + n, h, host=host)).q().drain(0)
        if n == 'big.bin':
            for _ in range(12):
                s.q().drain(0)
        yield k, s.reset()
    nums = ['', '0', '1', '2', '5', '9', '10', '11', '00', '99999999999999999999', '9223372036854775807']
    elems = [a + '-' + b for a in nums for b in nums]
    for n in FILES:
        for host in ('x', 'norange', 'sync'):
            for m in ('GET', 'HEAD'):
                yield from emit(host, m, n, None)
                for e in elems:
                    yield from emit(host, m, n, 'bytes=' + e)
    small = ['0-0', '0-', '-1', '-3', '1-2', '5-9', '9-9', '10-12', '3-100', '-0', '9-5', '', ' ', 'x', '1', '-', '2-2 ']
    for n in ('f0.txt', 'f1.txt', 'f2.txt', 'f10.txt'):
        for a in small:
            for b in small:
                yield from emit('x', 'GET', n, 'bytes=' + a + ',' + b)
                yield from emit('x', 'HEAD', n, 'bytes=' + a + ', ' + b)
                if th or (a and b):
                    for c in (small if th else small[:9]):
                        yield from emit('x', 'GET', n, 'bytes=' + a + ',' + b + ',' + c)
    for v in ('', 'bytes', 'bytes=', 'bytes=,', 'byte=0-1', 'bytes 0-1', 'Bytes=0-1', 'items=0-1', 'bytes=0-1;', 'bytes=0--1', 'bytes==0-1', 'bytes=0x0-1', ' bytes=0-1', 'bytes =0-1', 'bytes= 0-1', 'bytes=0 -1', 'bytes=0- 1', 'bytes=0-1 ', 'bytes=0-1,,,', 'bytes=,,0-1', 'bytes=0-1,0-1,0-1,0-1'):
        for n in ('f2.txt', 'f10.txt'):
            for m in ('GET', 'HEAD'):
                yield from emit('x', m, n, v)
    # token level enumeration
    tok = ['0', '1', '9', '-', ',', ' ', 'x']
    for k in range(1, 8 if th else 7):
        for t in itertools.product(tok, repeat=k):
            yield from emit('x', 'GET', 'f10.txt', 'bytes=' + ''.join(t))
    L = len(BIG)
    cut = [0, 1, 8191, 8192, 16383, 16384, 16385, 32767, 32768, 65535, 65536, 65537, 131071, 131072, L - 2, L - 1, L, L + 1]
    for a in cut:
        for b in cut:
            yield from emit('x', 'GET', 'big.bin', 'bytes=%d-%d' % (a, b))
            if th:
                for c in (0, 16384, 65536, L - 1):
                    yield from emit('x', 'GET', 'big.bin', 'bytes=%d-%d,%d-' % (a, b, c))
        yield from emit('x', 'GET', 'big.bin', 'bytes=-%d' % a)
        yield from emit('x', 'GET', 'big.bin', 'bytes=%d-%d,-%d' % (a, a + 3, a))


def mcases():
    for n in NAMES:
        for m in ('GET', 'HEAD'):
            for host in ('x', 'nofail'):
                yield (host, m, 'm/' + n), Script().connect(0).send(0, req(m, '/m/' + n, host=host)).q().drain(0).reset()
    for n in XNAMES + ['missing', 'missing.php', 'a.php/', 'd.php', 'a.inc/x']:
        for m in ('GET', 'HEAD', 'POST', 'PUT', 'DELETE', 'OPTIONS'):
            for host in ('x', 'nofail', 'sync'):
                yield (host, m, 'x/' + n), Script().connect(0).send(0, req(m, '/x/' + n, [('Content-Length', '0')], host=host)).q().drain(0).reset()
    for n in ('fifo', 'dir', 'f10.txt'):
        for m in ('GET', 'HEAD', 'POST', 'PUT', 'DELETE', 'OPTIONS'):
            for host in ('x', 'nofail', 'sync'):
                yield (host, m, n), Script().connect(0).send(0, req(m, '/' + n, [('Content-Length', '0')], host=host)).q().drain(0).reset()


def mjudge(key, r):
    host, m, n = key
    x, err = resp(r, m)
    if err:
        return err
    fallback = x.status == 200 and (m == 'HEAD' or x.body == b'fallback')

    def no(*st):
        if host == 'nofail':
            return None if fallback else 'expected the fallback, got %d %s' % (x.status, short(x.body))
        return None if x.status in st else 'expected status %r, got %d' % (st, x.status)
    if m not in ('GET', 'HEAD'):
        e = no(405)
        if e or host == 'nofail':
            return e
        return None if x.one('allow') == 'GET, HEAD' else 'Allow: %r' % x.get('allow')
    base = n.rsplit('/', 1)[-1]
    pure = n.split('/', 1)[1] if '/' in n else n
    exists = (n.startswith('m/') and pure in NAMES) or (n.startswith('x/') and pure in XNAMES) or n == 'f10.txt'
    if base and any(base.endswith(e) for e in EXCL):
        return no(403)
    if not exists:
        return no(403, 404)
    data = FILES[n] if n in FILES else pure.encode()
    if x.status != 200 or (m == 'GET' and x.body != data):
        return 'expected %r, got %d %s' % (data, x.status, short(x.body))
    if x.one('content-type') != mime(base):
        return 'content-type %r expected %r' % (x.one('content-type'), mime(base))
    return None


def run(ctx):
    th = ctx.thorough
    ctx.rules.append('every Range value of the enumerated grammar x file sizes x methods x configurations; every file name over the suffix alphabet; responses compared byte for byte with slices of the file')
    ctx.explore('ranges', config, lambda: rcases(th), rjudge, setup=setup, batch=32)
    ctx.explore('mime types, exclusion, methods', config, mcases, mjudge, setup=setup, batch=32)
