"""C21: the angel keeps the service running and only hands out what it was allowed to
The harness (harness/angel.c) runs the real angel library; workers, fork, kill, waitpid, bind are played by the harness."""
import os, struct, itertools, ipaddress, posixpath, fnmatch
import vbuild

MAGIC = 0x8a930a9f - (1 << 32)


def msg(type, id, mod=b'core', action=b'listen', error=b'', data=b'', fds=0, lens=None, magic=MAGIC):
    l = lens or [len(mod), len(action), len(error), len(data)]
    return struct.pack('<8i', magic, type, id, l[0], l[1], l[2], l[3], fds) + mod + action + error + data


# (name, bytes, answers, connection closed)
VALID = [
    ('listen', msg(2, 0, data=b'127.0.0.1'), '0:0:1;', 0),
    ('listen ipv6', msg(2, 1, data=b'[::1]:443'), '1:0:1;', 0),
    ('invalid address', msg(2, 5, data=b'nonsense'), '5:1:0;', 0),
    ('refused address', msg(2, 6, data=b'127.0.0.1:8080'), '6:1:0;', 0),
    ('empty address', msg(2, 3), '3:1:0;', 0),
    ('unknown module', msg(2, 9, mod=b'foo', action=b'bar'), '9:1:0;', 0),
    ('unknown action', msg(2, 7, action=b'none', data=b'x'), '7:1:0;', 0),
    ('empty names', msg(2, 8, mod=b'', action=b''), '8:1:0;', 0),
    ('state', msg(1, -1, action=b'reached-state', data=b'running'), '', 0),
    ('unknown state', msg(1, -1, action=b'reached-state', data=b'flying'), '', 0),
    ('simple listen', msg(1, -1, data=b'127.0.0.1'), '', 0),
    ('simple unknown', msg(1, -1, mod=b'foo', action=b'bar'), '', 0),
    ('large id', msg(2, 0x7fffffff, data=b'x'), '2147483647:1:0;', 0),
    ('NUL in names', msg(2, 4, mod=b'core\0x', action=b'listen\0', data=b'\0'), '4:1:0;', 0),
]
LONG = ('long address', msg(2, 11, data=b'y' * 65000), '11:1:0;', 0)
INVALID = [
    ('magic', msg(2, 0, magic=0x12345678), '', 1),
    ('type 0', msg(0, 0), '', 1), ('type 4', msg(4, 0), '', 1), ('type -1', msg(-1, 0), '', 1),
    ('simple with id', msg(1, 3), '', 1), ('simple with id 0', msg(1, 0), '', 1), ('call without id', msg(2, -1), '', 1),
    ('call id -2', msg(2, -2, data=b'x'), '', 1), ('call id min', msg(2, -(1 << 31), data=b'127.0.0.1'), '', 1), ('call id -5 unknown', msg(2, -5, mod=b'foo'), '', 1),
    ('result 0', msg(3, 0, mod=b'', action=b''), '', 1), ('result -1', msg(3, -1, mod=b'', action=b''), '', 1), ('result 65535', msg(3, 65535, mod=b'', action=b''), '', 1),
    ('result 2^31-1', msg(3, 0x7fffffff, mod=b'', action=b''), '', 1), ('result min', msg(3, -(1 << 31), mod=b'', action=b''), '', 1),
    ('call with error', msg(2, 0, error=b'e'), '', 1), ('simple with error', msg(1, -1, error=b'e'), '', 1),
]
for k in range(4):
    for v in (-1, -32, -(1 << 31)):
        l = [4, 6, 0, 0]
        l[k] = v
        INVALID.append(('length %d of field %d' % (v, k), msg(2, 0, lens=l), '', 1))
INVALID += [
    ('huge data', msg(2, 0, lens=[4, 6, 0, 0x7fffffff]), '', 1),
    ('huge sum', msg(2, 0, lens=[0x7fffffff, 0x7fffffff, 2, 4]), '', 1),
    ('sum wraps to 0', msg(2, 0, lens=[0x40000000, 0x40000000, 0x40000000, 0x40000000]), '', 1),
    ('negative sum of positives', msg(2, 0, lens=[4, 6, 0x40000000, 0x40000000]), '', 1),
]


def stream_cases(thorough):
    def line(parts, cuts):
        data = b''.join(p[1] for p in parts)
        ans, closed = '', 0
        for p in parts:
            if closed:
                break
            ans += p[2]
            closed = p[3]
        cuts = [0] + sorted(cuts) + [len(data)]
        return 'M %s %s %d' % (','.join(data[a:b].hex() for a, b in zip(cuts, cuts[1:])), ans or '-', closed)

    def marks(parts):
        r, o = set(), 0
        for p in parts:
            n = len(p[1])
            for c in (1, 4, 31, 32, 33, n - 1, n, n + 1):
                if 0 < c <= n + 1:
                    r.add(o + c)
            o += n
        return sorted(c for c in r if 0 < c < o)
    every = VALID + INVALID
    for p in every + [LONG]:
        yield line([p], [])
    for p in every:
        for c in range(1, len(p[1])):
            yield line([p], [c])
    for a in VALID:
        for b in every:
            yield line([a, b], [])
            m = marks([a, b])
            for c in m if not thorough else range(1, len(a[1]) + len(b[1])):
                yield line([a, b], [c])
    for a, b in itertools.product(VALID[:3], repeat=2):
        for c, d in itertools.combinations(marks([a, b]), 2):
            yield line([a, b], [c, d])
    for a, b in ((LONG, VALID[0]), (VALID[0], LONG), (LONG, LONG), (LONG, INVALID[0])):
        yield line([a, b], [])
        for c in marks([a, b]):
            yield line([a, b], [c])
    for n in (2, 9, 11, 30):
        for v in VALID[:7]:
            yield line([v] * n, [])
    # descriptors announced but not sent
    for f in (1, 3):
        yield line([('fds', msg(2, 0, data=b'127.0.0.1', fds=f), '', 0)], [])
        yield line([('fds', msg(2, 0, data=b'127.0.0.1', fds=f), '', 1), VALID[0]], [])


MASKS = ['127.0.0.1', '127.0.0.1:8080', '10.0.0.0/8', '10.0.0.0/8:81', '10.1.2.128/25:81', '0.0.0.0/0', '0.0.0.0/0:8080', '::1', '[::1]', '[::1]:8080', '[fe80::/10]', '[::/0]', '[::/0]:443', '[2001:db8::/33]:81',
         'unix:/run/a.sock', 'unix:/run/*.sock', 'unix:/run/l/*', 'unix:/run/?/s', 'unix:/run/*/../s', 'unix:/*']
ADDRS = ['127.0.0.1', '127.0.0.1:80', '127.0.0.1:443', '127.0.0.1:8080', '127.0.0.2', '10.0.0.1', '10.255.255.255:81', '11.0.0.0:81', '10.1.2.127:81', '10.1.2.128:81', '10.1.2.255:81', '10.1.3.128:81', '0.0.0.0', '0.0.0.0:8080', '0.0.0.0:8081',
         '[::1]', '::1', '[::1]:8080', '[::1]:443', '[::]', '[::]:443', '[fe80::1]', '[febf::1]', '[fec0::1]', '[2001:db8::1]:81', '[2001:db8:8000::1]:81', '[2001:db8:7fff::1]:81', '[::ffff:127.0.0.1]', '[::ffff:10.0.0.1]:81',
         'unix:/run/a.sock', 'unix:/run/b.sock', 'unix:/run/.sock', 'unix:/run/.a.sock', 'unix:/run/x/a.sock', 'unix:/run/l/a', 'unix:/run/l/.a', 'unix:/run/l/', 'unix:/run/l/../a.sock', 'unix:/run/l/..', 'unix:/run/x/s', 'unix:/run/./s', 'unix:/run/../s', 'unix:/run/x/../s', 'unix:/a', 'unix:/run/a.sock2',
         'unix:run/a.sock', 'localhost', '', '127.0.0.1:', '127.0.0.256', '127.0.0.1:65536', '127.0.0', '[::1', '1.2.3.4/8', 'unix:/' + 'a' * 101, 'unix:/' + 'a' * 106, 'unix:/' + 'a' * 107, 'unix:/' + 'a' * 200]


def parse_addr(t, masks=False):
    """-> (family, address, bits, port or 0) or None"""
    if t.startswith('unix:/'):
        return ('u', t[5:], 0, 0)
    port = 0
    if t.startswith('['):
        if ']' not in t:
            return None
        a, rest = t[1:].split(']', 1)
        if rest:
            if rest[0] != ':' or not rest[1:].isdigit() or not 0 < int(rest[1:]) < 65536:
                return None
            port = int(rest[1:])
    elif t.count(':') == 1:
        a, p = t.split(':')
        if not p.isdigit() or not 0 < int(p) < 65536:
            return None
        port = int(p)
    else:
        a = t
    bits = None
    if '/' in a:
        if not masks:
            return None
        a, b = a.split('/')
        bits = int(b)
    try:
        ip = ipaddress.ip_address(a)
    except ValueError:
        return None
    if t.startswith('[') != (ip.version == 6) and not (ip.version == 6):
        return None
    return ('%d' % ip.version, ip, ip.max_prefixlen if bits is None else bits, port)


def glob(pat, path):
    """* and ? match no slash, and no leading period"""
    p, t = pat.split('/'), path.split('/')
    if len(p) != len(t):
        return False
    for a, b in zip(p, t):
        if b.startswith('.') and not a.startswith('.'):
            return False
        if not fnmatch.fnmatchcase(b, a):
            return False
    return True


def allowed(masks, a):
    fam, ip, _, port = a
    if fam == 'u':
        return any(m[0] == 'u' and glob(m[1], ip) for m in masks)
    port = port or 80
    if not masks:
        return port in (80, 443)
    for m in masks:
        if m[0] == fam and (int(ip) >> (ip.max_prefixlen - m[2])) == (int(m[1]) >> (ip.max_prefixlen - m[2])) and (port == m[3] or (m[3] == 0 and port in (80, 443))):
            return True
    return False


def bound(a):
    if a[0] == 'u':
        return 'unix:' + a[1]
    return ('%s:%d' if a[0] == '4' else '[%s]:%d') % (ipa(a[1]), a[3] or 80)


def ipa(ip):
    if ip.version == 6 and ip.ipv4_mapped:
        return '::ffff:' + str(ip.ipv4_mapped)
    return str(ip)


def acl_cases(thorough):
    sets = [()] + [(m,) for m in MASKS] + list(itertools.combinations(MASKS, 2)) if thorough else [()] + [(m,) for m in MASKS] + [(a, b) for a, b in itertools.combinations(MASKS, 2) if (MASKS.index(a) + MASKS.index(b)) % 3 == 0]
    for ms in sets:
        conf = ''.join('allow_listen "%s";\n' % m for m in ms) if len(ms) != 2 else 'allow_listen [ "%s", "%s" ];\n' % ms
        pm = [parse_addr(m, True) for m in ms]
        seen, f = set(), []
        for a in ADDRS:
            x = parse_addr(a)
            if x and x[0] == 'u' and len(x[1]) > 107:
                x = None
            b = bound(x) if x and allowed(pm, x) else None
            if b:
                if b in seen:
                    continue  # shares the socket, covered by the histories
                seen.add(b)
            f.append((a.encode().hex() or '00') + ' ' + (b.encode().hex() if b else '-'))
        yield 'L %s %s' % (conf.encode().hex() or '0a', ' '.join(f))


LOGS = ['/var/log/lighttpd2/a.log', '/var/log/lighttpd2/x/a.log', '/var/log/lighttpd2/../a.log', '/var/log/lighttpd2/x/../a.log', '/var/log/lighttpd2/./a.log', '/var/log/lighttpd2//a.log', '/var/log/lighttpd2/x/../../a.log', '/var/log/lighttpd2',
        '/var/log/lighttpd2x/a.log', '/var/log/x/../lighttpd2/a.log', 'var/log/lighttpd2/a.log', '/etc/passwd', '', '/var/log/lighttpd2/../../../etc/passwd', '/var/log/lighttpd2/..', '/var/log/lighttpd2/x/..', '/var/log/lighttpd2/.../a', '/var/log/lighttpd2/..a', '../var/log/lighttpd2/a']


def log_cases():
    comps = ['a', '..', '.', '', 'lighttpd2', 'x..']
    paths = list(LOGS)
    for n in (1, 2, 3, 4):
        for c in itertools.product(comps, repeat=n):
            paths.append('/var/log/lighttpd2/' + '/'.join(c))
            if n < 4:
                paths.append('/var/log/' + '/'.join(c) + '/lighttpd2/b')
    for p in paths:
        n = posixpath.normpath('/' + p)
        if n.startswith('//'):
            n = n[1:]
        if p.endswith(('/', '/.', '/..')) and n != '/':
            n += '/'
        ok = n.startswith('/var/log/lighttpd2/')
        yield 'O %s %s' % (p.encode().hex() or '00', n.encode().hex() if ok else '-')


def run(ctx):
    exe = vbuild.harness('angel', [os.path.join(vbuild.VERIF, 'harness', 'angel.c')], cfg='asan', angel=True)
    N = 8

    def life(group, depth, kind, prefixes):
        if os.environ.get('VC_ONLY') and os.environ['VC_ONLY'] not in group:
            return
        ctx.cexplore(group, exe, [['life', depth, kind, i, N, p] for p in prefixes for i in range(N)])

    def file(group, lines):
        if os.environ.get('VC_ONLY') and os.environ['VC_ONLY'] not in group:
            return
        path = os.path.join(ctx.tmp, 'cases-%s.txt' % group.replace(' ', '-'))
        with open(path, 'w') as f:
            for l in lines:
                f.write(l + '\n')
        ctx.cexplore(group, exe, [['file', path, i, N] for i in range(N)])
    t = 1 if ctx.thorough else 0
    up = 'S0 W0 R0'
    life('worker life cycle', 4 + t, 0, ['', up])
    life('graceful restart', 3 + 2 * t, 0, [up + ' H', up + ' H S1', up + ' H S1 W1', up + ' H S1 W1 G0', up + ' H S1 W1 G0 S0', up + ' H S1 W1 k1'])
    life('after a crash', 4 + t, 0, ['k0', up + ' k0', up + ' H k0', up + ' F k0'])
    life('misbehaving workers', 3 + t, 1, ['', up, up + ' H', up + ' H S1 W1'])
    life('shared listening sockets', 3 + t, 2, ['', up + ' l0', up + ' l0 H', up + ' l0 m0 H S1 l1', up + ' l0 H S1 l1 m1 W1'])
    file('messages and cuts', stream_cases(ctx.thorough))
    file('listen permissions', acl_cases(ctx.thorough))
    file('log files', log_cases())
