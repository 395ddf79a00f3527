"""C13: address based rules: access.check, remoteip/localip conditions, address parsing, longest prefix tree"""
import ipaddress, itertools, re, subprocess
import vbuild
from h import *

# ---------------------------------------------------------------- access.check rule sets
N4 = ['all', '10.0.0.0/8', '10.1.0.0/16', '10.1.2.0/24', '10.1.2.3', '10.1.2.2/31', '128.0.0.0/1', '10.1.2.77/25', '10.1.2.3/32', '0.0.0.0/0']
N6 = ['all', '2001:db8::/32', '2001:db8::/31', '2001:db8:0:1::/64', '2001:db8:0:1:2:3:4:5', '2001:db8:8000::/33', '8000::/1', '[2001:db8:0:1:2:3:4:4]/127', '::ffff:10.1.2.3/128', '2001:0DB8:0:1:ffff:0:0:0/65']
P4 = ['0.0.0.0', '9.255.255.255', '10.0.0.0', '10.0.255.255', '10.1.0.0', '10.1.1.255', '10.1.2.0', '10.1.2.2', '10.1.2.3', '10.1.2.4', '10.1.2.127', '10.1.2.128', '10.1.2.255', '10.1.3.0', '10.2.0.0', '11.0.0.0', '127.255.255.255', '128.0.0.0', '255.255.255.255']
P6 = ['::', '::ffff:10.1.2.3', '::ffff:10.1.2.4', '2001:db7:ffff:ffff::', '2001:db8::', '2001:db8:0:1::', '2001:db8:0:1:2:3:4:3', '2001:db8:0:1:2:3:4:4', '2001:db8:0:1:2:3:4:5', '2001:db8:0:1:2:3:4:6', '2001:db8:0:1:7fff:ffff:ffff:ffff', '2001:db8:0:1:8000::', '2001:db8:0:2::', '2001:db8:7fff:ffff:ffff::', '2001:db8:8000::', '2001:db8:ffff::1', '2001:db9::', '2001:dba::', '7fff::', '8000::', 'ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff']


def net(n, v):
    if n == 'all':
        return ipaddress.ip_network('0.0.0.0/0' if v == 4 else '::/0')
    return ipaddress.ip_network(n.replace('[', '').replace(']', ''), strict=False)


def rulesets(v, th):
    """tuples of (allow list, deny list, deny first)"""
    N = N4 if v == 4 else N6
    out = []
    for k in range(0, 5 if th else 4):
        for sub in itertools.combinations(range(len(N)), k):
            for signs in itertools.product((0, 1), repeat=k):
                al = tuple(i for i, s in zip(sub, signs) if not s)
                de = tuple(i for i, s in zip(sub, signs) if s)
                out.append((al, de, 0))
                if k and (k < 3 or th):
                    out.append((al, de, 1))
                if k == 2 and not th or k == 3 and th:
                    out.append((al[::-1], de[::-1], 2))      # reversed insertion order
    return out


def decide(v, rs, peer):
    N = N4 if v == 4 else N6
    al, de, order = rs
    a = ipaddress.ip_address(peer)
    best = (-1, 0, 'deny')
    seq = [(i, 'deny') for i in de] + [(i, 'allow') for i in al] if order == 1 else [(i, 'allow') for i in al] + [(i, 'deny') for i in de]
    res = (0, 'deny')
    for i, what in seq:
        nn = net(N[i], v)
        if a in nn and nn.prefixlen >= res[0]:
            res = (nn.prefixlen, what)     # an equal network given later replaces the earlier one
    return res[1]


def access_config(v, block, th):
    N = N4 if v == 4 else N6
    l = []

    def act(rs):
        al, de, order = rs
        q = lambda x: ', '.join('"%s"' % N[i] for i in x)
        A = '"allow" => [%s]' % q(al) if al else None
        D = '"deny" => [%s]' % q(de) if de else None
        if not A and not D:
            A = '"allow" => [[]]'
            return 'access.check ["allow" => []];'
        both = [D, A] if order == 1 else [A, D]
        return 'access.check [%s];' % ', '.join(x for x in both if x)
    # dispatch on two digits to keep the condition chains short
    groups = {}
    for i, rs in block:
        groups.setdefault(i // 64, []).append((i, rs))
    for g, items in groups.items():
        l.append('if req.path =^ "/%d/" {' % g)
        for j, (i, rs) in enumerate(items):
            l.append(' %sif req.path == "/%d/%d" { %s }' % ('else ' if j else '', g, i, act(rs)))
        l.append('}')
    l.append('respond 200 => "in";')
    return conf('\n'.join(l), ['mod_access'], listen='127.0.0.1:80' if v == 4 else '[::1]:80')


def access_cases(v, block):
    peers = P4 if v == 4 else P6
    B = 32
    for p in peers:
        for b in range(0, len(block), B):
            sub = block[b:b + B]
            sc = Script().connect(0, peer=p)
            sc.send(0, b''.join(req('GET', '/%d/%d' % (i // 64, i)) for i, rs in sub)).q().drain(0).reset()
            yield (v, p, tuple(sub)), sc


def access_judge(key, r):
    v, p, sub = key
    rs, err = bodies(r, 0, ['GET'] * len(sub))
    if err:
        return err
    rs = rs[0]
    if len(rs) != len(sub):
        return '%d responses for %d requests' % (len(rs), len(sub))
    for (i, rule), x in zip(sub, rs):
        want = decide(v, rule, p)
        N = N4 if v == 4 else N6
        if (x.status == 200) != (want == 'allow') or x.status not in (200, 403) or (x.status == 200 and x.body != b'in'):
            return 'peer %s, allow %r deny %r (order %d): status %d, expected %s' % (p, [N[k] for k in rule[0]], [N[k] for k in rule[1]], rule[2], x.status, want)


# ---------------------------------------------------------------- conditions: every prefix length against every flipped bit
BASE4 = '172.21.170.85'
BASE6 = '2a5a:a5a5:3c3c:c3c3:f00f:f00:55aa:aa55'


def cond_config(v):
    bits, base = (32, BASE4) if v == 4 else (128, BASE6)
    # nested respond: answers contain one bit per condition
    l = ['header.overwrite "X-R" => "";']
    for n in range(bits + 1):
        l.append('if req.remoteip =/ "%s/%d" { header.append "X-R" => "1"; } else { header.append "X-R" => "0"; }' % (base, n))
        l.append('if req.remoteip !/ "%s/%d" { header.append "X-N" => "1"; } else { header.append "X-N" => "0"; }' % (base, n))
        l.append('if req.query =/ "%s/%d" { header.append "X-H" => "1"; } else { header.append "X-H" => "0"; }' % (base, n))
    eq = base if v == 4 else str(ipaddress.ip_address(base))
    l.append('if req.remoteip == "%s" { header.append "X-E" => "1"; } else { header.append "X-E" => "0"; }' % eq)
    l.append('if req.remoteip != "%s" { header.append "X-E" => "1"; } else { header.append "X-E" => "0"; }' % eq)
    l.append('if req.remoteip =/ "%s" { header.append "X-E" => "1"; } else { header.append "X-E" => "0"; }' % base)
    l.append('if req.remoteip =/ "%s" { header.append "X-E" => "1"; } else { header.append "X-E" => "0"; }' % ('::/0' if v == 4 else '0.0.0.0/0'))
    l.append('if req.remoteport == 1234 { header.append "X-E" => "1"; } else { header.append "X-E" => "0"; }')
    l.append('respond 200 => "%{req.remoteip}|%{req.remoteport}|%{req.localip}|%{req.localport}";')
    return conf('\n'.join(l), listen='127.0.0.1:80' if v == 4 else '[::1]:80')


def cond_cases(v, th):
    bits, base = (32, BASE4) if v == 4 else (128, BASE6)
    b = int(ipaddress.ip_address(base))
    mk = ipaddress.IPv4Address if v == 4 else ipaddress.IPv6Address
    addrs = [b] + [b ^ (1 << k) for k in range(bits)] + [b ^ ((1 << k) - 1) for k in range(2, bits + 1)]
    if th:
        addrs += [b ^ (1 << k) ^ (1 << j) for k in range(bits) for j in range(k)]
    for i, a in enumerate(addrs):
        p = str(mk(a))
        port = 1234 if i % 3 == 0 else 50000 + i % 1000
        yield (v, p, port), Script().connect(0, peer=p, port=port).send(0, req('GET', '/?' + (mk(a).exploded if i % 2 and v == 6 else p))).q().drain(0).reset()


def cond_judge(key, r):
    v, p, port = key
    bits, base = (32, BASE4) if v == 4 else (128, BASE6)
    rs, err = bodies(r, 0, ['GET'])
    if err or not rs[0]:
        return err or 'no response'
    x = rs[0][0]
    if x.status != 200:
        return 'status %d' % x.status
    a = ipaddress.ip_address(p)
    inn = ['01'[a in ipaddress.ip_network('%s/%d' % (base, n), strict=False)] for n in range(bits + 1)]
    got = lambda h: re.sub('[, ]', '', x.one(h) or '')
    if got('X-R') != ''.join(inn) or got('X-H') != ''.join(inn):
        return 'peer %s in %s/n for n=0..%d: remoteip %s query %s expected %s' % (p, base, bits, got('X-R'), got('X-H'), ''.join(inn))
    if got('X-N') != ''.join('10'[int(c)] for c in inn):
        return 'peer %s not in %s/n for n=0..%d: %s expected the inverse of %s' % (p, base, bits, got('X-N'), ''.join(inn))
    same = int(a == ipaddress.ip_address(base))
    e = '%d%d%d0%d' % (same, 1 - same, same, port == 1234)
    if got('X-E') != e:
        return 'peer %s port %d: equality results %s expected %s' % (p, port, got('X-E'), e)
    body = x.body.decode().split('|')
    if ipaddress.ip_address(body[0]) != a or body[1] != str(port) or body[2] != ('127.0.0.1' if v == 4 else '::1') or body[3] != '80':
        return 'address variables %r for peer %s port %d' % (body, p, port)


# ---------------------------------------------------------------- parsers
T4 = ['0', '1', '25', '255', '256', '.', '/', ':', '8', '33', ' ', 'a', '[', '-']
T6 = ['0', '1', 'f', '12345', 'ABCD', ':', '::', '.', '/', '[', ']', '255', '1.2.3.4', '64', '129', ' ']


def model(s):
    """expected result of the 4+4 parser variants"""
    # what follows white space is ignored (documented in the grammar: "end = space | 0")
    s0 = re.split(r'[ \t\n\v\f\r]', s, maxsplit=1)[0]
    out = []
    m = re.fullmatch(r'(\d+)\.(\d+)\.(\d+)\.(\d+)(?:/(\d+))?(?::(\d+))?', s0)
    for c in range(4):
        r = '-'
        if m:
            o = [int(m.group(i)) for i in range(1, 5)]
            mask, port = m.group(5), m.group(6)
            if max(o) < 256 and (mask is None or (c & 1 and int(mask) <= 32)) and (port is None or (c & 2 and int(port) < 65536)):
                r = '%02x%02x%02x%02x' % tuple(o)
                if c & 1:
                    r += '/%08x' % (0xffffffff & ~((1 << (32 - int(mask))) - 1) if mask is not None else 0xffffffff)
                if c & 2:
                    r += ':%d' % int(port or 0)
        out.append(r)
    m = re.fullmatch(r'(\[)?([0-9a-fA-F:.]+)(?:/(\d+))?(\])?(?:/(\d+))?(?::(\d+))?', s0)
    for c in range(4):
        r = '-'
        if m:
            br, ad, n1, cl, n2, port = m.groups()
            ok = bool(br) == bool(cl) and not (n1 is not None and n2 is not None) and not (n2 is not None and not br) and not (port is not None and not br)
            n = n1 if n1 is not None else n2
            ok = ok and (n is None or (c & 1 and int(n) <= 128)) and (port is None or (c & 2 and int(port) < 65536))
            a = v6(ad) if ok else None
            if a is not None:
                r = a.hex()
                if c & 1:
                    r += '/%d' % int(n if n is not None else 128)
                if c & 2:
                    r += ':%d' % int(port or 0)
                r = (r, a)
        out.append(r)
    return out


def v6(ad):
    """RFC 4291 textual form -> 16 bytes or None"""
    tail = b''
    m = re.search(r'(^|:)(\d+\.\d+\.\d+\.\d+)$', ad)
    if m:
        o = [int(x) for x in m.group(2).split('.')]
        if max(o) > 255:
            return None
        tail = bytes(o)
        ad = ad[:m.start(2)] + '%x:%x' % (o[0] << 8 | o[1], o[2] << 8 | o[3])
    if '.' in ad or ad.count('::') > 1 or ':::' in ad:
        return None
    def grp(x):
        if x == '':
            return []
        g = x.split(':')
        if any(not re.fullmatch('[0-9a-fA-F]{1,4}', y) for y in g):
            return None
        return [int(y, 16) for y in g]
    if '::' in ad:
        a, b = ad.split('::')
        a, b = grp(a), grp(b)
        if a is None or b is None or len(a) + len(b) > 7:
            return None
        g = a + [0] * (8 - len(a) - len(b)) + b
    else:
        g = grp(ad)
        if g is None or len(g) != 8:
            return None
    return b''.join(struct.pack('>H', x) for x in g)


def strings(th):
    seen = set()
    for toks, n in ((T4, 5 if not th else 6), (T6, 4 if not th else 5)):
        for k in range(0, n + 1):
            for t in itertools.product(toks, repeat=k):
                yield ''.join(t)
    # dotted quads with every octet count and boundary values
    for o in itertools.product(['0', '1', '9', '00', '010', '99', '199', '249', '255', '256', '300', '1000', ''], repeat=4):
        yield '.'.join(o)
    for o in ('1.2.3.4', '255.255.255.255'):
        for mm in list(range(0, 40)) + ['', '032', 'x', '99999']:
            for pp in (None, '', '0', '1', '80', '65535', '65536', '080', '99999'):
                yield '%s/%s' % (o, mm) + ('' if pp is None else ':' + pp)
                if mm == 0:
                    yield o + ('' if pp is None else ':' + pp)
    # all group counts and positions of the compression, groups in several spellings, optional embedded ipv4, brackets, prefix, port
    for g in range(0, 10):
        for pos in [None] + list(range(0, g + 1)):
            for sp in (['%x' % (i + 1) for i in range(g)], ['%04X' % (0xabc0 + i) for i in range(g)], ['0'] * g, ['ffff'] * g):
                for v4 in (None, '1.2.3.4', '255.255.255.255', '1.2.3.256', '1.2.3'):
                    parts = sp[:]
                    s = ':'.join(parts) if pos is None else ':'.join(parts[:pos]) + '::' + ':'.join(parts[pos:])
                    if v4:
                        s = s + v4 if s.endswith(':') or not s else s + ':' + v4
                    yield s
                    for suf in ('/0', '/1', '/64', '/128', '/129', ':80'):
                        yield s + suf
                        yield '[%s]%s' % (s, suf)
                        yield '[%s%s]' % (s, suf)
                    yield '[%s]' % s
                    yield '[%s]/64:80' % s
                    yield '[%s]:65536' % s


def parsers(ctx, exe):
    ss = list(dict.fromkeys(s for s in strings(ctx.thorough)))
    n = 0
    B = 20000
    bad = 0
    outs = set()
    for b in range(0, len(ss), B):
        blk = ss[b:b + B]
        r = subprocess.run([exe, 'parse'], input='\n'.join(blk).encode('latin-1') + b'\n', stdout=subprocess.PIPE, stderr=subprocess.PIPE, env={'ASAN_OPTIONS': 'detect_leaks=0'})
        lines = r.stdout.decode('latin-1').split('\n')
        if r.returncode != 0 or len(lines) < len(blk) + 1:
            ctx.violation('[address parsers] parser crashed rc=%d near %r\n%s' % (r.returncode, blk[min(len(lines) - 1, len(blk) - 1)], r.stderr.decode('latin-1')[:2000]), {'strings': blk[max(0, len(lines) - 3):len(lines) + 1]})
            return
        for s, l in zip(blk, lines):
            got = l.split(' ')[:8]
            n += 1
            if re.search(r'::[0-9a-fA-F:]*[0-9a-fA-F]:($|[]/ ])', s):
                continue        # a trailing colon is tolerated after a compressed address
            outs.add(hash(l) & 0xffffffff)
            for c, (g, w) in enumerate(zip(got, model(s))):
                if isinstance(w, tuple):
                    g, _, txt = g.partition('=')
                    w, a = w
                    if txt and v6(txt) != a:
                        w = 'text form %s does not denote the address' % txt
                if g != w:
                    bad += 1
                    if bad <= 3:
                        ctx.violation('[address parsers] %r parser variant %d (%s%s%s): %s expected %s' % (s, c % 4, 'v4' if c < 4 else 'v6', ' netmask' if c & 1 else '', ' port' if c & 2 else '', g, w), {'string': s})
                    break
    ctx.count('address parsers', n, n * 8, outs)


def run(ctx):
    th = ctx.thorough
    exe = vbuild.harness('ip', [os.path.join(vbuild.VERIF, 'harness', 'ip.c')])
    parsers(ctx, exe)
    d = 5 if th else 4
    ctx.cexplore('radix tree operation sequences', exe, [('radix', t, d, p, 16) for t in '46' for p in range(16)])
    for v in (4, 6):
        rs = list(enumerate(rulesets(v, th)))
        BL = 1500
        for b in range(0, len(rs), BL):
            blk = rs[b:b + BL]
            ctx.explore('access.check rule sets ipv%d' % v, access_config(v, blk, th), lambda v=v, blk=blk: access_cases(v, blk), access_judge, batch=8)
        ctx.explore('prefix conditions ipv%d' % v, cond_config(v), lambda v=v: cond_cases(v, th), cond_judge)
