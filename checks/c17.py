"""C17: requests reach FastCGI, SCGI and HTTP backends complete, unambiguous and unforgeable"""
import itertools
from h import *
import reqmodel

TREE = ['doc/s', 'doc/d/x']


def setup(wd):
    for n in TREE:
        p = os.path.join(wd, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, 'w').write('x')


ENVSET = {'HTTP_X_U': 'srv', 'CONTENT_TYPE': 'srv/type', 'REMOTE_ADDR': '9.9.9.9', 'EMPTY': '', 'X': 'y' * 200, 'REMOTE_USER': 'bob'}


def config(wd):
    es = ' '.join('env.set "%s" => "%s";' % kv for kv in ENVSET.items())
    return conf('''
if req.path =^ "/rw" { rewrite "(?s)^/rw(.*)" => "/nw$1?z=$1&%%{req.query}"; }
docroot "%(wd)s/doc";
pathinfo;
if req.host =^ "nb" { buffer_request_body false; }
if req.host =~ "e$" { %(es)s }
if req.host =~ "-s" { scgi "unix:/s"; }
else if req.host =~ "-f" { fastcgi "unix:/f"; }
else { proxy "unix:/p"; }
''' % dict(wd=wd, es=es), ['mod_scgi', 'mod_fastcgi', 'mod_proxy', 'mod_rewrite'])


def decode_fcgi(d):
    """-> (env list, stdin bytes, stdin_closed)"""
    p = 0
    params, stdin = b'', b''
    pc = sc = begun = False
    while p < len(d):
        if len(d) - p < 8:
            raise Bad('fcgi: truncated record header')
        ver, t, rid, ln, pad, _ = struct.unpack('>BBHHBB', d[p:p + 8])
        if ver != 1 or rid != 1:
            raise Bad('fcgi: version %d id %d' % (ver, rid))
        c = d[p + 8:p + 8 + ln]
        if len(d) - p - 8 < ln + pad:
            raise Bad('fcgi: truncated record')
        p += 8 + ln + pad
        if not begun:
            if t != 1 or c[:3] != b'\0\1\0' or ln != 8:
                raise Bad('fcgi: begin record %r' % c)
            begun = True
        elif t == 4:
            if pc:
                raise Bad('fcgi: params after end')
            if ln == 0:
                pc = True
            params += c
        elif t == 5:
            if not pc or sc:
                raise Bad('fcgi: stdin out of order')
            if ln == 0:
                sc = True
            stdin += c
        else:
            raise Bad('fcgi: record type %d' % t)
    if not pc:
        raise Bad('fcgi: params not terminated')
    env = []
    p = 0

    def ln():
        nonlocal p
        v = params[p]
        if v & 0x80:
            v = struct.unpack('>I', params[p:p + 4])[0] & 0x7fffffff
            p += 4
        else:
            p += 1
        return v
    while p < len(params):
        a = ln()
        b = ln()
        if p + a + b > len(params):
            raise Bad('fcgi: pair exceeds params')
        env.append((params[p:p + a].decode('latin-1'), params[p + a:p + a + b].decode('latin-1')))
        p += a + b
    return env, stdin, sc


FILES = {b'/s': 'f', b'/d': 'd', b'/d/x': 'f', b'/': 'd'}


def pathinfo(path):
    """longest existing file prefix -> (script, info)"""
    segs = path.split(b'/')
    for i in range(1, len(segs) + 1):
        pre = b'/'.join(segs[:i])
        if FILES.get(pre) == 'f' and i < len(segs):
            return pre, path[len(pre):]
    return path, b''


def expect(key):
    host, peer, port, method, url, version, headers, body, cl = key
    h = host
    u = reqmodel.parse_uri(url.encode('latin-1'), b'GET')
    if u is None:
        return None
    path, query, raw = u['path'], u['query'], u['raw_path']
    orig = raw
    if path.startswith(b'/rw'):
        t = path[3:]
        query = b'z=' + t + b'&' + query
        path = reqmodel.simplify(b'/nw' + t)
        raw = None
    script, info = pathinfo(path)
    return path, query, orig, raw, script, info


def hname(n):
    return ''.join(c.upper() if c.isalnum() and ord(c) < 128 else '_' for c in n)


def cgi_env(key, wd, proto):
    host, peer, port, method, url, version, headers, body, cl = key
    path, query, orig, raw, script, info = expect(key)
    L = lambda b: b.decode('latin-1')
    e = {'SERVER_NAME': host, 'GATEWAY_INTERFACE': 'CGI/1.1', 'SERVER_PORT': '80', 'SERVER_ADDR': '127.0.0.1', 'REMOTE_PORT': str(port), 'REMOTE_ADDR': peer,
         'SCRIPT_NAME': L(script), 'PATH_INFO': L(info), 'SCRIPT_FILENAME': wd + L(script), 'DOCUMENT_ROOT': wd, 'REQUEST_URI': L(orig), 'QUERY_STRING': L(query),
         'REQUEST_METHOD': method, 'REDIRECT_STATUS': '200', 'SERVER_PROTOCOL': 'HTTP/' + version, 'REQUEST_SCHEME': 'http'}
    if info:
        e['PATH_TRANSLATED'] = wd + L(info)
    if cl is not None:
        e['CONTENT_LENGTH'] = str(cl)
    if proto == 's':
        e['SCGI'] = '1'
    dup = {}
    for n, v in [('Host', host)] + list(headers):
        v = v.strip(' \t')
        k = hname(n)
        if k != 'CONTENT_TYPE' or n.lower() != 'content-type':
            k = 'HTTP_' + k
        dup.setdefault(k, []).append(v)
    if host.endswith('e'):
        for k, v in ENVSET.items():
            e[k] = v
            dup.pop(k, None)
    return e, dup


def judge_env(env, key, proto):
    e = {}
    for k, v in env:
        e.setdefault(k, []).append(v)
    wd = e.get('DOCUMENT_ROOT', [''])[0]
    if not wd.endswith('/doc'):
        return 'DOCUMENT_ROOT %r' % wd
    if proto == 's' and env[0][0] != 'CONTENT_LENGTH':
        return 'CONTENT_LENGTH is not the first variable: %r' % (env[0],)
    x, dup = cgi_env(key, wd, proto)
    sw = e.pop('SERVER_SOFTWARE', None)
    if not sw or len(sw) != 1:
        return 'SERVER_SOFTWARE %r' % sw
    rd = e.pop('REDIRECT_URI', None)
    if (rd is not None) != (expect(key)[3] is None):
        return 'REDIRECT_URI %r' % rd
    if rd and not uri_ok(rd[0], key):
        return 'REDIRECT_URI %r' % rd
    if key[8] is None and e.get('CONTENT_LENGTH') == [str(len(key[7]))]:
        e.pop('CONTENT_LENGTH')     # the streamed body was complete already
    for k, v in x.items():
        if e.pop(k, None) != [v]:
            return 'variable %s=%r expected, got %r' % (k, v, [b for a, b in env if a == k])
    for k, v in dup.items():
        g = e.pop(k, None)
        if g != v and g != [', '.join(v)]:
            return 'variable %s=%r expected, got %r' % (k, v, g)
    if e:
        return 'unexpected variables %r' % e
    return None


def uri_ok(s, key):
    """rewritten URI: decodes to the rewritten path and query"""
    path, query = expect(key)[:2]
    p, _, q = s.partition('?')
    if any(ord(c) <= 32 or ord(c) >= 127 for c in s):
        return False
    return reqmodel.url_decode(p.encode('latin-1')) == path and unq(q.encode('latin-1')) == unq(query)


def unq(q):
    """%XX -> byte for comparison of queries"""
    import re
    return re.sub(rb'%([0-9A-Fa-f]{2})', lambda m: bytes((int(m.group(1), 16),)), q)


DROP = ('content-length', 'transfer-encoding', 'te', 'connection', 'proxy-connection', 'x-forwarded-for', 'x-forwarded-proto')


def judge_proxy(d, key):
    host, peer, port, method, url, version, headers, body, cl = key
    head, sep, rest = d.partition(b'\r\n\r\n')
    if not sep:
        return 'header not terminated: %s' % short(d)
    lines = head.decode('latin-1').split('\r\n')
    rl = lines[0].split(' ')
    if len(rl) != 3 or rl[0] != method or rl[2] != 'HTTP/' + version:
        return 'request line %r' % lines[0]
    path, query, orig, raw, script, info = expect(key)
    if raw is not None:
        if rl[1].encode('latin-1') != raw:
            return 'request target %r expected %r' % (rl[1], raw)
    elif not uri_ok(rl[1], key):
        return 'request target %r' % rl[1]
    hs = []
    for l in lines[1:]:
        n, c, v = l.partition(':')
        if not c or not n or ' ' in n or '\r' in l or '\n' in l:
            return 'header line %r' % l
        hs.append((n, v.strip(' \t')))
    want = []
    for n, v in [('Host', host)] + list(headers):
        if n.lower() not in DROP:
            want.append((n, v.strip(' \t')))
    extra = [x for x in hs if x[0].lower() in DROP]
    have = [x for x in hs if x[0].lower() not in DROP]
    if sorted(have) != sorted(want) or [x for x in have] != want:
        return 'headers %r expected %r' % (have, want)
    ex = {}
    for n, v in extra:
        ex.setdefault(n.lower(), []).append(v)
    if ex.get('x-forwarded-for') != [peer] or ex.get('x-forwarded-proto') != ['http']:
        return 'forwarding headers %r' % ex
    if 'transfer-encoding' in ex:
        return 'transfer-encoding forwarded: %r' % ex
    if method in ('GET', 'HEAD'):
        if ex.get('content-length', ['0']) != ['0']:
            return 'content-length %r' % ex
    elif ex.get('content-length') != [str(len(body))]:
        return 'content-length %r for %d bytes' % (ex.get('content-length'), len(body))
    if version == '1.1' and 'close' not in ex.get('connection', []):
        return 'connection header %r, the connection is not reused' % ex.get('connection')
    if rest != body:
        return 'body %s expected %s' % (short(rest), short(body))
    return None


def judge(key, r):
    host, peer, port, method, url, version, headers, body, cl = key[0]
    k = key[0]
    if expect(k) is None:
        if r.connects:
            return 'backend contacted for an invalid request'
        return None
    if len(r.connects) != 1:
        return 'backend connections: %r; %s' % (r.connects, short(r.data.get(0)))
    d = r.data.get(64, b'')
    try:
        if '-s' in host:
            if r.connects[0][1] != 'unix:/s':
                return 'wrong backend %r' % r.connects
            env, b = parse_scgi(d)
            if b != body:
                return 'body %s expected %s' % (short(b), short(body))
            return judge_env(env, k, 's')
        if '-f' in host:
            env, b, closed = decode_fcgi(d)
            if b != body or not closed:
                return 'stdin %s closed=%r expected %s' % (short(b), closed, short(body))
            return judge_env(env, k, 'f')
        return judge_proxy(d, k)
    except Bad as e:
        return '%s in %s' % (e, short(d, 500))


def mk(host, url='/a', method='GET', version='1.1', headers=(), body=b'', chunks=None, peer='10.0.0.1', port=40000, cuts=(), late=None, extra=()):
    """late: position (segment index) after which a delayed connect to the backend completes"""
    hs = list(headers)
    buffered = not host.startswith('nb')
    cl = len(body)
    if chunks is not None:
        hs.append(('Transfer-Encoding', 'chunked'))
        raw = chunked(body, chunks)
        if not buffered:
            cl = None
    else:
        raw = body
        if method not in ('GET', 'HEAD') or body:
            hs.append(('Content-Length', str(len(body))))
    d = req(method, url, hs, raw, version=version, host=host)
    sc = Script()
    if late is not None:
        sc.connplan([1])
    sc.connect(0, peer, port)
    base = len(d) - len(raw)
    ps = parts(d, [base + c for c in cuts])
    for i, p in enumerate(ps):
        if p:
            sc.send(0, p).q()
        if late == i:
            sc.complete(64).q()
    sc.drain(64).drain(0).reset()
    return ((host, peer, port, method, url, version, tuple(hs), body, cl), tuple(cuts), late), sc


HOSTS = ['b-s', 'b-f', 'b-p']
APPS = HOSTS + ['nb-s', 'nb-f', 'nb-p']
UTOK = ['/', 'a', 's', 'rw', '?', '%20', '%25', '%41', '=', '&', '+', '%2f', '..', '%00', '%0a', '"', ';', 'd/x', '%3f', '~', '%e9']
HMENU = [('X-A', '1'), ('X_A', '2'), ('x-a', ''), ('X-U', 'evil'), ('x_u', 'evil2'), ('X.U', 'evil3'), ('Content-Type', 'text/x'), ('Content_Type', 'forge'), ('Content-Type', ''),
         ('X-Forwarded-For', '1.2.3.4'), ('X-Forwarded-Proto', 'https'), ('TE', 'trailers'), ('Proxy-Connection', 'close'), ('Connection', 'keep-alive'), ('Remote-User', 'root'), ('Cookie', 'a="b"; c=d'), ('A', '  pad '), ('B' * 128, 'x')]


def cases(th):
    n = 4 if th else 3
    for k in range(n + 1):
        for t in itertools.product(UTOK, repeat=k):
            for h in HOSTS:
                yield mk(h, '/' + ''.join(t))
    # raw bytes in the target
    for c in range(256):
        for h in HOSTS + ['b-se', 'b-fe']:
            yield mk(h, '/a%%%02x?b=%%%02x' % (c, c))
            yield mk(h, '/rw%%%02x?b=%%%02x' % (c, c))
    # headers: all sequences up to length 3, with and without configured variables
    for k in range(4 if th else 3):
        for t in itertools.product(HMENU, repeat=k):
            for h in HOSTS + ['b-se', 'b-fe']:
                yield mk(h, headers=t)
    for c in list(range(33, 127)):
        ch = chr(c)
        if ch in '()<>@,;:\\"/[]?={}':
            continue
        for h in HOSTS:
            yield mk(h, headers=[('X' + ch + 'Y', 'v' + ch)])
    # length encodings
    for l in list(range(0, 20)) + list(range(100, 150)) + [255, 256, 257, 1000, 4095, 4096, 16383, 16384, 30000]:
        for h in HOSTS + ['b-fe']:
            yield mk(h, headers=[('L', 'v' * l)])
            yield mk(h, headers=[('L' * (l + 1), 'v')])
            yield mk(h, '/' + 'p' * min(l, 200) + '?' + 'q' * min(l, 7000))
    # total size of the environment across the 64k record limit
    if th:
        rng = range(64000, 65400)
    else:
        rng = range(64900, 65200)
    for l in rng:
        yield mk('b-f', headers=[('V', 'v' * (l // 2)), ('W', 'w' * (l - l // 2))])
    # methods, versions, peers
    for h in APPS:
        for m in ('GET', 'HEAD', 'POST', 'PUT', 'DELETE', 'OPTIONS', 'PROPFIND', 'MKCOL'):
            for v in ('1.0', '1.1'):
                for peer, port in (('10.0.0.1', 1), ('255.255.255.255', 65535), ('0.0.0.0', 40000), ('::1', 5), ('2001:db8::ff:1', 256), ('::ffff:1.2.3.4', 80)):
                    yield mk(h, method=m, version=v, peer=peer, port=port)
    # bodies
    data = bytes(range(256)) * 600
    sizes = [0, 1, 2, 7, 8, 9, 255, 256, 4095, 4096, 8191, 8192, 16383, 16384, 16385, 32768, 65527, 65528, 65534, 65535, 65536, 65537, 70000, 131070, 131071, 140000]
    for h in APPS:
        for s in sizes:
            yield mk(h, method='POST', body=data[:s])
            yield mk(h, method='POST', body=data[:s], cuts=[s // 2] if s > 1 else ())
            if h in ('nb-s', 'nb-p'):
                continue
            for cs in ([s], [s // 2, s - s // 2], [1] * min(s, 20) + [s - min(s, 20)]):
                cs = [c for c in cs if c]
                yield mk(h, method='POST', body=data[:s], chunks=cs)
    # every cut of a short body, with the backend connection completing at every point
    b = b'012345'
    for h in APPS:
        forms = [None] if h in ('nb-s', 'nb-p') else [None, [6], [1, 2, 3], [3, 3]]
        for ch in forms:
            raw = b if ch is None else chunked(b, ch)
            m = len(raw)
            for nc in ((0, 1, 2) if not th else (0, 1, 2, 3)):
                if nc > 1 and m > 8 and not th:
                    pts = range(0, m, 3)
                else:
                    pts = range(0, m)
                for cuts in itertools.combinations(pts, nc):
                    for late in [None] + list(range(nc + 1)):
                        if late is not None and not h.startswith('nb') and late < nc:
                            continue   # buffered: the connection is only attempted after the last segment
                        if late is not None and h.startswith('nb') and nc and cuts[0] == 0 and False:
                            continue
                        yield mk(h, method='POST', body=b, chunks=ch, cuts=cuts, late=late)


def run(ctx):
    th = ctx.thorough
    ctx.rules.append('every request from the menus (URL tokens, header sequences, lengths around the encoding boundaries, bodies, cuts x completion time of the backend connect) is decoded from the backend socket by independent SCGI/FastCGI/HTTP parsers and compared with the CGI/HTTP request the client sent')
    ctx.explore('backend requests', config, lambda: cases(th), judge, setup=setup)
