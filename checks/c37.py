"""C37: the Lua plugins of the distribution (contrib/*.lua)"""
import base64, hashlib, itertools, os, re
import reqmodel, vbuild
from h import *


def contrib():
    return os.path.join(os.environ.get('VERIF_REPO') or '/repo', 'contrib')


def plugin(name):
    return 'lua.plugin "%s/%s.lua";' % (contrib(), name)


def wr(p, d):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'wb') as f:
        f.write(d)


# ---------------------------------------------------------------- secdownload
T0 = 1700000000
SECRET, TIMEOUT, PREFIX = 'abc', 60, '/sec/'
SFILES = {'/f': b'the file', '/d/g.txt': b'in a directory', '/1/x': b'digit', '/a' * 3: b'deep'}


def sec_setup(wd):
    for p, d in SFILES.items():
        wr(wd + '/sec' + p, b'SECRET ' + d)
        wr(wd + '/pub' + p, b'PUBLIC ' + d)
        wr(wd + '/pub/sec' + p, b'PUBLIC sec ' + d)


def sec_cfg(wd):
    sec_setup(wd)
    return conf('docroot "%s/pub";\nsecdownload [ "prefix" => "%s", "document-root" => "%s/sec", "secret" => "%s", "timeout" => %d ];\n' % (wd, PREFIX, wd, SECRET, TIMEOUT), ['mod_lua'], setup=plugin('secdownload'))


def sec_url(path, ts, secret=SECRET):
    return PREFIX + hashlib.md5((secret + path + ts).encode()).hexdigest() + '/' + ts + path


def sec_want(url, now):
    """(status, body) for a raw url"""
    u = reqmodel.parse_uri(url.encode('latin-1'), 'GET')
    if u is None:
        return 400, None
    path = u if isinstance(u, bytes) else u['path'] if isinstance(u, dict) else u[0]
    p = path.decode('latin-1')
    if not p.startswith(PREFIX):
        f = SFILES.get(p) if p in SFILES else None
        if f is not None:
            return 200, b'PUBLIC ' + f
        return None, None
    m = re.match(r'^([^\n]{32})/([0-9a-fA-F]{8})(/.*)$', p[len(PREFIX):], re.S)
    if not m:
        return 403, None
    ts = int(m.group(2), 16)
    bad = not (now - TIMEOUT <= ts <= now + TIMEOUT)
    if m.group(1) != hashlib.md5((SECRET + m.group(3) + m.group(2)).encode('latin-1')).hexdigest():
        return (403, 410) if bad else 403, None
    if bad:
        return 410, None
    f = SFILES.get(m.group(3))
    if f is None:
        return (404, 403, 301), None
    return 200, b'SECRET ' + f


def sec_cases(th):
    def urls():
        base = []
        for p in SFILES:
            for off in (-TIMEOUT - 1, -TIMEOUT, -TIMEOUT + 1, -1, 0, 1, TIMEOUT - 1, TIMEOUT, TIMEOUT + 1):
                for fmt in ('%08x', '%08X', '%09x', '%x', '%d'):
                    yield sec_url(p, fmt % (T0 + off))
            for extra in ('/none', '/d', '/d/', '/../pub/f', '/%2e%2e/f', '//f', '/./f', '/f/../f', '/f%00', ''):
                yield sec_url(extra, '%08x' % T0)
            for s in ('', 'ab', 'abcd', 'ABC'):
                yield sec_url(p, '%08x' % T0, s)
            ts = '%08x' % T0
            u = sec_url(p, ts)
            base.append(u)
            # the border between path and time stamp
            for n in range(1, 8):
                h = hashlib.md5((SECRET + p + ts).encode()).hexdigest()
                yield PREFIX + h + '/' + ts[n:] + p + ts[:n]
                yield PREFIX + h + '/' + p.replace('/', '')[-1:] + ts + p[:-1]
            for q in ('?', '?x', '/', '#'):
                yield u + q
        for u in (base if th else base[:2]):
            n0 = len(PREFIX) - 1
            for i in range(n0, len(u)):
                yield u[:i] + u[i + 1:]
                yield u[:i]
                for c in ('0', '1', 'f', 'F', 'g', '/', '.', '-', '+', '%20', '%2f', '%00', 'x') if th or i > n0 + 30 else ('0', 'F', '/', '%00'):
                    yield u[:i] + c + u[i + 1:]
                    yield u[:i] + c + u[i:]
                if i + 1 < len(u):
                    yield u[:i] + u[i + 1] + u[i] + u[i + 2:]
                yield u[:i] + '%%%02x' % ord(u[i]) + u[i + 1:]
            yield u.replace(PREFIX, '/SEC/')
            yield u.replace(PREFIX, '/sec')
            yield u.replace(PREFIX, '//sec//')
            yield u.replace(PREFIX, '/x/../sec/')
        for p in SFILES:
            yield p
            yield '/sec' + p

    def gen():
        seen = set()
        for u in urls():
            if u in seen:
                continue
            seen.add(u)
            yield u, Script().connect(0).send(0, req('GET', u)).q().drain(0).q().drain(0).reset()
    return gen


def sec_judge(u, r):
    d = r.data.get(0, b'')
    try:
        rs, left = parse_responses(d, r.eof.get(0), ['GET'])
    except Bad as e:
        return '%s: %s' % (e, short(d))
    st, body = sec_want(u, T0)
    if len(rs) != 1:
        return 'no response: %s' % short(d)
    if b'SECRET' in d and not (st == 200 and body and body.startswith(b'SECRET')):
        return 'the protected file was sent: %s' % short(d, 300)
    if st is None:
        return None
    ok = st if isinstance(st, tuple) else (st,)
    if rs[0].status not in ok or (body is not None and rs[0].body != body):
        return 'expected %r %r, got %s' % (st, body, short(d, 300))
    return None


def sec_drive(sim, key, wd):
    """a link is used again and again while time passes"""
    path, off, steps = key
    t = sim.run(Script().now().reset()).time
    t = int(t[-1] if isinstance(t, (list, tuple)) else t)
    u = sec_url(path, '%08x' % (t + off))
    el = 0
    for dt in steps:
        if dt:
            sim.run(Script().advance(float(dt)).reset())
            el += dt
        r = sim.run(Script().connect(0).send(0, req('GET', u)).q().drain(0).now().reset())
        t1 = r.time[-1] if isinstance(r.time, (list, tuple)) else r.time
        rs, left = parse_responses(r.data.get(0, b''), r.eof.get(0), ['GET'])
        got = rs[0].status if rs else None
        ok = set()
        for now in range(int(t + el), int(t1) + 1) or [int(t1)]:
            ok.add(sec_want(u, now)[0])
        flat = set()
        for x in ok:
            flat.update(x if isinstance(x, tuple) else (x,))
        if got not in flat:
            return 'a link for %+d s got %r after %d s, expected %r' % (off, got, el, sorted(flat)), None
    return None, key


# ---------------------------------------------------------------- X-Sendfile
XF = {'d/a.txt': b'content of a', 'd/empty': b'', 'd/sub/b': b'b' * 300, 'd2/s': b'OUTSIDE sibling', 's': b'OUTSIDE parent', 'd/big': bytes(range(256)) * 300}
XV = ['d/a.txt', 'd/empty', 'd/sub/b', 'd/big', 'd/none', 'd', 'd/', 'd/sub', 'd2/s', 's', 'd/../s', 'd/../d2/s', 'd/sub/../a.txt', 'd//a.txt', 'd/./a.txt', './d/a.txt', 'd/sub/../../d2/s', 'x/../d/a.txt', None, '', 'd/a.txt\0']


def x_cfg(wd):
    for p, d in XF.items():
        wr(wd + '/x/' + p, d)
    b = 'if req.host == "none" { proxy "unix:/p"; core.xsendfile; }\n'
    b += 'if req.host == "root" { proxy "unix:/p"; core.xsendfile "%s/x/d"; }\n' % wd
    b += 'if req.host == "slash" { proxy "unix:/p"; core.xsendfile "%s/x/d/"; }\n' % wd
    b += 'if req.host == "local" { header.overwrite "X-Sendfile" => "%s/x/d/a.txt"; respond "loc"; core.xsendfile; }\n' % wd
    b += 'if req.host == "off" { core.xsendfile; proxy "unix:/p"; }\n'
    return conf(b, ['mod_lua', 'mod_proxy'], setup=plugin('core'))


def x_drive(sim, key, wd):
    host, v, framing, body, cut, meth = key
    val = None if v is None else '' if v == '' else wd + '/x/' + v
    h = b'HTTP/1.1 200 OK\r\nX-Other: 1\r\n'
    if val is not None:
        h += b'X-Sendfile: ' + val.encode() + b'\r\n'
    if framing == 'cl':
        h += b'Content-Length: %d\r\n\r\n' % len(body) + body
    elif framing == 'chunked':
        h += b'Transfer-Encoding: chunked\r\n\r\n' + (b'%x\r\n%s\r\n' % (len(body), body) if body else b'') + b'0\r\n\r\n'
    else:
        h += b'\r\n' + body
    n = len(h)
    sc = Script().connect(0).send(0, req(meth, '/q', host=host)).q().drain(64)
    pos = sorted(set([0] + [int(c * n) if isinstance(c, float) else min(c, n) for c in cut] + [n]))
    for i in range(len(pos) - 1):
        sc.send(64, h[pos[i]:pos[i + 1]]).q().drain(0)
    sc.close(64).q().drain(0).q().drain(0)
    r = sim.run(sc.reset())
    d = r.data.get(0, b'')
    if r.leak != [0]:
        return '%r sockets stay open' % r.leak, None
    p = None if not val else reqmodel.simplify(val.encode()).decode()
    rel = None if p is None else os.path.relpath(p, wd + '/x')
    inside = rel is not None and (host == 'none' or p.startswith(wd + '/x/d/'))
    if (b'OUTSIDE' in d) and host != 'none':
        return 'a file outside of the document root was sent: %s' % short(d, 300), None
    try:
        rs, left = parse_responses(d, r.eof.get(0), [meth])
    except Bad as e:
        return 'broken response: %s: %s' % (e, short(d, 300)), None
    got = (rs[0].status, rs[0].body, rs[0].complete) if rs else None
    if val and '\0' in val:
        return None, 'nul'
    if not val:
        want = body
    elif not inside:
        return None, ('outside', got and got[0])
    elif p.endswith('/') or rel not in XF:
        # the file can't be sent: the request fails, the client must not take the backend's body for the answer
        if got and got[0] == 200 and got[2] and got[1]:
            return 'the file %r does not exist, but the client got %s' % (p, short(d, 300)), None
        return None, 'missing'
    else:
        want = XF[rel]
        if rs and rs[0].get('X-Sendfile'):
            return 'the header is still there: %s' % short(d, 300), None
    if meth == 'HEAD':
        want = b''
    if len(rs) != 1 or got != (200, want, True) or left or rs[0].one('X-Other') != '1':
        return 'expected %s, got %s' % (short(want), short(d, 300)), None
    return None, (got[0], len(want))


def x_cases(th):
    def gen():
        for host in ('none', 'root', 'slash'):
            for v in XV:
                for framing in ('cl', 'chunked', 'close'):
                    for body in (b'', b'abc', b'y' * 500):
                        for cut in ((), (17,), (0.5,), (0.8,), (0.3, 0.9), (10000,)):
                            yield (host, v, framing, body, cut, 'GET')
                        yield (host, v, framing, body, (), 'HEAD')
        for v in ('d/a.txt', 'd/big', 'd/empty', 'd/none', None) if th else ('d/a.txt', 'd/big'):
            for framing in ('cl', 'chunked', 'close'):
                for i in range(1, 190):
                    yield ('root', v, framing, b'abcdefgh', (i,), 'GET')
    return gen


# ---------------------------------------------------------------- auth.require_user
NAMES = ['a', 'b', 'a.b', 'axb', 'a?', 'aa', '(', 'a|b', 'A', '%', '^a', 'a$', '[a]', 'a*', 'a+b', 'a-b', 'a b', '\\d', '1', 'a\\', '{1}', 'a_1', '#', "'"]


def q(s):
    return '"%s"' % s.replace('\\', '\\\\').replace('"', '\\"')


def user_lists(th):
    yield from ((n,) for n in NAMES)
    for a in NAMES:
        for b in NAMES if th else NAMES[:10]:
            if a != b:
                yield (a, b)


def user_cfg(th):
    def c(wd):
        wr(wd + '/users', ''.join('%s:pw\n' % n for n in NAMES).encode())
        b = 'auth.plain ["method" => "basic", "realm" => "r", "file" => "%s/users"];\n' % wd
        for i, l in enumerate(user_lists(th)):
            b += 'if req.path == "/%d" { auth.require_user (%s,); respond "in"; }\n' % (i, ', '.join(q(n) for n in l))
        return conf(b, ['mod_lua', 'mod_auth'], setup=plugin('core'))
    return c


def user_cases(th):
    def gen():
        for i, l in enumerate(user_lists(th)):
            sc = Script()
            for k, n in enumerate(NAMES):
                sc.connect(k, port=40000 + k).send(k, req('GET', '/%d' % i, [('Authorization', 'Basic ' + base64.b64encode((n + ':pw').encode()).decode())])).q()
            for k, n in enumerate(NAMES):
                sc.drain(k)
            yield l, sc.reset()
    return gen


def user_judge(l, r):
    for k, n in enumerate(NAMES):
        rs, left = parse_responses(r.data.get(k, b''), r.eof.get(k), ['GET'])
        want = 200 if n in l else 403
        if len(rs) != 1 or rs[0].status != want:
            return 'auth.require_user %r: user %r got %s instead of %d' % (l, n, short(r.data.get(k, b'')), want)
    return None


# ---------------------------------------------------------------- core.wsgi
WP = ['/app', '/app/', '/', '/a', '/app/x']


def wsgi_cfg(wd):
    b = ''
    for i, p in enumerate(WP):
        b += 'if req.host == "h%d" { core.wsgi ("%s", { if !request.is_handled { scgi "unix:/s"; } }); if !request.is_handled { respond "other"; } }\n' % (i, p)
    return conf(b, ['mod_lua', 'mod_scgi'], setup=plugin('core'))


def wsgi_cases():
    for i, p in enumerate(WP):
        for s in ('', '/', '/x', 'x', '/x/y', '/a%20b', '/%2f', '//x', '/../app/z'):
            for base in ('/app', '/', '/a', '/other', '/App'):
                for qs in ('', '?q=1'):
                    u = base + s + qs
                    if not u.startswith('/') or u.startswith('//'):
                        continue
                    yield (i, u), Script().connect(0).send(0, req('GET', u, host='h%d' % i)).q().drain(64).send(64, b'Status: 200\r\n\r\nok').close(64).q().drain(0).reset()


def wsgi_judge(k, r):
    i, u = k
    raw, _, qs = u.partition('?')
    path = reqmodel.simplify(reqmodel.url_decode(raw.encode())).decode()
    rs, left = parse_responses(r.data.get(0, b''), r.eof.get(0), ['GET'])
    if len(rs) != 1 or rs[0].status != 200:
        return 'got %s' % short(r.data.get(0, b''))
    if not path.startswith(WP[i]):
        return None if rs[0].body == b'other' and not r.data.get(64) else 'not below the prefix, but got %s' % short(r.data.get(0, b''))
    try:
        env, body = parse_scgi(r.data.get(64, b''))
    except Exception as e:
        return 'the backend got %s' % short(r.data.get(64, b''))
    env = dict(env)
    g = lambda n: env.get(n.encode(), env.get(n))
    want = {'SCRIPT_NAME': WP[i], 'PATH_INFO': path[len(WP[i]):], 'QUERY_STRING': qs}
    for n, v in want.items():
        x = g(n)
        x = x.decode() if isinstance(x, bytes) else x
        if (x or '') != v:
            return '%s is %r instead of %r' % (n, x, v)
    return None


# ---------------------------------------------------------------- core.cached_html
CH = list(itertools.product(('no', 'file', 'dir'), ('no', 'file', 'dir'), (False, True)))


def ch_cfg(threads):
    def c(wd):
        for i, (p, h, idx) in enumerate(CH):
            d = '%s/doc/%d' % (wd, i)
            os.makedirs(d, exist_ok=True)
            if p == 'file':
                wr(d + '/p', b'plain %d' % i)
            elif p == 'dir':
                os.makedirs(d + '/p', exist_ok=True)
                if idx:
                    wr(d + '/p/index.html', b'index %d' % i)
            if h == 'file':
                wr(d + '/p.html', b'html %d' % i)
            elif h == 'dir':
                os.makedirs(d + '/p.html', exist_ok=True)
        return conf('docroot "%s/doc";\nif req.host == "c" { core.cached_html; }\nif phys.is_dir { index "index.html"; }\n' % wd, ['mod_lua'], setup=plugin('core'), threads=threads)
    return c


def ch_drive(sim, key, wd):
    i, tail, sched = key
    p, h, idx = CH[i]

    def ask(host):
        sc = Script().connect(0).send(0, req('GET', '/%d/%s' % (i, tail), host=host)).q()
        for c in sched:
            sc = sc.advance(0.5) if c == 't' else sc.connect(1, port=40001).send(1, req('GET', '/%d/%s' % (i, tail), host='c')).q() if c == 'o' else sc.close(1).q() if c == 'x' else sc.task(int(c)).q()
        for n in range(8):
            sc.task(255).q()
        r = sim.run(sc.drain(0).reset(11.5))
        rs, left = parse_responses(r.data.get(0, b''), r.eof.get(0), ['GET'])
        if r.leak != [0]:
            return ('leak', r.leak)
        return (rs[0].status, rs[0].body) if len(rs) == 1 else ('none', r.data.get(0, b''))
    got = ask('c')
    if p == 'file' and tail == 'p':
        want = (200, b'plain %d' % i)
    elif h == 'file' and tail in ('p', 'p/', 'p//', 'p.html') and not (p == 'file' and tail == 'p'):
        want = (200, b'html %d' % i)
    else:
        want = ask('plain')
    if got != want:
        return '%s: expected %r, got %r' % ('/%d/%s' % (i, tail), want, got), None
    return None, (key[0], tail, got[0])


def ch_cases(th):
    def gen():
        for i in range(len(CH)):
            for tail in ('p', 'p/', 'p.html', 'q', 'p/index.html', 'p//', 'p.htm'):
                for n in range(0, 4 if th else 3):
                    for s in itertools.product('01ot', repeat=n):
                        if s.count('o') > 1:
                            continue
                        yield (i, tail, ''.join(s))
                        if 'o' in s:
                            yield (i, tail, ''.join(s) + 'x')
    return gen


def run(ctx):
    th = ctx.thorough
    ctx.rules.append('secdownload sends a file only for a URL with the digest of secret, path and time stamp within the timeout; other URLs get 403 or 410')
    ctx.explore('secdownload', sec_cfg, sec_cases(th), sec_judge, isolate=False)
    ctx.drive('secdownload: time passes', sec_cfg, lambda: [(p, o, s) for p in ('/f', '/d/g.txt') for o in range(-62, 63, 1 if th else 7) for s in itertools.product((0, 1, 30, 59, 60, 61), repeat=2)], sec_drive)
    ctx.rules.append('core.xsendfile sends exactly the named file instead of the body of the backend, and only if it is below the document root')
    ctx.drive('xsendfile', x_cfg, x_cases(th), x_drive)
    ctx.rules.append('auth.require_user lets in exactly the listed users, whatever characters their names have')
    ctx.explore('require_user', user_cfg(th), user_cases(th), user_judge)
    ctx.explore('wsgi', wsgi_cfg, wsgi_cases, wsgi_judge)
    ctx.rules.append('core.cached_html serves the same for every order in which lookups of files complete')
    for t in (0, 2):
        ctx.drive('cached_html, %s' % ('in place' if t == 0 else 'lookups by tasks'), ch_cfg(t), ch_cases(th) if t else lambda: [(i, tail, '') for i in range(len(CH)) for tail in ('p', 'p/', 'p.html', 'q', 'p/index.html', 'p//', 'p.htm')], ch_drive)
