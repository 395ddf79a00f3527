"""C14: password protection (mod_auth)"""
import base64, hashlib, itertools, os, re, subprocess
from h import *

REALM = 'the realm'
USERS = {'u': 'pw', 'user': 'secret', 'U': 'PW', 'a b': 'p q', 'colon': 'x:y', 'empty': '', 'long': 'L' * 70, 'utf\xe9': 'p\xe9'}


def crypt_hash(pw, salt):
    import ctypes, ctypes.util
    lib = ctypes.CDLL(ctypes.util.find_library('crypt') or 'libcrypt.so.1')
    lib.crypt.restype = ctypes.c_char_p
    return lib.crypt(pw.encode('latin-1'), salt.encode()).decode()


def apr1(pw, salt):
    """independent implementation of the Apache MD5 algorithm"""
    pw = pw.encode('latin-1'); s = salt.encode(); magic = b'$apr1$'
    a = pw + magic + s
    b = hashlib.md5(pw + s + pw).digest()
    n = len(pw)
    while n > 0:
        a += b[:min(16, n)]
        n -= 16
    n = len(pw)
    while n:
        a += b'\0' if n & 1 else pw[:1]
        n >>= 1
    f = hashlib.md5(a).digest()
    for i in range(1000):
        c = b''
        c += pw if i & 1 else f
        if i % 3:
            c += s
        if i % 7:
            c += pw
        c += f if i & 1 else pw
        f = hashlib.md5(c).digest()
    A = './0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz'
    out = ''
    for x, y, z in ((0, 6, 12), (1, 7, 13), (2, 8, 14), (3, 9, 15), (4, 10, 5)):
        v = f[x] << 16 | f[y] << 8 | f[z]
        for _ in range(4):
            out += A[v & 63]; v >>= 6
    v = f[11]
    for _ in range(2):
        out += A[v & 63]; v >>= 6
    return '$apr1$' + salt + '$' + out


def sha(pw):
    return '{SHA}' + base64.b64encode(hashlib.sha1(pw.encode('latin-1')).digest()).decode()


def entry(backend, u, p):
    if backend == 'plain':
        return p
    if backend == 'htdigest':
        return REALM + ':' + hashlib.md5(('%s:%s:%s' % (u, REALM, p)).encode('latin-1')).hexdigest()
    if backend == 'apr1':
        return apr1(p, 'ab.d/fgh')
    if backend == 'apr1s':
        return apr1(p, 'z')
    if backend == 'sha':
        return sha(p)
    if backend == 'md5':
        return crypt_hash(p, '$1$saltsalt$')
    if backend == 'sha512':
        return crypt_hash(p, '$6$rounds=1000$salt$')
    return crypt_hash(p, 'ab')


BACK = ['plain', 'htdigest', 'apr1', 'apr1s', 'sha', 'md5', 'sha512', 'des']


def action(b):
    return {'plain': 'auth.plain', 'htdigest': 'auth.htdigest'}.get(b, 'auth.htpasswd')


def fileof(b, users):
    return ''.join('%s:%s\n' % (u, entry(b, u, p)) for u, p in users.items()).encode('latin-1')


def setup(wd):
    for b in BACK:
        with open(wd + '/' + b, 'wb') as f:
            f.write(fileof(b, USERS))
    with open(wd + '/protected', 'w') as f:
        f.write('PROTECTED')


def config(wd):
    l = []
    for i, b in enumerate(BACK):
        l.append('%sif req.host == "%s" { %s [ "method" => "basic", "realm" => "%s", "file" => "%s/%s" ]; }' % ('else ' if i else '', b, action(b), REALM, wd, b))
    l.append('docroot "%s";' % wd)
    l.append('if req.query == "static" { static; }')
    l.append('respond 200 => "PROTECTED [%{req.env[REMOTE_USER]}] [%{req.env[AUTH_TYPE]}]";')
    return conf('\n'.join(l), ['mod_auth'])


def variants(u, p):
    """credentials close to (u, p)"""
    for x in {u, u + 'x', u[:-1], u.upper(), u.lower(), '', ' ' + u, u + ' '}:
        yield x, p
    for y in {p, p + 'x', p[:-1], p.upper(), '', p + ' ', ' ' + p, p + ':', p[:8], p + '\0', p + '\0x', entry('plain', u, p), sha(p), p + '\n', p + '\r'}:
        yield u, y


def forms(cred):
    e = base64.b64encode(cred.encode('latin-1')).decode()
    yield 'Basic ' + e
    if len(cred) < 12:
        for f in ('basic ' + e, 'BASIC ' + e, 'Basic' + e, 'Basic  ' + e, 'Basic ' + e + '=', 'Basic ' + e.rstrip('='), 'Basic ' + e[:-2], 'Basic ' + e + ' ', 'Digest ' + e, 'Basic ' + cred.replace('\0', '').replace('\r', '').replace('\n', ''), 'Basic ' + e + e, 'xBasic ' + e, 'Basic\t' + e, 'Basic ' + '!' + e, 'Bearer Basic ' + e):
            yield f


def creds(th):
    seen = set()
    for u, p in USERS.items():
        for v in variants(u, p):
            if v not in seen:
                seen.add(v)
                yield v
    for v in (('', ''), ('nobody', ''), ('u:pw', ''), ('u', 'pw:'), ('colon', 'x'), ('PROTECTED', 'x'), ('user', 'pw'), ('u', 'secret')):
        if v not in seen:
            yield v


def allow(b, hdr):
    """(verdict, user): True = must be granted, False = must be refused, None = either (lenient base64 or scheme)"""
    m = re.match(r'Basic (.*)$', hdr, re.S)
    if not m:
        m2 = re.match(r'(?i)basic[ \t]+(.*)$', hdr, re.S)
        if not m2:
            return False, None
        v, u = allow(b, 'Basic ' + m2.group(1))
        return (None if v else False), u
    t = m.group(1)
    strict = re.fullmatch(r'([A-Za-z0-9+/]{4})*([A-Za-z0-9+/]{2}==|[A-Za-z0-9+/]{3}=)?', t) is not None
    f = re.sub(r'[^A-Za-z0-9+/=]', '', t)
    # lenient: decode groups of four
    out = b''
    for i in range(0, len(f) // 4 * 4, 4):
        try:
            out += base64.b64decode(f[i:i + 4])
        except Exception:
            break
    c = out.decode('latin-1')
    if '\0' in c.split(':', 1)[0] or ':' not in c:
        return False, None
    u, p = c.split(':', 1)
    good = u in USERS and match(b, USERS[u], p)
    if not good:
        # a NUL terminates the password for crypt and string comparison; accepting it needs the correct password
        p0 = p.split('\0')[0]
        if u in USERS and p0 != p and match(b, USERS[u], p0):
            return None, u
        return False, None
    return (True if strict else None), u


def match(b, real, given):
    if b == 'des':
        return real[:8] == given[:8]
    return real == given


def cred_cases(th):
    cs = list(creds(th))
    for b in BACK:
        hs = [None] + sorted({f for u, p in cs for f in forms(u + ':' + p)} | {f for u, p in cs[:30] for f in forms(u)})
        for k in range(0, len(hs), 16):
            g = hs[k:k + 16]
            d = b''
            for i, h in enumerate(g):
                d += b'GET /protected' + (b'?static' if i & 1 else b'') + b' HTTP/1.1\r\nHost: ' + b.encode() + b'\r\n' + (b'Authorization: ' + h.encode('latin-1') + b'\r\n' if h is not None else b'') + b'\r\n'
            yield (b, tuple(g)), Script().connect(0).send(0, d).q().drain(0).reset()


def cred_judge(key, r):
    b, g = key
    rs, err = bodies(r, 0, ['GET'] * len(g))
    if err:
        return err
    if len(rs[0]) != len(g):
        return '%d responses for %d requests: last %r' % (len(rs[0]), len(g), rs[0][-1:])
    for i, (h, x) in enumerate(zip(g, rs[0])):
        want, u = allow(b, h.rstrip(' \t')) if h is not None else (False, None)
        got = x.status == 200
        if want is not None and got != want:
            return '%s: Authorization %r: status %d, credentials are %s' % (b, h, x.status, 'valid' if want else 'invalid')
        if got:
            if not i & 1 and x.body != b'PROTECTED [' + u.encode('latin-1') + b'] [Basic]':
                return '%s: Authorization %r: %r, user should be %r' % (b, h, x.body, u)
        else:
            if x.status != 401 or b'PROTECTED' in x.body:
                return '%s: refused request: status %d body %r' % (b, x.status, x.body)
            w = x.get('WWW-Authenticate')
            if [z.decode() if isinstance(z, bytes) else z for z in w] != ['Basic realm="%s"' % REALM]:
                return 'WWW-Authenticate %r' % (w,)


# ---------------------------------------------------------------- password file histories
VERS = {
    'init': b'u:pw\nv:x\n', 'chg': b'u:new\nv:x\n', 'del': b'v:x\n', 'add': b'u:pw\nv:x\nw:z\n', 'crlf': b'u:crlf\r\nv:x\r\n', 'noeol': b'u:pw\nv:noeol', 'blank': b'u:pw\n\n\nv:blank\n\n', 'dup': b'u:one\nu:two\nv:x\n', 'empty': b'',
    'bad': b'u:hack\nnocolon\n', 'bad2': b'nocolon', 'missing': None,
}
PROBE = [('u', 'pw'), ('u', 'new'), ('u', 'crlf'), ('u', 'one'), ('u', 'two'), ('u', 'hack'), ('v', 'x'), ('v', 'noeol'), ('v', 'blank'), ('w', 'z'), ('nocolon', '')]


def parse(d):
    """-> users, or None if the file is invalid or missing"""
    if d is None:
        return None
    out = {}
    for l in re.split(rb'[\r\n]+', d):
        if not l:
            continue
        if b':' not in l:
            return None
        u, p = l.split(b':', 1)
        out[u.decode()] = p.decode()
    return out


WAYS = ['write', 'rename', 'old']       # in place; renamed over it; replaced by a file with an old modification time


def histories(ctx):
    from concurrent.futures import ThreadPoolExecutor
    th = ctx.thorough
    steps = [(v, w, dt) for v in VERS for w in WAYS for dt in (0, 1, 10, 11) if not (v == 'missing' and w != 'write')]
    small = [(v, w, dt) for v in ('init', 'chg', 'del', 'bad', 'missing') for w in WAYS for dt in (0, 11) if not (v == 'missing' and w != 'write')]
    seqs = [(a,) for a in steps] + list(itertools.product(steps, small)) + (list(itertools.product(small, repeat=3)) if th else [])
    nsh = 8

    def shard(k):
        wd = os.path.join(ctx.tmp, 'auth%d' % k)
        os.makedirs(wd)
        f = wd + '/users'
        with open(f, 'wb') as h:
            h.write(VERS['init'])
        os.utime(f, (1600000000, 1600000000))
        cfg = conf('auth.plain [ "method" => "basic", "realm" => "r", "file" => "%s", "ttl" => 10 ]; respond 200 => "%%{req.env[REMOTE_USER]}";' % f, ['mod_auth'])
        s = Sim(cfg, wd)
        n = tr = 0
        outs = set()
        clock = 1700000000.0

        def put(v, way, now):
            d = VERS[v]
            if d is None:
                if os.path.exists(f):
                    os.unlink(f)
                return
            t = f if way == 'write' else f + '.new'
            with open(t, 'wb') as h:
                h.write(d)
            mt = now if way != 'old' else now - 5000 - sum(map(ord, v)) % 1000
            os.utime(t, (mt, mt))
            if t != f:
                os.rename(t, f)
        try:
            r = s.run(Script().now().reset())
            clock = r.now if hasattr(r, 'now') and r.now else clock
            for seq in seqs[k::nsh]:
                # a known state: initial content, loaded
                put('init', 'rename', clock)
                s.run(Script().advance(30).reset()); clock += 30
                rq = b''.join(req('GET', '/', [('Authorization', 'Basic ' + base64.b64encode(('%s:%s' % c).encode()).decode())]) for c in PROBE)
                probe = lambda: s.run(Script().connect(0).send(0, rq).q().drain(0).reset())
                probe()
                cur = parse(VERS['init'])         # content the server must be using
                acceptable = [cur]
                last_load = clock                 # the file was checked at this time
                for v, way, dt in seq:
                    put(v, way, clock)
                    p = parse(VERS[v])
                    s.run(Script().advance(dt + 0.001).reset()); clock += dt + 0.001
                    r = probe()
                    n += 1; tr += len(PROBE)
                    rs, err = bodies(r, 0, ['GET'] * len(PROBE))
                    if err or len(rs[0]) != len(PROBE):
                        ctx.violation('[password file histories] %r: %s' % (seq, err or 'responses missing'), {'config': cfg})
                        return
                    got = tuple(x.status == 200 for x in rs[0])
                    verdict = lambda users: tuple(users.get(u) == pw for u, pw in PROBE)
                    if p is not None:
                        acceptable = acceptable + [p]
                    if clock - last_load > 10:
                        # the file must have been looked at again: valid content has to be in force, otherwise what was valid before
                        last_load = clock
                        acceptable = [p] if p is not None else acceptable
                    outs.add((v, got))
                    if got not in [verdict(a) for a in acceptable]:
                        ctx.violation('[password file histories] %r: accepted %r, password file says %r' % (seq, [c for c, g in zip(PROBE, got) if g], acceptable[-1]), {'config': cfg, 'seq': repr(seq)})
                        return
                    # narrow down to what the observation shows
                    acceptable = [a for a in acceptable if verdict(a) == got]
        except SimDied as e:
            ctx.violation('[password file histories] %s' % e, {'config': cfg})
        finally:
            s.close()
            ctx.count('password file histories', n, tr, outs)
    with ThreadPoolExecutor(nsh) as ex:
        list(ex.map(shard, range(nsh)))


# ---------------------------------------------------------------- password file contents
def content_cases_files(th):
    lines = [b'u:p', b'u:q', b'v:p:x', b'w:', b'x', b'', b'u:p ', b'long:' + b'z' * 300]
    ends = [b'\n', b'\r\n', b'\r', b'\n\n']
    for n in range(1, 4 if th else 3):
        for t in itertools.product(lines, repeat=n):
            for e in ends:
                yield e.join(t) + (e if len(t) % 2 else b'')
                if th:
                    yield e.join(t) + (b'' if len(t) % 2 else e)


CPROBE = [('u', 'p'), ('u', 'q'), ('u', 'p '), ('v', 'p:x'), ('v', 'p'), ('w', ''), ('x', ''), ('x', 'x'), ('', ''), ('', 'p'), ('long', 'z' * 300), ('long', 'z' * 299), ('u', '')]


def contents(ctx):
    from concurrent.futures import ThreadPoolExecutor
    files = list(content_cases_files(ctx.thorough))
    nsh = 8

    def shard(k):
        wd = os.path.join(ctx.tmp, 'authc%d' % k)
        os.makedirs(wd)
        f = wd + '/users'
        with open(f, 'wb') as h:
            h.write(b'start:start\n')
        cfg = conf('auth.plain [ "method" => "basic", "realm" => "r", "file" => "%s", "ttl" => 1 ]; respond 200 => "%%{req.env[REMOTE_USER]}";' % f, ['mod_auth'])
        s = Sim(cfg, wd)
        n = tr = 0
        outs = set()
        rq = b''.join(req('GET', '/', [('Authorization', 'Basic ' + base64.b64encode(('%s:%s' % c).encode()).decode())]) for c in CPROBE)
        try:
            cur = {'start': 'start'}
            for d in files[k::nsh]:
                if d[:1] in b'\r\n':
                    continue            # an empty first line is rejected or skipped
                with open(f + '.n', 'wb') as h:
                    h.write(d)
                os.rename(f + '.n', f)
                r = s.run(Script().advance(2).connect(0).send(0, rq).q().drain(0).reset())
                n += 1; tr += len(CPROBE)
                p = parse(d)
                if p is not None:
                    cur = p
                rs, err = bodies(r, 0, ['GET'] * len(CPROBE))
                got = tuple(x.status == 200 for x in rs[0]) if not err else None
                want = tuple(cur.get(u) == pw for u, pw in CPROBE)
                outs.add(got)
                if got != want:
                    ctx.violation('[password file contents] file %r (valid: %s): accepted %r expected %r' % (d, p is not None, [c for c, g in zip(CPROBE, got or ()) if g], [c for c, g in zip(CPROBE, want) if g]), {'config': cfg, 'file': repr(d)})
                    return
        except SimDied as e:
            ctx.violation('[password file contents] %s' % e, {'config': cfg})
        finally:
            s.close()
            ctx.count('password file contents', n, tr, outs)
    with ThreadPoolExecutor(nsh) as ex:
        list(ex.map(shard, range(nsh)))


# ---------------------------------------------------------------- order of actions
def order_progs():
    A = 'auth.plain [ "method" => "basic", "realm" => "the realm", "file" => "@/plain" ];'
    D = 'auth.deny;'
    U = 'if req.env["REMOTE_USER"] !~ "^(u|user)$" { auth.deny; }'
    R = 'respond 200 => "PROTECTED";'
    S = 'docroot "@"; static;'
    H = 'auth.htdigest [ "method" => "basic", "realm" => "the realm", "file" => "@/htdigest" ];'
    T = {'A': A, 'D': D, 'U': U, 'R': R, 'S': S, 'H': H}
    return [''.join(t) for n in range(1, 5) for t in itertools.product('ADUSRH', repeat=n) if t[-1] in 'RS'], T


def order_model(prog, user):
    """-> expected status"""
    st = None
    env = None
    for a in prog:
        if st is not None:
            break
        if a in 'AH':
            if user is None:
                st = 401
            else:
                env = user
        elif a == 'D':
            st = 403
        elif a == 'U':
            if env not in ('u', 'user'):
                st = 403
        else:
            st = 200
    return st


def order_cases(progs):
    for who in (None, 'u', 'U', 'bad'):
        for k in range(0, len(progs), 32):
            d = b''
            for i in range(k, min(k + 32, len(progs))):
                hs = []
                if who == 'bad':
                    hs = [('Authorization', 'Basic ' + base64.b64encode(b'u:wrong').decode())]
                elif who:
                    hs = [('Authorization', 'Basic ' + base64.b64encode(('%s:%s' % (who, USERS[who])).encode()).decode())]
                d += req('GET', '/protected', hs, host='p%d' % i)
            yield (who, k), Script().connect(0).send(0, d).q().drain(0).reset()


def order_judge(progs):
    def judge(key, r):
        who, k = key
        n = min(32, len(progs) - k)
        rs, err = bodies(r, 0, ['GET'] * n)
        if err:
            return err
        if len(rs[0]) != n:
            return '%d responses for %d requests' % (len(rs[0]), n)
        for i, x in enumerate(rs[0]):
            want = order_model(progs[k + i], None if who == 'bad' else who)
            if (x.status == 200) != (want == 200) or (want != 200 and (x.status not in (401, 403) or b'PROTECTED' in x.body)):
                return 'actions %s as %s: status %d expected %d' % (progs[k + i], who, x.status, want)
    return judge


# ---------------------------------------------------------------- damaged hashes
DPW = 'secret'


def damaged():
    """(backend, user, entry): entries that differ from the hash of DPW"""
    out = []
    for b in BACK[1:]:
        good = entry(b, 'USER', DPW)
        s = {''}
        for i in range(len(good)):
            s.add(good[:i])
            s.add(good[i:])
            s.add(good[:i] + good[i].swapcase() + good[i + 1:])
            s.add(good[:i] + good[i + 1:])
        for e in ('x', ' ', '$', '=', ':', '.', ':x', good):
            s.add(good + e)
        s |= {'*', '!', '!' + good, '*' + good, 'x', '{SHA}', '$apr1$', '$apr1$$', '$1$', '$6$', '*0', DPW, ':', '::', REALM + ':', REALM[:-1] + ':' + good.split(':')[-1]}
        s.discard(good)
        for i, e in enumerate(sorted(s)):
            u = 'd%d' % i
            if b == 'htdigest' and ':' not in e:
                continue            # not a valid file
            out.append((b, u, e))
    return out


def dmg_setup(wd):
    for b in BACK:
        with open(wd + '/' + b, 'wb') as f:
            f.write(fileof(b, {'ok': DPW}))
            for bb, u, e in damaged():
                if bb == b:
                    if b == 'htdigest':
                        # the digest depends on the user name: damage the digest of this very user in the same way
                        g, h = entry(b, 'USER', DPW), entry(b, u, DPW)
                        gd, hd = g.split(':')[-1], h.split(':')[-1]
                        e = e.replace(gd, hd)
                    f.write(('%s:%s\n' % (u, e)).encode('latin-1'))


def dmg_cases():
    d = damaged()
    for b in BACK[1:]:
        l = [(u, e) for bb, u, e in d if bb == b]
        for i in range(0, len(l), 12):
            us = ['ok'] + [u for u, e in l[i:i + 12]]
            yield (b, tuple(us), tuple(e for u, e in l[i:i + 12])), Script().connect(0).send(0, b''.join(req('GET', '/', [('Authorization', 'Basic ' + base64.b64encode((u + ':' + DPW).encode()).decode())], host=b) for u in us)).q().drain(0)


def dmg_judge(key, r):
    b, us, es = key
    rs, err = bodies(r, 0, ['GET'] * len(us))
    if err or len(rs[0]) != len(us):
        return err or 'responses missing'
    for u, e, x in zip(us, ('',) + es, rs[0]):
        want = 200 if u == 'ok' else 401
        if x.status != want:
            if b == 'des' and u != 'ok' and crypt_hash(DPW, e) == e:
                continue
            return '%s: entry %r answered with %d' % (b, e, x.status)
    return None


def run(ctx):
    ctx.explore('damaged hashes', config, dmg_cases, dmg_judge, setup=dmg_setup, batch=8)
    ctx.explore('credentials', config, lambda: cred_cases(ctx.thorough), cred_judge, setup=setup, batch=8)
    histories(ctx)
    contents(ctx)
    progs, T = order_progs()

    def oc(wd):
        l = []
        for i, p in enumerate(progs):
            l.append('%sif req.host == "p%d" { %s }' % ('else ' if i % 50 else '', i, ' '.join(T[a] for a in p).replace('@', wd)))
        return conf('\n'.join(l), ['mod_auth'])
    ctx.explore('order of actions', oc, lambda: order_cases(progs), order_judge(progs), setup=setup, batch=8)
