"""C20: virtual hosts: vhost.map, vhost.map_regex, docroot patterns, userdir"""
import itertools, os, pwd, re
from h import *


# ---------------------------------------------------------------- host spellings
HOSTS = ['a', 'b', 'a.b', 'www.a.b', 'b.a', 'x.www.a.b', 'aa', 'a-b', 'ab', '1.2.3.4', '[::1]', 'default', 'a.b.c.d.e']


def spell(h):
    yield h, h
    yield h.upper(), h
    yield h + ':80', h
    yield h + ':65535', h
    if not h.startswith('[') and not h[0].isdigit():
        yield h + '.', h
        yield h.title() + '.:8080', h


# ---------------------------------------------------------------- vhost.map
KEYS = ['a', 'a.b', 'www.a.b', 'b', '1.2.3.4', '[::1]', 'a.']
REGS = ['^a', 'b$', '^(www\\\\.)?a\\\\.b$', 'a.b', '.', '^$', 'www', '^a$', 'zzz', 'A']


def progs(th):
    out = []
    for n in range(0, 4 if th else 3):
        for ks in itertools.permutations(KEYS, n) if n < 3 else itertools.combinations(KEYS, n):
            for dpos in [None] + ([0] if n == 0 else [0, n]):
                if dpos is None and n == 0:
                    continue
                out.append(('map', ks, dpos))
    for n in range(1, 4 if th else 3):
        for ks in itertools.permutations(REGS, n):
            for dpos in (None, 0, n):
                if n == 3 and dpos == 0:
                    continue
                out.append(('map_regex', ks, dpos))
    # combined
    for a in KEYS[:4]:
        for b in REGS:
            out.append(('both', (a, b), None))
    return out


def prog_text(i, p):
    kind, ks, dpos = p
    if kind == 'both':
        return 'vhost.map [ "%s" => { header.add "X-V" => "m"; }, default => { vhost.map_regex [ "%s" => { header.add "X-V" => "r"; }, default => { header.add "X-V" => "d"; } ]; } ]; header.add "X-V" => "end";' % ks
    l = ['"%s" => { header.add "X-V" => "%d"; }' % (k, j) for j, k in enumerate(ks)]
    if dpos is not None:
        l.insert(dpos, 'default => { header.add "X-V" => "d"; }')
    return 'vhost.%s [ %s ]; header.add "X-V" => "end";' % (kind, ', '.join(l))


def prog_want(p, host):
    kind, ks, dpos = p
    rx = lambda k: re.search(k.replace('\\\\', '\\'), host) is not None
    if kind == 'both':
        return ['m' if ks[0] == host else 'r' if rx(ks[1]) else 'd', 'end']
    for j, k in enumerate(ks):
        if (k == host) if kind == 'map' else rx(k):
            return [str(j), 'end']
    return (['d'] if dpos is not None else []) + ['end']


def map_config(ps):
    l = []
    for g in range(0, len(ps), 40):
        l.append('%sif req.path =^ "/g%d/" {' % ('else ' if g else '', g // 40))
        for j, p in enumerate(ps[g:g + 40]):
            l.append('%sif req.path == "/g%d/%d" { %s respond 200 => "x"; }' % ('else ' if j else '', g // 40, j, prog_text(j, p)))
        l.append('}')
    return conf('\n'.join(l), ['mod_vhost'])


def map_cases(ps, th):
    hs = [s for h in HOSTS for s in spell(h)]
    if not th:
        hs = [s for h in HOSTS for s in list(spell(h))[:1]] + [s for h in ('a', 'a.b') for s in spell(h)] + [('[::1]:80', '[::1]')]
    for i, p in enumerate(ps):
        path = '/g%d/%d' % (i // 40, i % 40)
        for a in range(0, len(hs), 24):
            part = hs[a:a + 24]
            yield (p, tuple(part)), Script().connect(0).send(0, b''.join(req('GET', path, host=s) for s, h in part)).q().drain(0)


def map_judge(key, r):
    p, part = key
    rs, err = bodies(r, 0, ['GET'] * len(part))
    if err or len(rs[0]) != len(part):
        return err or 'responses missing'
    for (s, h), x in zip(part, rs[0]):
        want = prog_want(p, h)
        if x.status != 200 or x.get('X-V') != want:
            return 'host %r: ran %r, expected %r (%s)' % (s, x.get('X-V'), want, prog_text(0, p))
    return None


# ---------------------------------------------------------------- docroot
TOK = ['$0', '$1', '$2', '$3', '$[1-2]', '$[2-1]', '$[2-]', '$[-2]', '$[1-]', '$[0-2]', '$[3-1]', '$[1-3]', 'x', '%1', '%0', '$[0]', '$[2]']


def labels(host, a, b):
    """$[a-b]; None = unspecified (index out of range)"""
    if a == 0 or b == 0:
        return host
    ls = host.split('.')[::-1]
    n = len(ls)
    a2, b2 = min(a, n), min(b, n)
    if (a > n and a < 1000) or (b > n and b < 1000):
        return None
    # the range is interpreted reversed
    idx = range(b2, a2 - 1, -1) if b2 >= a2 else range(b2, a2 + 1)
    return '.'.join(ls[i - 1] for i in idx)


def doc_expand(toks, host):
    out = ''
    for t in toks:
        if t[0] == '$':
            m = re.fullmatch(r'\$(\d)|\$\[(\d*)(-?)(\d*)\]', t)
            if m.group(1):
                a = b = int(m.group(1))
            elif not m.group(3):
                a = b = int(m.group(2))
            else:
                a = int(m.group(2)) if m.group(2) else 10 ** 9
                b = int(m.group(4)) if m.group(4) else 10 ** 9
            v = labels(host, a, b)
            if v is None:
                return None
            out += v
        elif t == '%0':
            out += '/c-q'
        elif t == '%1':
            out += 'q'
        else:
            out += t
    return out


DHOSTS = ['a', 'b.a', 'c.b.a', 'd.c.b.a', 'e.d.c.b.a']


def doc_progs(th):
    ps = []
    for n in (1, 2) if not th else (1, 2, 3):
        for t in itertools.product(TOK if n < 3 else TOK[:8] + ['x', '%1'], repeat=n):
            ps.append(t)
    return ps


def grouped(progs, f, per=40, name='g'):
    l = []
    for g in range(0, len(progs), per):
        l.append('%sif req.query =^ "%s%d-" {' % ('else ' if g else '', name, g // per))
        for j, p in enumerate(progs[g:g + per]):
            l.append('%sif req.query == "%s%d-%d" { %s }' % ('else ' if j else '', name, g // per, j, f(p)))
        l.append('}')
    return '\n'.join(l)


def doc_config(ps):
    return conf('if req.path =~ "/c-(.)" { %s }\nrespond 200 => "%%{physical.docroot}|%%{physical.path}";' % grouped(ps, lambda p: 'docroot "/D%s/e";' % '/'.join(p)))


def doc_cases(ps):
    for i, p in enumerate(ps):
        q = 'g%d-%d' % (i // 40, i % 40)
        yield p, Script().connect(0).send(0, b''.join(req('GET', '/c-q%s?%s' % (x, q), host=h) for h in DHOSTS for x in ('', '/f'))).q().drain(0)


def doc_judge(p, r):
    rs, err = bodies(r, 0, ['GET'] * 2 * len(DHOSTS))
    if err or len(rs[0]) != 2 * len(DHOSTS):
        return err or 'responses missing'
    i = 0
    for h in DHOSTS:
        for x in ('', '/f'):
            w = doc_expand('/'.join('\0' for _ in p) and list(itertools.chain(*[(t, '/') for t in p]))[:-1], h)
            got = rs[0][i].body.decode('latin-1')
            i += 1
            if w is None:
                continue
            d = '/D' + w + '/e'
            if got != '%s|%s/c-q%s' % (d, d, x):
                return 'docroot "/D%s/e" for host %s: %r, expected %r' % ('/'.join(p), h, got, d)
    return None


# fallback lists
FB = ['/none/$0', '@W/v/$0', '@W/v/$1', '@W/v/$[2-]', '@W/file', '@W/d', '@W/none']


def fb_setup(wd):
    for d in ('v/a', 'v/b.a', 'v/b', 'd', 'v/x'):
        os.makedirs(wd + "/" + d, exist_ok=True)
        with open(wd + '/' + d + '/f', 'w') as f:
            f.write('file of ' + d)


def fb_progs(th):
    return [p for n in range(1, 4 if not th else 5) for p in itertools.product(FB, repeat=n)]


def fb_config(wd, ps):
    f = lambda p: 'docroot %s;' % ('"%s"' % p[0] if len(p) == 1 else '(%s)' % ', '.join('"%s"' % x for x in p)).replace('@W', wd)
    return conf(grouped(ps, f) + '\nheader.add "X-D" => "%{physical.docroot}"; static; respond 404;')


FHOSTS = ['a', 'b.a', 'c', 'x.a']


def fb_cases(ps):
    for i, p in enumerate(ps):
        q = 'g%d-%d' % (i // 40, i % 40)
        yield p, Script().connect(0).send(0, b''.join(req('GET', '/f?' + q, host=h) for h in FHOSTS)).q().drain(0)


def fb_judge(p, r):
    rs, err = bodies(r, 0, ['GET'] * len(FHOSTS))
    if err or len(rs[0]) != len(FHOSTS):
        return err or 'responses missing'
    exist = {'@W/v/a', '@W/v/b.a', '@W/v/b', '@W/d', '@W/v/x'}
    for h, x in zip(FHOSTS, rs[0]):
        cand = []
        for t in p:
            for tok, a, b in (('$0', 0, 0), ('$1', 1, 1), ('$[2-]', 2, 10 ** 9)):
                if tok in t:
                    v = labels(h, a, b)
                    if tok == '$[2-]' and '.' not in h:
                        v = None
                    t = t.replace(tok, v) if v is not None else None
                    break
            cand.append(t)
        if None in cand:
            continue         # no such label
        w = next((c for c in cand if c in exist), cand[-1])
        body = ('file of ' + w[3:]).encode() if w in exist else None
        got = x.get('X-D')
        if body is None:
            if x.status != 404:
                return 'docroot %r host %s: status %d for a missing directory' % (p, h, x.status)
        elif x.status != 200 or x.body != body or not got or not got[0].endswith(w[2:]):
            return 'docroot %r host %s: %d %r %r, expected %s' % (p, h, x.status, got, x.body[:40], w)
    return None


# ---------------------------------------------------------------- userdir
UPAT = ['/u', '/u/', '/u/*', '/u/*/', '/u/*/x', '/u/$1/*', '/u/$1/$1$2/*/', '/u/$9', '/u/$1x/*', '/u/$2y$3z', '/u/$a/*', '/u/$0/*', '/u/$$1/*', '/u/$', '/u/*$1', '/u/**', '/u/$1', 'pub', 'pub/*', '$1', '*', 'pub/', '/u/a$b/*', '/u/$1$', '/$3a']
USERS = ['u', 'lighty', 'games', 'root', 'nobody', 'a-b_C9', 'nosuchuser', 'a.b', '', 'x%2fy', 'x%00', 'abcdefghij']
RESTS = ['', '/', '/f', '/d/f', '//f', '/~games', '/f?q']


def userdir_model(pat, user, rest):
    """-> ('pass',) | ('status', n) | ('root', docroot, path)"""
    dec = user.replace('%2f', '/').replace('%00', '_')
    if '/' in dec:
        user, r2 = dec.split('/', 1)
        rest = '/' + r2 + rest
        dec = user
    if not re.fullmatch(r'[A-Za-z0-9_-]+', dec):
        return ('pass',)
    home = ''
    hasu = False
    if not pat.startswith('/'):
        if dec == 'root':
            return ('status', 403)
        try:
            home = pwd.getpwnam(dec).pw_dir + '/'
        except KeyError:
            return ('status', 404)
        hasu = True
    out = home
    i = 0
    while i < len(pat):
        if pat[i] == '*':
            out += dec
            hasu = True
        elif pat[i] == '$' and i + 1 < len(pat) and pat[i + 1] in '123456789':
            n = int(pat[i + 1])
            if n <= len(dec):
                out += dec[n - 1]
            i += 1
        else:
            out += pat[i]
        i += 1
    if not hasu:
        out = out.rstrip('/') + '/' + dec if out.endswith('/') else out + '/' + dec
    if not out.endswith('/'):
        out += '/'
    rest = rest.split('?')[0]
    return ('root', out, re.sub('/+', '/', rest) or '/')


def ud_config(wd):
    return conf(grouped(UPAT, lambda p: 'userdir "%s";' % p) + '\nif req.path == "/never" { } respond 200 => "%{physical.docroot}|%{physical.path}|%{req.path}";', ['mod_userdir'])


def ud_cases():
    for i, p in enumerate(UPAT):
        for u in USERS:
            yield (p, u), Script().connect(0).send(0, b''.join(req('GET', '/~%s%s' % (u, r.replace('?q', '') + '?g%d-%d' % (i // 40, i % 40))) for r in RESTS)).q().drain(0)


def ud_judge(key, r):
    p, u = key
    rs, err = bodies(r, 0, ['GET'] * len(RESTS))
    if err:
        return err
    if u == 'x%00' and rs[0] and rs[0][0].status in (400, 404):
        return None
    if len(rs[0]) != len(RESTS):
        return 'responses missing'
    for rest, x in zip(RESTS, rs[0]):
        w = userdir_model(p, u, rest)
        got = x.body.decode('latin-1').split('|')
        if w[0] == 'status':
            if x.status != w[1]:
                return 'userdir "%s" ~%s%s: status %d, expected %d' % (p, u, rest, x.status, w[1])
        elif x.status != 200 or len(got) != 3:
            return 'userdir "%s" ~%s%s: status %d %r' % (p, u, rest, x.status, got)
        elif w[0] == 'pass':
            if got[0] or not got[2].startswith('/~'):
                return 'userdir "%s" ~%s%s: invalid user name handled: %r' % (p, u, rest, got)
        else:
            norm = lambda s: re.sub('/+', '/', s)
            if norm(got[0]) != norm(w[1]) or norm(got[1]) != norm(w[1] + (w[2] if w[2] != '/' or rest else '')) or norm(got[2]) != w[2]:
                return 'userdir "%s" ~%s%s: %r, expected %r' % (p, u, rest, got, w)
    return None


# ---------------------------------------------------------------- rejected configurations
BADCONF = [
    'vhost.map [ "a" => 1 ];', 'vhost.map "a";', 'vhost.map 1;', 'vhost.map_regex [ "(" => { respond; } ];', 'vhost.map_regex [ "a" => { respond; }, "[" => { respond; } ];',
    'vhost.map_regex [ "a" => 1 ];', 'vhost.map_regex [ "a" => { respond; }, "b" => "x" ];', 'vhost.map_regex [ default => { respond; }, default => { respond; } ];',
    'vhost.map [ default => { respond; }, default => { respond; } ];', 'vhost.map [ "a" => { respond; }, "a" => { respond; } ];', 'vhost.map_regex 7;',
    'userdir "";', 'userdir 1;', 'docroot 1;', 'docroot ("a", 1);', 'docroot "$[";', 'docroot ("/x", "$[-]");', 'docroot "$x";',
]


def bad_configs(ctx):
    from concurrent.futures import ThreadPoolExecutor

    def one(i):
        wd = os.path.join(ctx.tmp, 'bad%d' % i)
        os.makedirs(wd)
        try:
            s = Sim(conf(BADCONF[i] + ' respond 200;', ['mod_vhost', 'mod_userdir']), wd)
        except SimDied as e:
            log = e.log or ''
            if e.rc == 86 or (e.rc is not None and e.rc < 0):
                ctx.violation('[rejected configurations] %s: server crashes: rc=%s %s' % (BADCONF[i], e.rc, log[-1500:]), {'config': BADCONF[i]})
                return ('crash', i)
            return ('rejected', i)
        s.close()
        ctx.violation('[rejected configurations] %s: accepted' % BADCONF[i], {'config': BADCONF[i]})
        return ('accepted', i)
    with ThreadPoolExecutor(8) as ex:
        ctx.count('rejected configurations', len(BADCONF), len(BADCONF), list(ex.map(one, range(len(BADCONF)))))


def run(ctx):
    th = ctx.thorough
    ps = progs(th)
    ctx.explore('vhost maps', lambda wd: map_config(ps), lambda: map_cases(ps, th), map_judge, batch=8)
    ds = doc_progs(th)
    ctx.explore('docroot patterns', lambda wd: doc_config(ds), lambda: doc_cases(ds), doc_judge, batch=8)
    fs = fb_progs(th)
    ctx.explore('docroot fallback', lambda wd: fb_config(wd, fs), lambda: fb_cases(fs), fb_judge, setup=fb_setup, batch=8)
    ctx.explore('userdir', ud_config, ud_cases, ud_judge, batch=8)
    bad_configs(ctx)
