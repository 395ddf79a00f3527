"""C34: requests that wait for the file system (stat cache, tasklets): every order of lookups, requests, aborts, time and file system changes"""
import itertools, os
from h import *

TREE = ['www/a.txt', 'www/dir/index.html', 'www/def.html', 'www/list/f1', 'www/list/f22', 'www/sub/deep/s.php', 'www/m.txt', 'hosts/h1/a.txt', 'hosts/h1/dir/i2.html']
DIRS = ['www/dir2', 'www/dir', 'www/list', 'www/sub/deep', 'hosts/h1/dir']


def mk(wd):
    for d in DIRS:
        os.makedirs(os.path.join(wd, 't', d), exist_ok=True)
    for f in TREE:
        p = os.path.join(wd, 't', f)
        with open(p, 'w') as h:
            h.write('<' + f + '>')
        os.utime(p, (1600000000, 1600000000))


BODY = '''
if req.path == "/r" { respond "r"; }
else {
 docroot ["%(t)s/hosts/$0", "%(t)s/www"];
 if req.path =^ "/sub/" { pathinfo; }
 if req.path =^ "/list/" { dirlist; }
 else { index ["index.html", "i2.html", "/def.html"]; }
 if phys.is_dir { header.add "X-D" => "1"; }
 if phys.is_file { header.add "X-F" => "1"; }
 if phys.size > 15 { header.add "X-S" => "1"; }
 if req.path =^ "/exp" { expire "access plus 1 hour"; }
 static;
}
'''


def cfg(**kw):
    def c(wd):
        mk(wd)
        return conf(BODY % {'t': os.path.join(wd, 't')}, ['mod_dirlist', 'mod_expire'], threads=kw.get('threads', 2), setup=kw.get('setup', ''))
    return c


def ok(f, D=0):
    n = len(f) + 2
    return (200, ('<' + f + '>').encode(), D, 0 if D else 1, 1 if n > 15 else 0)


# (host, url) -> status, body, X-D, X-F, X-S (None: not judged)
U = {
    'a': (('x', '/a.txt'), ok('www/a.txt')),
    'A': (('h1', '/a.txt'), ok('hosts/h1/a.txt')),
    'd': (('x', '/dir/'), ok('www/dir/index.html')),
    'D': (('h1', '/dir/'), ok('hosts/h1/dir/i2.html')),
    's': (('x', '/dir'), (301, b'', 1, 0, None)),
    'e': (('x', '/dir2/'), ok('www/def.html')),
    'n': (('x', '/nope'), ok('www/def.html')),
    'N': (('h1', '/nope'), (404, None, 0, 0, 0)),
    'p': (('x', '/sub/deep/s.php/x/y'), ok('www/sub/deep/s.php')),
    'q': (('x', '/sub/a/b'), ok('www/def.html')),
    'l': (('x', '/list/'), (200, 'list', 1, 0, None)),
    'L': (('x', '/list/none/'), (404, None, 0, 0, 0)),
    'r': (('x', '/r'), (200, b'r', 0, 0, 0)),
    'm': (('x', '/m.txt'), 'm'),
}


def finish(sc, n):
    for i in range(14):
        sc.task(255).q()
    sc.task(254)
    for k in range(n):
        sc.drain(k)
    return sc.reset(11.5)


def script(hist):
    """hist: string of URL letters (new request on its own connection), 0 oldest / 9 newest pending lookup, x X abort of the first/last request, w wait 4 s, W wait 11 s, + - create/remove m.txt and list/f3"""
    sc = Script()
    n = 0
    for c in hist:
        if c in U:
            (host, url), _ = U[c]
            sc.connect(n).send(n, req('GET', url, host=host, headers=[('Connection', 'close')])).q().drain(n)
            n += 1
        elif c == '0':
            sc.task(0).q()
        elif c == '1':
            sc.task(1).q()
        elif c == '2':
            sc.task(0)             # the result is there, but the server does not know yet
        elif c == 'x':
            sc.close(0).q()
        elif c == 'X':
            sc.close(n - 1).q()
        elif c == 'w':
            sc.advance(4.0).q()
        elif c == 'W':
            sc.advance(11.0).q()
        elif c == '-':
            sc.fsop('u', 't/www/m.txt').fsop('u', 't/www/list/f1')
        elif c == '+':
            sc.fsop('w', 't/www/m.txt', '<www/m.txt>').fsop('w', 't/www/list/f1', '<www/list/f1>')
    return finish(sc, n)


def names(body):
    return tuple(sorted(x for x in (b'f1', b'f22') if b'>' + x + b'<' in body))


def judge(key, r):
    hist = key
    alive, there, t = [], True, 0.0
    states = [(0.0, True)]           # when m.txt and list/f1 were there
    reqs = []
    for c in hist:
        if c in U:
            reqs.append([c, t, False, there])
        elif c == 'x':
            reqs[0][2] = True
        elif c == 'X':
            reqs[-1][2] = True
        elif c == 'w':
            t += 4
        elif c == 'W':
            t += 11
        elif c in '+-':
            there = c == '+'
            states.append((t, there))
    if r.tasks[-1] != 0:
        return '%d lookups never ran' % r.tasks[-1]
    if r.leak and r.leak[-1]:
        return '%d server sockets left open' % r.leak[-1]
    first = {}
    for k, d in r.steps:
        first.setdefault(k, d)
    for k, (c, t0, aborted, th) in enumerate(reqs):
        if aborted:
            continue
        d = r.data.get(k, b'')
        try:
            resps, left = parse_responses(d, r.eof.get(k, False), ['GET'])
        except Bad as e:
            return 'request %d (%s): %s' % (k, c, e)
        if len(resps) != 1 or left:
            return 'request %d (%s): %d answers, left %r' % (k, c, len(resps), left[:100])
        a = resps[0]
        if c == 'r' and not first.get(k):
            return 'request %d needs no lookup but was not answered at once' % k
        exp = U[c][1]
        if exp == 'm':
            poss = {th} | {s for ts, s in states if ts > t0} | {s for i, (ts, s) in enumerate(states) if ts == t0}
            want = set()
            if True in poss:
                want.add((200, b'<www/m.txt>'))
            if False in poss:
                want.add((200, b'<www/def.html>'))
                want.add((404, None))            # seen by index, gone for static
            if (a.status, a.body) not in want and (a.status, None) not in want:
                return 'request %d (%s): %s %r, expected one of %r' % (k, c, a.status, a.body[:80], want)
            continue
        st, body, xd, xf, xs = exp
        if a.status != st:
            return 'request %d (%s): status %s instead of %s' % (k, c, a.status, st)
        if body == 'list':
            # listings may be as old as the time to live of the cache (plus the granularity of its timer)
            poss = set()
            for i, (ts, s) in enumerate(states):
                end = states[i + 1][0] if i + 1 < len(states) else 1e9
                if end >= t0 - 11.0:
                    poss.add(s)
            if names(a.body) not in [(b'f1', b'f22') if s else (b'f22',) for s in poss]:
                return 'request %d: listing %r, f1 present at %r' % (k, names(a.body), states)
        elif body is not None and a.body != body:
            return 'request %d (%s): body %r instead of %r' % (k, c, a.body[:80], body)
        for h, x in (('X-D', xd), ('X-F', xf), ('X-S', xs)):
            if x is not None and len(a.get(h)) != x:
                return 'request %d (%s): %d %s headers instead of %d' % (k, c, len(a.get(h)), h, x)
    return None


def hists(th):
    # every resource alone, all event sequences
    for u in U:
        for n in range(0, 8 if th else 6):
            for e in itertools.product('02xwW', repeat=n):
                s = ''.join(e)
                if s.count('x') <= 1 and s.count('w') + s.count('W') <= 2:
                    yield u + s
    # two requests (same or other resource), everything between and after
    us = 'adeDlspnmr' if th else 'adDelmr'
    for a in us:
        for b in us:
            for n in range(0, 6 if th else 5):
                for e in itertools.product('012xXW', repeat=n):
                    s = ''.join(e)
                    if s.count('x') + s.count('X') > 1 or s.count('W') > 1 or s.count('0') + s.count('1') + s.count('2') > 3:
                        continue
                    for i in range(0, n + 1):
                        if 'X' in s[:i]:
                            continue
                        yield a + s[:i] + b + s[i:]
    # three requests for one resource
    for u in 'adl':
        for e in itertools.permutations(u + '02W' + u, 5):
            yield u + ''.join(e)
    # the file system changes
    for a in 'ml':
        for n in range(2, 7 if th else 6):
            for e in itertools.product('0wW+-' + a, repeat=n):
                s = ''.join(e)
                fs = s.replace('0', '').replace('w', '').replace('W', '').replace(a, '')
                if not fs or fs not in ('-', '-+') or s.count(a) > 2:
                    continue
                yield a + s


def run(ctx):
    th = ctx.thorough

    def explore(group, c, gen, j=judge):
        def cases():
            seen = set()
            for h in gen():
                if h in seen:
                    continue
                seen.add(h)
                sc = script(h)
                if '-' in h and '+' not in h:
                    sc.fsop('w', 't/www/m.txt', '<www/m.txt>').fsop('w', 't/www/list/f1', '<www/list/f1>')
                yield h, sc
        ctx.explore(group, c, cases, j)

    explore('lookups in background threads', cfg(), lambda: hists(th))
    few = lambda: (h for h in hists(False) if len(h) <= 4)
    explore('lookups in the worker', cfg(threads=0), few)
    explore('no cache', cfg(setup='stat_cache.ttl 0;'), few)
    explore('time to live 1 s', cfg(setup='stat_cache.ttl 1;'), few)
    explore('synchronous lookups', cfg(setup='stat.async false;'), few)
