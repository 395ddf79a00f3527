"""C25: the ETag cache serves only complete bodies stored for the same URL and ETag, across faults, aborts and crashes"""
import itertools, shutil
from concurrent.futures import ThreadPoolExecutor
from h import *


def config(wd):
    return conf('''
if req.path == "/tail" { respond 200 => "tail"; }
else if req.path =^ "/two/" { proxy "unix:/p"; cache.disk.etag "%s/cache/a"; cache.disk.etag "%s/cache/b"; }
else { proxy "unix:/p"; cache.disk.etag "%s/cache"; }
''' % (wd, wd, wd), ['mod_proxy', 'mod_cache_disk_etag'])


def setup(wd):
    shutil.rmtree(wd + '/cache', ignore_errors=True)
    os.makedirs(wd + '/cache')


def body(v, n=11):
    return (b'<%d>' % v + bytes(97 + (i * 7 + v * 3) % 26 for i in range(n)))


def head(b, etag='"e"', fr='cl', status=200, extra=()):
    h = b'HTTP/1.1 %d X\r\nConnection: close\r\n' % status
    if etag is not None:
        for e in [etag] if isinstance(etag, str) else etag:
            h += b'ETag: ' + e.encode('latin-1') + b'\r\n'
    for k, v in extra:
        h += ('%s: %s\r\n' % (k, v)).encode()
    if fr == 'cl':
        h += b'Content-Length: %d\r\n' % len(b)
    elif fr == 'chunked':
        h += b'Transfer-Encoding: chunked\r\n'
    return h + b'\r\n'


def enc(b, fr):
    return chunked(b, [len(b)] if b else []) if fr == 'chunked' else b


FAULTS = {'nospc': (28, 'e'), 'eio': (5, 'e'), 'eintr': (4, 'e')}


def op_script(sc, i, op, path, n, etag='"e"', v=None):
    """one request as client slot i, backend slot 64+i, with the body of version v"""
    c, k = i, 64 + i
    b = body(i if v is None else v, n)
    w = head(b, etag) + b
    kind = op[0]
    if kind in ('ok', 'chunked', 'eof', 'cut', 'slow'):
        fr = {'chunked': 'chunked', 'eof': 'eof'}.get(kind, 'cl')
        w = head(b, etag, fr) + enc(b, fr)
        sc.connect(c).send(c, req('GET', path)).q().drain(k)
        if kind == 'slow':
            hl = w.index(b'\r\n\r\n') + 4
            for a in [w[:hl], w[hl:hl + 1], w[hl + 1:hl + 5], w[hl + 5:]]:
                sc.send(k, a).q()
            sc.close(k).q().drain(c)
        elif kind == 'cut':
            hl = w.index(b'\r\n\r\n') + 4
            sc.send(k, w[:hl + op[1]]).q().close(k).q().drain(c)
        else:
            sc.send(k, w).q().close(k).q().drain(c)
        sc.close(c).q()
    elif kind == 'abort':
        hl = w.index(b'\r\n\r\n') + 4
        sc.connect(c).send(c, req('GET', path)).q().drain(k).send(k, w[:hl + op[1]]).q().close(c).q().send(k, w[hl + op[1]:]).q().close(k).q()
    elif kind == 'fault':
        err, mode = FAULTS[op[1]]
        sc.connect(c).fs(mode, (err << 16) | op[2], '~/cache/').send(c, req('GET', path)).q().drain(k).send(k, w).q().close(k).q().drain(c).close(c).q().fs('x', 0, '')
    elif kind == 'short':
        sc.connect(c).fs('s', 0, '~/cache/').send(c, req('GET', path)).q().drain(k).send(k, w).q().close(k).q().drain(c).close(c).q().fs('x', 0, '')


OPS = [('ok',), ('chunked',), ('eof',), ('slow',), ('cut', 0), ('cut', 5), ('cut', 13), ('abort', 0), ('abort', 6), ('short',)] + \
      [('fault', e, k) for e in FAULTS for k in range(1, 5)]
OPS3 = [('ok',), ('slow',), ('cut', 5), ('cut', 13), ('abort', 6), ('short',), ('fault', 'nospc', 2), ('fault', 'nospc', 3), ('fault', 'eio', 4)]


def seq_judge(key, r):
    ops, n = key[0], key[1]
    poss = {None}            # possible cached versions
    for i, op in enumerate(ops):
        b = body(i, n)
        rs, err = bodies(r, i, ['GET'])
        full = None
        if not err:
            f = [x for x in rs[0] if x.status >= 200]
            if f and f[0].complete and f[0].status == 200 and not (f[0].framing == 'close' and op[0] in ('cut', 'abort')):
                full = f[0].body
        kind = op[0]
        if kind == 'abort':
            # the client went away; the backend message may have been completed into the cache or not
            if poss == {None} or None in poss:
                poss = poss | {None}      # an aborted request may be dropped or finished
                poss = poss | {i}
            continue
        if kind == 'cut':
            if full is not None:
                ok = [v for v in poss if v is not None and body(v, n) == full]
                if not ok:
                    return 'step %d: broken off backend response answered completely with %s' % (i, short(full))
                poss = set(ok)
            continue
        if full is None:
            return 'step %d %r: no complete response: %s %s' % (i, op, err, short(r.data.get(i), 300))
        if full == b and None in poss:
            hit = False
        else:
            ok = [v for v in poss if v is not None and body(v, n) == full]
            if not ok:
                return 'step %d %r: body %s; possible: %s' % (i, op, short(full), [short(body(v, n)) if v is not None else 'origin ' + short(b) for v in poss])
            poss = set(ok)
            continue
        # a miss, completed
        if kind == 'fault':
            poss = {None, i}
        else:
            poss = {i}
    return None


# ---- crash points
def crashes(ctx, th):
    """kill the server at every file system operation of a store, restart on the same directory, and ask again"""
    cases = []
    sizes = [0, 11, 70000] if not th else [0, 1, 11, 65535, 65536, 70000, 200000]
    for n in sizes:
        for path in ('/k', '/d1/d2/k'):
            for prev in ('fresh', 'partial', 'other'):
                cases.append((n, path, prev))
    k = [0, 0]
    res = []

    def one(j):
        n, path, prev = cases[j]
        bad = None
        execs = trans = 0
        at = 0
        while True:
            at += 1
            wd = os.path.join(ctx.tmp, 'crash%d-%d' % (j, at))
            os.makedirs(wd + '/cache')
            s = Sim(config(wd), wd)
            done = False
            try:
                if prev != 'fresh':
                    sc = Script()
                    op_script(sc, 0, ('cut', 2) if prev == 'partial' else ('ok',), path, n, '"e"' if prev == 'partial' else '"f"', 7)
                    s.run(sc.reset())
                b = body(1, n)
                sc = Script().connect(0).fs('c', at, wd + '/cache').send(0, req('GET', path)).q().drain(64).send(64, head(b)).q()
                for a in range(0, len(b), 30000):
                    sc.send(64, b[a:a + 30000]).q().drain(0)
                sc.close(64).q().drain(0).fs('x', 0, '').reset()
                s.run(sc)
                done = True      # no crash point left
            except SimDied as e:
                if e.rc != 99:
                    bad = 'server died %s\n%s' % (e, e.log[-1500:])
            finally:
                s.close()
            execs += 1
            trans += 2
            if not bad:
                try:
                    s = Sim(config(wd), wd)
                    sc = Script()
                    for v in (2, 3):
                        op_script(sc, v - 2, ('ok',), path, n, v=v)
                    r = s.run(sc.reset())
                    s.close()
                    ok = None
                    for v in (2, 3):
                        rs, err = bodies(r, v - 2, ['GET'])
                        f = [x for x in rs[0] if x.status >= 200] if not err else []
                        if not f or not f[0].complete:
                            bad = 'after the restart: no response %s' % short(r.data.get(v - 2))
                            break
                        got = f[0].body
                        if v == 2:
                            if got not in (body(1, n), body(2, n)):
                                bad = 'after the restart the cache serves %s (%d bytes), stored was %d bytes' % (short(got), len(got), len(body(1, n)))
                                break
                            ok = got
                            if done and got != body(1, n):
                                bad = 'a completely stored response is not used after a restart'
                                break
                        elif got != ok:
                            bad = 'second request after the restart: %s expected %s' % (short(got), short(ok))
                            break
                except SimDied as e:
                    bad = 'server died after the restart %s\n%s' % (e, e.log[-1500:])
            shutil.rmtree(wd, ignore_errors=True)
            if bad or done or at > 40:
                return cases[j], at, execs, trans, bad
    with ThreadPoolExecutor(8) as ex:
        for case, at, execs, trans, bad in ex.map(one, range(len(cases))):
            ctx.count('crash at every file system operation, restart', execs, trans, [(case, i) for i in range(at)])
            if bad:
                ctx.violation('[crash] %r killed before operation %d: %s' % (case, at, bad), {'case': repr(case), 'at': at})


def run(ctx):
    th = ctx.thorough
    ctx.rules.append('after any history a response is the complete body of a stored version of exactly this URL and ETag, or the one of the origin; a completely stored one is used')

    def seqs():
        i = 0
        sizes = [11] if not th else [0, 11, 70000]
        for n in sizes:
            for d in (1, 2, 3):
                for ops in itertools.product(OPS if d < 3 else OPS3, repeat=d):
                    ops = ops + (('ok',), ('ok',))
                    if n == 0 and any(o[0] in ('cut', 'abort') and o[1] for o in ops):
                        continue
                    for base in ('/s', '/two/s') if d < 3 or th else ('/s',):
                        i += 1
                        p = '%s%d' % (base, i)
                        sc = Script()
                        for k, op in enumerate(ops):
                            op_script(sc, k, op, p, n)
                        yield (ops, n, p), sc.reset()
    ctx.explore('histories of stores, aborts, broken backends and write faults', config, seqs, seq_judge, setup=setup, batch=16)

    # ---- body sizes and cuts
    SZ = [0, 1, 100, 4095, 4096, 16384, 65535, 65536, 65537, 131072, 131073, 300000] if th else [0, 1, 4096, 65536, 65537, 131073]

    def sizes():
        for n in SZ:
            for fr in ('cl', 'chunked', 'eof'):
                for step in (None, 1000, 65536):
                    if step and (n <= step or n > 100000 and step < 2000):
                        continue
                    sc = Script()
                    for k in range(3):
                        b = body(k, n)
                        w = head(b, '"%d"' % n, fr) + enc(b, fr)
                        sc.connect(k).send(k, req('GET', '/z%s%s' % (fr, step))).q().drain(64 + k)
                        for a in range(0, len(w), step or len(w)):
                            sc.send(64 + k, w[a:a + (step or len(w))]).q().drain(k)
                        sc.close(64 + k).q().drain(k).q().drain(k)
                    yield (n, fr, step), sc.reset()

    def sz_judge(key, r):
        n = key[0]
        for k in range(3):
            rs, err = bodies(r, k, ['GET'])
            if err:
                return err
            f = [x for x in rs[0] if x.status >= 200]
            if not f or not f[0].complete or f[0].body != body(0, n):
                return 'request %d: %r is not the stored body of %d bytes' % (k, f and short(f[0].body), len(body(0, n)))
        return None
    ctx.explore('body sizes x framing x segments, stored and served again', config, sizes, sz_judge, setup=setup, batch=2)

    # ---- what must not be cached
    def never():
        i = 0
        for m in ('GET', 'HEAD', 'POST'):
            for st in (200, 201, 203, 206, 302, 404, 500):
                for et in (None, '"e"', ('"e"', '"f"')):
                    if m == 'GET' and st == 200 and et == '"e"':
                        continue
                    i += 1
                    sc = Script()
                    for k in range(2):
                        b = body(k)
                        h = [('Content-Length', '0')] if m == 'POST' else []
                        sc.connect(k).send(k, req(m, '/n%d' % i, h)).q().drain(64 + k).send(64 + k, head(b, et, 'cl', st) + (b if m != 'HEAD' else b'')).q().close(64 + k).q().drain(k)
                    # then a plain GET with that ETag must not see any of it
                    b = body(2)
                    sc.connect(2).send(2, req('GET', '/n%d' % i)).q().drain(66).send(66, head(b) + b).q().close(66).q().drain(2)
                    yield (m, st, et, i), sc.reset()

    def nv_judge(key, r):
        m, st, et, i = key
        for k in range(3):
            rs, err = bodies(r, k, [m if k < 2 else 'GET'])
            if err:
                return err
            f = [x for x in rs[0] if x.status >= 200]
            if not f or not f[0].complete:
                return 'request %d: %s' % (k, short(r.data.get(k)))
            if f[0].status != (st if k < 2 else 200):
                return 'status %d' % f[0].status
            if (m != 'HEAD' or k == 2) and f[0].body != body(k):
                return 'request %d: body %s is not the one of the origin' % (k, short(f[0].body))
        return None
    ctx.explore('methods, statuses and ETag headers that are not cacheable', config, never, nv_judge, setup=setup)

    # ---- keys: no two (path, ETag) pairs share an entry
    PATHS = ['/k', '/k-', '/k-ImUi', '/k/', '/k/x', '/K', '/k%20', '/k%2525', '/k%25', '/k.', '/k%2Fx', '/.k', '/k-ImUi-AAAAAA', '/k-ImUi/x']
    TAGS = ['"e"', '"E"', 'W/"e"', '"e" ', '"e-"', '"/"', '"../../e"', '"\xff\xfe"', '"???>>>"', '""', '"' + 'a' * 100 + '"', '"' + 'a' * 99 + 'b"', '"' + 'a' * 300 + '"', '"' + 'a' * 299 + 'b"', 'e', 'ImUi']

    def keys():
        pairs = list(itertools.product(range(len(PATHS)), range(len(TAGS))))
        for (p1, t1), (p2, t2) in itertools.combinations(pairs, 2):
            if not th and p1 != p2 and t1 != t2 and (p1 * 31 + t1 * 7 + p2 * 3 + t2) % 5:
                continue
            pre = '/q%d.%d.%d.%d' % (p1, t1, p2, t2)
            sc = Script()
            for k, (p, t) in enumerate(((p1, t1), (p2, t2), (p1, t1), (p2, t2))):
                b = body(k)
                sc.connect(k).send(k, req('GET', pre + PATHS[p])).q().drain(64 + k).send(64 + k, head(b, TAGS[t]) + b).q().close(64 + k).q().drain(k).close(k).q()
            yield ((p1, t1), (p2, t2)), sc.reset()

    def same(a, b):
        import urllib.parse
        pa, pb = [urllib.parse.unquote(PATHS[x[0]]) for x in (a, b)]
        return pa == pb and TAGS[a[1]].strip() == TAGS[b[1]].strip()

    def key_judge(key, r):
        a, b = key
        got = []
        for k in range(4):
            rs, err = bodies(r, k, ['GET'])
            if err:
                return err
            f = [x for x in rs[0] if x.status >= 200]
            if not f or not f[0].complete or f[0].status != 200:
                return 'request %d: %s' % (k, short(r.data.get(k)))
            got.append(f[0].body)
        if same(a, b):
            allow = [(0,), (0, 1), (0, 1, 2), (0, 1, 2, 3)]
        else:
            allow = [(0,), (1,), (0, 2), (1, 3)]
        for k in range(4):
            if got[k] not in [body(v) for v in allow[k]]:
                return 'request %d for %r %r got %s' % (k, PATHS[(a, b)[k % 2][0]], TAGS[(a, b)[k % 2][1]], short(got[k]))
        return None
    ctx.explore('pairs of (path, ETag): entries never mix', config, keys, key_judge, setup=setup, batch=48)

    # ---- concurrent stores of the same entry
    def inter(seqs):
        if not any(seqs):
            yield ()
            return
        for i, s in enumerate(seqs):
            if s:
                rest = list(seqs)
                rest[i] = s[1:]
                for t in inter(rest):
                    yield ((i, s[0]),) + t

    def conc():
        i = 0
        kinds = [('S', 'H', 'B', 'E'), ('S', 'H', 'B', 'X'), ('S', 'HB', 'E'), ('S', 'H', 'A')]
        n = 3 if th else 2
        for ks in itertools.combinations_with_replacement(kinds, 2):
            for t in inter(list(ks)):
                i += 1
                yield mk(i, ks, t)
        if th:
            for ks in itertools.combinations_with_replacement([('S', 'HB', 'E'), ('S', 'HB', 'X'), ('S', 'H', 'A')], 3):
                for t in inter(list(ks)):
                    i += 1
                    yield mk(i, ks, t)

    def mk(i, ks, t):
        sc = Script()
        slot = {}
        for c, o in t:
            b = body(c)
            p = '/c%d' % i
            if o == 'S':
                slot[c] = 64 + len(slot)
                sc.connect(c).send(c, req('GET', p)).q().drain(slot[c])
            elif o == 'H':
                sc.send(slot[c], head(b)).q()
            elif o == 'HB':
                sc.send(slot[c], head(b) + b[:5]).q()
            elif o == 'B':
                sc.send(slot[c], b[:5]).q()
            elif o == 'E':
                sc.send(slot[c], b[5:]).q().close(slot[c]).q()
            elif o == 'X':
                sc.close(slot[c]).q()
            elif o == 'A':
                sc.close(c).q()
        n = len(ks)
        for c in range(n):
            if ks[c][-1] != 'A':
                sc.drain(c)
        b = body(n)
        sc.connect(n).send(n, req('GET', '/c%d' % i)).q().drain(64 + n).send(64 + n, head(b) + b).q().close(64 + n).q().drain(n)
        return (t, i), sc.reset()

    def conc_judge(key, r):
        t, i = key
        n = 1 + max(c for c, o in t)
        stored = set()
        allow = {}
        done = set()
        for c, o in t:
            if o in ('H', 'HB'):
                allow[c] = set(stored) or {c}
            elif o == 'E':
                if c in allow[c]:
                    stored.add(c)
                done.add(c)
        allow[n] = set(stored) or {n}
        done.add(n)
        for c in range(n + 1):
            if t and any(x == c and o == 'A' for x, o in t):
                continue
            rs, err = bodies(r, c, ['GET'])
            f = [x for x in rs[0] if x.status >= 200] if not err else []
            full = f[0].body if f and f[0].complete and f[0].status == 200 else None
            if c in done:
                if full is None or full not in [body(v) for v in allow[c]]:
                    return 'connection %d: %s; expected the body of %r' % (c, short(r.data.get(c), 300), allow[c])
            elif full is not None and full not in [body(v) for v in allow[c] if v != c]:
                return 'connection %d: its origin broke off, but it got the complete response %s' % (c, short(full))
        return None
    ctx.explore('interleavings of concurrent requests for one entry', config, conc, conc_judge, setup=setup)
    crashes(ctx, th)
