"""C33: expiry headers, FLV seeking and upload progress"""
import calendar, email.utils, itertools, json, os, shutil, time
from h import *

NOW = 1700000000
UNITS = {'second': 1, 'minute': 60, 'hour': 3600, 'day': 86400, 'week': 604800, 'month': 2592000, 'year': 31536000}


def httpdate(t):
    return email.utils.formatdate(t, usegmt=True)


def first(r, k, m='GET'):
    rs, err = bodies(r, k, [m])
    if err:
        return None, err
    f = [x for x in rs[0] if x.status >= 200]
    if not f or not f[0].complete:
        return None, 'no complete response: %s' % short(r.data.get(k), 300)
    return f[0], None


def hv(x, n):
    return [v for a, v in x.headers if a.lower() == n]


# ---------------------------------------------------------------- expire
def rules(th):
    nums = [1, 2, 7, 10, 100]
    out = []
    for base in ('access', 'now', 'modification'):
        for plus in ('', 'plus '):
            for u in UNITS:
                for n in nums + ([1000, 99999] if u in ('second', 'minute') else []) + ([60] if u == 'year' else []):
                    for s in ('', 's'):
                        out.append((base, plus, ((n, u, s),)))
    for base in ('access', 'modification'):
        for a, b in itertools.product(UNITS, repeat=2):
            for x, y in ((1, 2), (12, 30)):
                out.append((base, 'plus ', ((x, a, 's'), (y, b, ''))))
    if th:
        for a, b, c in itertools.product(UNITS, repeat=3):
            out.append(('access', '', ((3, a, ''), (4, b, 's'), (5, c, 's'))))
    return out


MT = [0, NOW - 400 * 86400, NOW - 86400, NOW - 61, NOW - 60, NOW - 59, NOW, NOW + 1000]


def rule_str(r):
    return '%s %s%s' % (r[0], r[1], ' '.join('%d %s%s' % t for t in r[2]))


# ---------------------------------------------------------------- progress
def run(ctx):
    th = ctx.thorough
    R = rules(th)
    ctx.rules.append('responses compared with an independent calculation (expire), byte ranges (flv) and a table of tracked requests (progress)')

    def setup(wd):
        shutil.rmtree(wd + '/www', ignore_errors=True)
        os.makedirs(wd + '/www')
        for i, t in enumerate(MT):
            with open(wd + '/www/m%d' % i, 'wb') as f:
                f.write(b'x')
            os.utime(wd + '/www/m%d' % i, (t, t))

    def econfig(wd):
        l = []
        for i, r in enumerate(R):
            l.append('if req.query == "k%d" { expire "%s"; }' % (i, rule_str(r)))
        return conf('docroot "%s/www";\nif req.path == "/gen" { respond 200 => "x"; header.add "Cache-Control" => "public"; }\nif req.path == "/nodoc" { docroot "/nonexistent"; respond 200 => "x"; }\n%s\nstatic;\n' % (wd, '\n'.join(l)))

    def econfig2(wd):
        return econfig(wd).replace('tasklet_pool', 'module_load "mod_expire"; tasklet_pool')

    def ecases():
        for i, r in enumerate(R):
            paths = ['/gen', '/m0', '/m4', '/nodoc'] if r[0] != 'modification' else ['/m%d' % j for j in range(len(MT))] + ['/nodoc']
            sc = Script()
            for k, p in enumerate(paths):
                sc.connect(k).send(k, req('GET', '%s?k%d' % (p, i), [('Connection', 'close')])).q().drain(k).now()
            yield (i, tuple(paths)), sc.reset()

    def ejudge(key, res):
        i, paths = key
        base, plus, terms = R[i]
        n = sum(a * UNITS[u] for a, u, s in terms)
        for k, p in enumerate(paths):
            x, err = first(res, k)
            if err:
                return '%s: %s' % (p, err)
            if x.status != 200:
                return '%s: status %d' % (p, x.status)
            ex, cc = hv(x, 'expires'), hv(x, 'cache-control')
            if base == 'modification' and p == '/nodoc':
                if ex or cc:
                    return '%s: headers without a file: %r %r' % (p, ex, cc)
                continue
            if len(ex) != 1:
                return '%s: Expires %r' % (p, ex)
            d = email.utils.parsedate_tz(ex[0])
            if d is None or not ex[0].endswith(' GMT'):
                return '%s: Expires %r' % (p, ex)
            date = hv(x, 'date')
            t = email.utils.mktime_tz(d)
            now = email.utils.mktime_tz(email.utils.parsedate_tz(date[0])) if date else int(res.time)
            want = now + n if base != 'modification' else max(MT[int(p[2:])] + n, now)
            if abs(t - want) > 1 or httpdate(t) != ex[0]:
                return '%s: "%s" gives Expires %r, not %r' % (p, rule_str(R[i]), ex[0], httpdate(want))
            toks = [y.strip() for v in cc for y in v.split(',')]
            ages = [y for y in toks if y.startswith('max-age')]
            if len(ages) != 1 or not ages[0].startswith('max-age=') or not ages[0][8:].isdigit() or abs(int(ages[0][8:]) - (want - now)) > 1:
                return '%s: "%s" gives Cache-Control %r, not max-age=%d' % (p, rule_str(R[i]), cc, want - now)
            if p == '/gen' and 'public' not in toks:
                return 'Cache-Control of the response lost: %r' % cc
        return None
    ctx.explore('expire rules', econfig2, ecases, ejudge, setup=setup, batch=32)

    # rules that must be refused / accepted at load time
    BADR = ['', 'access', 'foo 1 day', 'access 1', 'access day', 'access 0 days', 'access -1 day', 'access 1 fortnight', 'access 1 dayx', 'access 1 daysx', 'access 1 day 2', 'access 1day', 'access plus', 'plus 1 day', 'Access 1 day', 'access 1 day,2 hours', 'access x 1 day', 'modificationplus 1 day', 'access 1 day  2 hours', 'access 1.5 days']

    def bad():
        for i, b in enumerate(BADR):
            wd = os.path.join(ctx.tmp, 'exp%d' % i)
            os.makedirs(wd, exist_ok=True)
            ok = True
            try:
                s = Sim(conf('expire "%s"; respond 200 => "x";' % b, ['mod_expire']), wd)
                s.close()
            except SimDied as e:
                ok = False
                if e.rc in (86, 'timeout') or (isinstance(e.rc, int) and e.rc < 0):
                    ctx.violation('[bad expire rules] %r: server died: %s' % (b, e), {'rule': b})
            ctx.count('malformed expire rules', 1, 1, [b])
            if ok:
                ctx.violation('[bad expire rules] the rule %r is accepted' % b, {'rule': b})
    bad()

    # ---------------------------------------------------------------- flv
    HDR = b'FLV\x01\x01\0\0\0\x09\0\0\0\x09'
    FS = [0, 1, 13, 14, 100, 5000]

    def data(n):
        return bytes((i * 7 + n) % 251 for i in range(n))

    def fsetup(wd):
        shutil.rmtree(wd + '/www', ignore_errors=True)
        os.makedirs(wd + '/www/dir')
        for n in FS:
            with open(wd + '/www/f%d.flv' % n, 'wb') as f:
                f.write(data(n))

    def fconfig(wd):
        return conf('docroot "%s/www"; flv; if !request.is_handled { respond 410 => "fall"; }' % wd, ['mod_flv'])

    def fcases():
        for n in FS:
            vals = sorted({0, 1, 2, 12, 13, n - 1, n, n + 1, n // 2, 2 ** 31, 2 ** 32, 2 ** 32 + 1, 2 ** 63 - 1})
            qs = [('', 0), ('x=1', 0), ('start', 0), ('start=', 0), ('xstart=3', 0), ('start1=3', 0), ('starT=3', 0), ('start=abc', 0)]
            for v in vals:
                if v < 0:
                    continue
                qs += [('start=%d' % v, v), ('a=b&start=%d' % v, v), ('start=%d&a=b' % v, v), ('a=b&start=%d&start=1' % v, v), ('a;start=%d' % v, v), ('start=00%d' % v, v)]
            for q, v in qs:
                for m in ('GET', 'HEAD'):
                    sc = Script().connect(0).send(0, req(m, '/f%d.flv%s' % (n, '?' + q if q else ''), [('Connection', 'close')])).q().drain(0)
                    yield (n, q, v, m), sc.reset()
        for p, st in (('/none.flv', 404), ('/dir', 410), ('/dir/', 410), ('/f13.flv/x', 404)):
            sc = Script().connect(0).send(0, req('GET', p + '?start=1', [('Connection', 'close')])).q().drain(0)
            yield (p, st), sc.reset()

    def fjudge(key, r):
        if len(key) == 2:
            x, err = first(r, 0)
            if err:
                return err
            return None if x.status in (key[1], 404) else '%s: status %d' % (key[0], x.status)
        n, q, v, m = key
        x, err = first(r, 0, m)
        if err:
            return err
        want = data(n) if v == 0 or v > n else HDR + data(n)[v:]
        if x.status != 200 or hv(x, 'content-type') != ['video/x-flv']:
            return 'status %d %r' % (x.status, hv(x, 'content-type'))
        if m == 'GET' and x.body != want:
            return 'body %s, expected %s' % (short(x.body), short(want))
        if m == 'HEAD' and hv(x, 'content-length') not in ([], [str(len(want))]):
            return 'HEAD: Content-Length %r, not %d' % (hv(x, 'content-length'), len(want))
        return None
    ctx.explore('flv start positions', fconfig, fcases, fjudge, setup=fsetup)

    # ---------------------------------------------------------------- progress
    def pconfig(wd):
        return conf('''
if req.path == "/show" { progress.show; respond 418 => "notshown"; }
else if req.path == "/jsonp" { progress.show "jsonp"; respond 418 => "notshown"; }
else if req.path == "/legacy" { progress.show "legacy"; respond 418 => "notshown"; }
else if req.path == "/now" { progress.track; respond 200 => "now"; }
else { progress.track; proxy "unix:/p"; }
''', ['mod_progress', 'mod_proxy'], setup='progress.ttl 20; io.timeout 3600; ')

    OPS = ['S', 'B', 'F', 'R', 'E', 'O', 'X', 'A', 'T', 'L']
    # S start with id, B part of the body, F rest of the body, R response headers + part, E rest of the response, O 404 response at once,
    # X backend goes away, A client goes away, T 15 seconds pass, L 25 seconds pass

    def enabled(u, o):
        if o == 'S':
            return u is None or u['fin'] is not None
        if u is None or u['fin'] is not None:
            return False
        return {'B': u['got'] == 0, 'F': u['got'] < 10, 'R': u['got'] == 10 and not u['resp'], 'E': u['resp'], 'O': u['got'] == 10 and not u['resp'], 'X': u['got'] == 10, 'A': True}[o]

    def step(st, op, who):
        """st: {'u': [upload or None]*2, 'ids': {id: entry}, 'clock'}"""
        import copy
        st = copy.deepcopy(st)
        if op in 'TL':
            st['clock'] += 15 if op == 'T' else 25
            for i in list(st['ids']):
                e = st['ids'][i]
                if e['end'] is not None and st['clock'] - e['end'] > 21:
                    del st['ids'][i]
            return st
        u = st['u'][who]
        if op == 'S':
            i = st['plan'][who]
            st['serial'] += 1
            u = {'got': 0, 'resp': False, 'fin': None, 'serial': st['serial'], 'id': i}
            st['u'][who] = u
            st['ids'][i] = {'serial': u['serial'], 'state': 'running', 'got': 0, 'end': None}
            return st
        e = st['ids'].get(u['id'])
        e = e if e and e['serial'] == u['serial'] else None
        if op == 'B':
            u['got'] = 4
        elif op == 'F':
            u['got'] = 10
        elif op == 'R':
            u['resp'] = True
        if e:
            e['got'] = u['got']
        fin = {'E': ('done',), 'O': ('error404',), 'X': ('error', 'done') if u['resp'] else ('error', 'error5'), 'A': ('error', 'done') if u['resp'] else ('error',)}.get(op)
        if fin:
            u['fin'] = fin
            if e:
                e['state'] = fin
                e['end'] = st['clock']
        return st

    def pcases():
        depth = 7 if th else 6
        for plan in (('a', 'b'), ('a', 'a')):
            st0 = {'u': [None, None], 'ids': {}, 'clock': 0, 'plan': plan, 'serial': 0}

            def gen(st, n, hist):
                if n and hist[-1][0] != 'S' or n == depth:
                    yield hist
                if n == depth:
                    return
                for op in OPS:
                    if op in 'TL':
                        if not st['ids'] or hist[-1][0] in 'TL':
                            continue
                        ws = (0,)
                    else:
                        ws = (0, 1)
                    for w in ws:
                        if op not in 'TL' and not enabled(st['u'][w], op):
                            continue
                        if w == 1 and not hist:
                            continue
                        yield from gen(step(st, op, w), n + 1, hist + ((op, w),))
            full = set()
            for h in gen(st0, 0, ()):
                if len(h) == depth:
                    yield from mkp(plan, h)

    serial = itertools.count()

    def mkp(plan, hist):
        sc = Script()
        j = next(serial)
        plan = tuple('%s%d' % (p, j) for p in plan)
        conn = {}
        back = {}
        nb = 0
        nc = 0
        shows = []
        st = {'u': [None, None], 'ids': {}, 'clock': 0, 'plan': plan, 'serial': 0}
        for op, w in hist:
            st = step(st, op, w)
            if op == 'S':
                conn[w] = nc
                nc += 1
                back[w] = None
                sc.connect(conn[w]).send(conn[w], req('POST', '/u?X-Progress-Id=%s' % plan[w], [('Content-Length', '10')])).q()
            elif op == 'B':
                sc.send(conn[w], b'0123').q()
            elif op == 'F':
                u = st['u'][w]
                left = 10 - hist_got(hist, op, w, st, conn, sc)
                # the backend connection is opened when the request is complete
                back[w] = 64 + nb
                nb += 1
                sc.send(conn[w], b'0123456789'[10 - left:]).q().drain(back[w])
            elif op == 'R':
                sc.send(back[w], b'HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\nab').q().drain(conn[w])
            elif op == 'E':
                sc.send(back[w], b'cde').q().close(back[w]).q().drain(conn[w])
            elif op == 'O':
                sc.send(back[w], b'HTTP/1.1 404 No\r\nContent-Length: 2\r\n\r\nno').q().close(back[w]).q().drain(conn[w])
            elif op == 'X':
                sc.close(back[w]).q().drain(conn[w])
            elif op == 'A':
                sc.close(conn[w]).q()
            elif op == 'T':
                sc.advance(15)
            elif op == 'L':
                sc.advance(25)
            if op == 'S':
                sc_got[(id(sc), w)] = 0
            elif op == 'B':
                sc_got[(id(sc), w)] = 4
            for i in sorted(set(plan)):
                sc.connect(nc).send(nc, req('GET', '/show?X-Progress-Id=' + i, [('Connection', 'close')])).q().drain(nc)
                shows.append((nc, i, len(shows), st['ids'].get(i), st['clock']))
                nc += 1
        yield (plan, hist, tuple((n, i, repr(e), c) for n, i, _, e, c in shows)), sc.reset()

    sc_got = {}

    def hist_got(hist, op, w, st, conn, sc):
        return sc_got.get((id(sc), w), 0)

    def pjudge(key, r):
        plan, hist, shows = key
        for n, i, e, clock in shows:
            e = eval(e)
            x, err = first(r, n)
            if err:
                return 'show %s: %s' % (i, err)
            try:
                d = json.loads(x.body.decode('latin-1'))
            except ValueError:
                return 'show %s: %s is not JSON' % (i, short(x.body))
            s = d.get('state')
            if e is None:
                if s != 'unknown':
                    return 'id %s is not tracked, but %r' % (i, d)
                continue
            if e['state'] == 'running':
                if s != 'running' or d.get('received') != e['got'] or d.get('request_size') != 10:
                    return 'id %s: %r, but the request is running with %d of 10 bytes' % (i, d, e['got'])
                continue
            old = e['end'] is not None and clock - e['end'] > 18
            if old and s == 'unknown':
                continue
            if 'done' in e['state'] and s == 'done':
                if d.get('received') != e['got'] or d.get('request_size') != 10:
                    return 'id %s: %r but %d of 10 bytes were received' % (i, d, e['got'])
                continue
            if s == 'error' and any(y.startswith('error') for y in e['state']):
                if e['state'] == ('error404',) and d.get('status') != 404:
                    return 'id %s: %r instead of status 404' % (i, d)
                continue
            return 'id %s: %r, expected %r' % (i, d, e['state'])
        return None
    ctx.explore('histories of tracked uploads', pconfig, pcases, pjudge, batch=8)

    # ids and callbacks
    def jcases():
        for c in range(33, 256):
            ch = chr(c)
            if ch in '#':
                continue
            for cb in ('a%sb' % ch, ch):
                sc = Script().connect(0).send(0, req('GET', '/jsonp?X-Progress-Id=zz&X-Progress-Callback=%s' % cb, [('Connection', 'close')])).q().drain(0)
                yield ('cb', cb), sc.reset()
        for i, ok in (('', False), ('q', True), ('w' * 128, True), ('w' * 129, False), ('%41', True), ('a.b-c_d', True)):
            sc = Script()
            sc.connect(0).send(0, req('POST', '/now?X-Progress-Id=%s' % i, [('Content-Length', '0')])).q().drain(0)
            for k, page in enumerate(('show', 'legacy', 'jsonp')):
                sc.connect(1 + k).send(1 + k, req('GET', '/%s?X-Progress-Id=%s' % (page, i), [('Connection', 'close')])).q().drain(1 + k)
            sc.connect(4).send(4, req('GET', '/show?X-Progress-Id=%sx' % i, [('Connection', 'close')])).q().drain(4)
            yield ('id', i, ok), sc.reset()

    def jjudge(key, r):
        if key[0] == 'cb':
            x, err = first(r, 0)
            if err:
                return err
            if x.status == 400:
                return None
            cb = key[1].split('&')[0]
            good = all(c in 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._' for c in cb)
            want = ((cb if good else 'progress') + '({"state": "unknown"})').encode('latin-1')
            ok = [want]
            if '&' in key[1] or ';' in key[1] or not cb:
                ok.append(b'({"state": "unknown"})')
                ok.append(b'progress({"state": "unknown"})')
                ok.append(b'a({"state": "unknown"})')
            return None if x.body in ok else 'callback %r gives %s' % (key[1], short(x.body))
        _, i, ok = key
        for k, (a, b) in enumerate((('', ''), ('new Object(', ')'), ('progress(', ')'))):
            x, err = first(r, 1 + k)
            if err:
                return err
            t = x.body.decode('latin-1')
            if not ok:
                if x.status == 200 and 'done' in t:
                    return 'id %r is tracked: %s' % (i, t)
                continue
            if x.status != 200 or not t.startswith(a) or not t.endswith(b):
                return 'format %d: %d %r' % (k, x.status, t)
            d = json.loads(t[len(a):len(t) - len(b)])
            if d.get('state') != 'done' or d.get('request_size') != 0 or d.get('received') != 0:
                return 'id %r: %r' % (i, d)
        x, err = first(r, 4)
        if err:
            return err
        if b'done' in x.body:
            return 'id %rx: %s' % (i, short(x.body))
        return None
    ctx.explore('progress ids, formats and callbacks', pconfig, jcases, jjudge)
