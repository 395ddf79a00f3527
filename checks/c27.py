"""C27: logs: every answered request is logged exactly once, with exact fields, and no client can forge lines or fields"""
import itertools, re, signal, struct, time
from h import *

T0 = 1700000000
UN = {ord('"'): 34, ord('\\'): 92, ord('b'): 8, ord('n'): 10, ord('r'): 13, ord('t'): 9, ord('v'): 11}


def unq(line):
    """a line of quoted fields separated by single spaces -> list of bytes"""
    out = []
    p = 0
    while True:
        if line[p:p + 1] != b'"':
            raise Bad('field does not start with a quote at %d: %r' % (p, line))
        p += 1
        f = bytearray()
        while True:
            c = line[p:p + 1]
            if c == b'':
                raise Bad('field not closed: %r' % line)
            if c == b'"':
                p += 1
                break
            if c == b'\\':
                d = line[p + 1:p + 2]
                if d == b'x':
                    if not re.fullmatch(rb'[0-9A-Fa-f]{2}', line[p + 2:p + 4]):
                        raise Bad('bad escape in %r' % line)
                    f.append(int(line[p + 2:p + 4], 16))
                    p += 4
                    continue
                if d == b'' or d[0] not in UN:
                    raise Bad('bad escape in %r' % line)
                f.append(UN[d[0]])
                p += 2
                continue
            if c[0] < 32 or c[0] == 127:
                raise Bad('control character in %r' % line)
            f += c
            p += 1
        out.append(bytes(f))
        if p == len(line):
            return out
        if line[p:p + 1] != b' ':
            raise Bad('text after the quote in %r' % line)
        p += 1


def lines(r, name='a.log'):
    d = r.logged.get(name, b'')
    if d and not d.endswith(b'\n'):
        raise Bad('incomplete last line %r' % d)
    return d.split(b'\n')[:-1]


# ---- escaping

def esc_conf(wd):
    return conf('''env.set "E" => "%%{req.header[x-a]}"; env.set "REMOTE_USER" => "%%{req.header[x-u]}";
respond 200 => "%%{req.header[x-a]}|%%{req.query}|%%{req.path}|%%{req.raw_path}|%%{req.header[x-u]}";
header.add "X-O" => "%%{req.header[x-a]}";
if req.host == "f" { docroot "%s/doc"; }
''' % wd, ['mod_accesslog'], setup='accesslog "%s/a.log"; accesslog.format "\\"%%{X-A}i\\" \\"%%{E}e\\" \\"%%{X-O}o\\" \\"%%q\\" \\"%%U\\" \\"%%r\\" \\"%%u\\" \\"%%{REMOTE_USER}e\\" \\"%%f\\"";' % wd)


def esc_cases(th):
    def gen():
        pay = [bytes([b]) for b in range(1, 256)]
        ctx = ((b'', b''), (b'a', b'z')) if th else ((b'a', b'z'),)
        evil = [b'" 200 "', b'\\" "', b'\\', b'\\\\"', b'"', b'""', b'\\x22', b'\xff\xfe', b'\x82\x82', b'a" "b" "c', b'-', b'\\n', b'%n%s', b'\xc3\xa4', b'\x7f']
        if th:
            evil += [bytes((a, b)) for a in (34, 92, 0x80, 0x82, 0xff, 0x7f, 1) for b in range(1, 256)]
        for where in ('x-a', 'x-u', 'query', 'path', 'pct', 'both'):
            for pre, post in ctx:
                for v in pay + evil:
                    v = pre + v + post
                    h, u, path, q = b'n', b'u', b'/p', b'k=v'
                    if where == 'x-a':
                        h = v
                    elif where == 'x-u':
                        u = v
                    elif where == 'query':
                        q = v
                    elif where == 'path':
                        path = b'/' + v
                    elif where == 'pct':
                        path = b'/' + b''.join(b'%%%02x' % c for c in v)
                    else:
                        h = u = v
                        path = b'/' + b''.join(b'%%%02x' % c for c in v)
                        q = b'x'
                    raw = b'GET %s?%s HTTP/1.0\r\nHost: f\r\nX-A: %s\r\nX-U: %s\r\n\r\n' % (path, q, h, u)
                    yield (where, v, path), Script().connect(0).send(0, raw).q().drain(0).reset(1.1).logwait()
    return gen


def esc_judge(key, r):
    where, v, path = key
    try:
        rs = http1.parse_responses(r.data.get(0, b''), eof=r.eof.get(0), methods=['GET'])[0]
        if not rs or rs[0].status != 200:
            ls = lines(r)
            return None if len(ls) <= 1 else 'refused request logged %d times: %r' % (len(ls), ls)
        ls = lines(r)
        if len(ls) != 1:
            return '%d lines for one request: %r' % (len(ls), ls)
        f = unq(ls[0])
        if len(f) != 9:
            return '%d fields instead of 9: %r' % (len(f), ls[0])
        b = rs[0].body
        m = re.fullmatch(rb'(.*)\|(.*)\|(.*)\|(.*)\|(.*)', b, re.S) if v.count(b'|') == 0 else None
        if m:
            want = [m.group(1), m.group(1), m.group(1), m.group(2), m.group(3), b'GET ' + m.group(4) + b' HTTP/1.0', m.group(5), m.group(5)]
            # %r has the target as sent
            want = [w or b'-' for w in want]
            for i, w in enumerate(want):
                if (f[i] or b'-') != w:
                    return 'field %d is %r instead of %r: %r' % (i, f[i], w, ls[0])
            if not f[8].endswith(b'/doc' + m.group(3)):
                return 'physical path %r for path %r' % (f[8], m.group(3))
    except Bad as e:
        return str(e)
    return None


# ---- values

VF = '%a|%h|%A|%p|%b|%B|%s|%>s|%<s|%m|%V|%v|%X|%I|%O|%T|%D|%t|%r|%u|%{None}i|%{None}o|%{None}e|%%|%q|%U|x'
BODIES = {'/e0': 0, '/b1': 1, '/b9': 9, '/b70': 70}


def val_conf(wd):
    os.makedirs(wd + '/doc', exist_ok=True)
    with open(wd + '/doc/file', 'wb') as f:
        f.write(b'f' * 3000)
    return conf('''
if req.path =^ "/b/" { scgi "unix:/s"; }
else if req.path == "/file" { docroot "%s/doc"; }
else if req.path == "/none" { respond 204; }
else if req.path == "/empty" { respond 200 => ""; }
else if req.path == "/404" { respond 404; }
else if req.path == "/redir" { respond 301; header.add "Location" => "/x"; }
else if req.path == "/name" { server.name "the.name"; respond 200 => "n"; }
else { respond 200 => "1234567890"; }
''' % wd, ['mod_accesslog', 'mod_scgi'], setup='accesslog "%s/a.log"; accesslog.format "%s"; keepalive.timeout 30; io.timeout 60;' % (wd, VF))


def tstr(t):
    return time.strftime('[%d/%b/%Y:%H:%M:%S +0000]', time.gmtime(t)).encode()


def val_cases(th):
    def gen():
        paths = ('/x', '/x?q=1', '/file', '/none', '/empty', '/404', '/redir', '/name', '/b/1')
        reqs = []
        for m in ('GET', 'HEAD', 'POST', 'POSTC'):
            for p in paths:
                for v, c in (('1.1', None), ('1.1', 'close'), ('1.0', None), ('1.0', 'keep-alive')):
                    reqs.append((m, p, v, c))
        delays = (0.0, 0.7, 2.4, 11.3) if th else (0.0, 2.4)
        for q in reqs:
            for d in (delays if q[1] == '/b/1' else (0.0,)):
                yield (('one', q), d, 0.0), build((q,), d, 0.0)
        sub = [q for q in reqs if q[2] == '1.1' and q[3] is None and (th or q[1] in ('/x', '/none', '/404', '/b/1', '/file'))]
        for a in sub:
            for b in sub:
                if not th and a[0] in ('HEAD', 'POSTC') and b[0] in ('HEAD', 'POSTC'):
                    continue
                yield (('two', a, b), 0.3, 4.5), build((a, b), 0.3, 4.5)
    return gen


def mkreq(q):
    m, p, v, c = q
    h = [] if c is None else [('Connection', c)]
    if m == 'POST':
        return req('POST', p, h + [('Content-Length', '7')], body=b'seven77', version=v)
    if m == 'POSTC':
        if v == '1.0':
            return req('POST', p, h + [('Content-Length', '0')], version=v)
        return req('POST', p, h + [('Transfer-Encoding', 'chunked')], body=b'3\r\nabc\r\n0\r\n\r\n', version=v)
    return req(m, p, h, version=v)


def build(qs, d, gap):
    sc = Script().connect(0)
    k = 64
    for i, q in enumerate(qs):
        if i:
            sc.advance(gap).q()
        sc.now().send(0, mkreq(q)).q()
        if q[1] == '/b/1':
            if d:
                sc.advance(d).q()
            sc.send(k, b'Status: 200\r\nContent-Length: 5\r\n\r\nabcde').close(k).q()
            k += 1
        sc.drain(0).now()
    return sc.reset(1.1).logwait()


def val_judge(key, r):
    kind, d, gap = key
    qs = kind[1:]
    try:
        ls = lines(r)
        if len(ls) != len(qs):
            return '%d lines for %d requests: %r' % (len(ls), len(qs), ls)
        # bytes of each response
        per = []
        start = 0
        for n, t in r.marks:
            per.append((n, t))
        for i, q in enumerate(qs):
            t1, t2 = per[2 * i][1], per[2 * i + 1][1]
            data = b''.join(x[1] for x in r.steps[per[2 * i][0]:per[2 * i + 1][0]] if x[0] == 0 and x[1] is not None)
            m = 'POST' if q[0] == 'POSTC' else q[0]
            rs = http1.parse_responses(data, eof=r.eof.get(0), methods=[m])[0]
            if len(rs) != 1:
                return 'no single response: %s' % short(data)
            bl = len(rs[0].body)
            f = ls[i].split(b'|')
            if len(f) != 27:
                return '%d fields: %r' % (len(f), ls[i])
            path, _, qu = q[1].partition('?')
            keep = not rs[0].close
            want = {0: b'10.0.0.1', 1: b'10.0.0.1', 2: b'127.0.0.1', 3: b'80', 4: b'%d' % bl if bl else b'-', 5: b'%d' % bl, 6: b'%d' % rs[0].status, 7: b'%d' % rs[0].status, 8: b'%d' % rs[0].status,
                    9: m.encode(), 10: b'x', 11: b'the.name' if path == '/name' else b'x', 12: b'+' if keep else b'-', 13: b'%d' % len(mkreq(q)), 14: b'%d' % len(data),
                    18: ('%s %s HTTP/%s' % (m, q[1], q[2])).encode(), 19: b'-', 20: b'-', 21: b'-', 22: b'-', 23: b'%', 24: qu.encode() or b'-', 25: path.encode(), 26: b'x'}
            for j, w in want.items():
                if f[j] != w and j not in (4, 5):
                    return 'request %d %r: field %d (%s) is %r instead of %r in %r' % (i, q, j, VF.split('|')[j], f[j], w, ls[i])
            raw = len(data) - data.index(b'\r\n\r\n') - 4
            for j in (4, 5):
                # with or without the chunk headers
                if f[j] not in (want[j], b'%d' % raw if raw else want[j]):
                    return 'request %d %r: field %d is %r instead of %r in %r' % (i, q, j, f[j], want[j], ls[i])
            # durations: from the first byte to the last
            dt = t2 - t1
            if not dt - 0.06 <= int(f[16]) / 1e6 <= dt + 0.06:
                return 'request %d took %.3f s, logged %s us' % (i, dt, f[16])
            if not dt - 1.06 <= int(f[15]) <= dt + 0.06:
                return 'request %d took %.3f s, logged %s s' % (i, dt, f[15])
            if f[17] not in (tstr(t1 - 0.05), tstr(t1), tstr(t1 + 0.05)):
                return 'request %d received at %s, logged %r' % (i, tstr(t1), f[17])
    except Bad as e:
        return str(e)
    return None


# ---- histories of connections

def hist_conf(wd):
    return conf('''
if req.path =^ "/b/" { scgi "unix:/s"; }
else if req.path == "/off" { accesslog ""; respond 200 => "off"; }
else if req.path =^ "/o/" { accesslog "%s/o.log"; accesslog.format "<%%U>"; respond 200 => "o"; }
else { respond 200 => "%%{req.path}"; }
''' % wd, ['mod_accesslog', 'mod_scgi'], setup='accesslog "%s/a.log"; accesslog.format "%%U %%X"; keepalive.timeout 300; io.timeout 300;' % wd)


def hist_cases(th):
    def gen():
        depth = 6 if th else 4
        # per connection: 'd' direct request, 'p' pipelined pair, 'b' backend request, 'a' backend answers, 'h' backend sends half, 'x' client closes, 'f' off, 'o' other log
        def rec(seq, st):
            yield seq
            if len(seq) == depth:
                return
            for c in (0, 1):
                if c == 1 and not any(x[0] == 0 for x in seq):
                    continue
                s = st[c]
                if s == 'closed':
                    continue
                if s == 'idle':
                    ops = 'dpbofx'
                elif s == 'wait':
                    ops = 'ahx'
                else:
                    ops = 'ax'
                for o in ops:
                    n = 'closed' if o == 'x' else 'wait' if o == 'b' else 'half' if o == 'h' else 'idle'
                    yield from rec(seq + ((c, o),), tuple(n if i == c else x for i, x in enumerate(st)))
        for seq in rec((), ('idle', 'idle')):
            if not seq or (len(seq) < depth and all(x[0] == 0 for x in seq) and not th and len(seq) < depth - 1):
                continue
            sc = Script().connect(0).connect(1).q()
            nb = 64
            bk = {}
            n = 0
            for c, o in seq:
                n += 1
                if o == 'd':
                    sc.send(c, req('GET', '/d%d' % n))
                elif o == 'p':
                    sc.send(c, req('GET', '/p%d' % n) + req('GET', '/q%d' % n))
                elif o == 'b':
                    sc.send(c, req('GET', '/b/%d' % n)).q()
                    bk[c] = nb
                    nb += 1
                elif o == 'o':
                    sc.send(c, req('GET', '/o/%d' % n))
                elif o == 'f':
                    sc.send(c, req('GET', '/off'))
                elif o == 'a':
                    if seq[:n - 1] and [x for x in seq[:n - 1] if x[0] == c][-1][1] == 'h':
                        sc.send(bk[c], b'bb').close(bk[c])
                    else:
                        sc.send(bk[c], b'Status: 200\r\nContent-Length: 4\r\n\r\naabb').close(bk[c])
                elif o == 'h':
                    sc.send(bk[c], b'Status: 200\r\nContent-Length: 4\r\n\r\naa')
                else:
                    sc.close(c)
                sc.q().drain(0).drain(1)
            yield seq, sc.reset(1.1).logwait()
    return gen


def hist_judge(seq, r):
    want, other = [], []
    maybe = set()
    open_ = {}
    for n, (c, o) in enumerate(seq, 1):
        if o == 'd':
            want.append((c, b'/d%d +' % n))
        elif o == 'p':
            want += [(c, b'/p%d +' % n), (c, b'/q%d +' % n)]
        elif o == 'o':
            other.append(b'</o/%d>' % n)
        elif o == 'b':
            open_[c] = n
        elif o == 'a':
            want.append((c, b'/b/%d +' % open_.pop(c)))
        elif o == 'x' and c in open_:
            k = open_.pop(c)
            half = [x for x in seq[:n - 1] if x[0] == c][-1][1] == 'h'
            if half:
                want.append((c, b'/b/%d X' % k))
            else:
                maybe.add(b'/b/%d X' % k)
    # the end of the test closes the connections
    for c, k in open_.items():
        if [x for x in seq if x[0] == c][-1][1] == 'h':
            want.append((c, b'/b/%d X' % k))
        else:
            maybe.add(b'/b/%d X' % k)
    try:
        ls = lines(r)
        # drop the optional ones once
        for m in maybe:
            if m in ls:
                ls.remove(m)
        if sorted(ls) != sorted(x[1] for x in want):
            return 'logged %r instead of %r' % (ls, [x[1] for x in want])
        for c in (0, 1):
            mine = [x[1] for x in want if x[0] == c]
            if [x for x in ls if x in mine] != mine:
                return 'order of connection %d: logged %r instead of %r' % (c, ls, mine)
        if sorted(lines(r, 'o.log')) != sorted(other):
            return 'other log has %r instead of %r' % (lines(r, 'o.log'), other)
        if set(r.logged) - {'a.log', 'o.log'}:
            return 'unexpected log %r' % r.logged
    except Bad as e:
        return str(e)
    return None


# ---- faults while writing

EINTR, EAGAIN, ENOSPC, EIO = 4, 11, 28, 5


def fault_cases(th):
    def gen():
        alpha = (0, 1, 5, 100000, -EINTR, -EAGAIN)
        for n in range(1, 7 if th else 5):
            for p in itertools.product(alpha, repeat=n):
                if n > 4 and p[-1] == 100000:
                    continue
                sc = Script().connect(0).logplan([x if x else 2 for x in p])
                for i in range(3):
                    sc.send(0, req('GET', '/d%d' % i)).q()
                yield ('cut', p), sc.drain(0).advance(1.1).q().logwait().reset(1.1).logwait()
        for e in (ENOSPC, EIO):
            for at in range(3):
                for cut in (0, 3):
                    sc = Script().connect(0).logplan([100000] * at + ([cut] if cut else []) + [-e])
                    for i in range(3):
                        sc.send(0, req('GET', '/d%d' % i)).q()
                    yield ('fail', (at, cut)), sc.drain(0).advance(1.1).q().logwait().reset(1.1).logwait()
    return gen


def fault_judge(key, r):
    kind, p = key
    if len(http1.parse_responses(r.data.get(0, b''), False, ['GET'] * 3)[0]) != 3:
        return 'responses missing: %s' % short(r.data.get(0, b''))
    full = [b'/d%d +\n' % i for i in range(3)]
    if kind == 'fail':
        at, cut = p
        full[at] = full[at][:cut]
    got = r.logged.get('a.log', b'')
    if got != b''.join(full):
        return 'logged %r instead of %r' % (got, b''.join(full))
    return None


# ---- stop

def stop_cases(th):
    def gen():
        ops = ('d', 'b', 'ba', 'bh', 'p')
        for n in (1, 2, 3):
            for seq in itertools.product(ops, repeat=n):
                for sg in (signal.SIGTERM, signal.SIGINT):
                    for late in (0, 1):
                        if (n == 3 and sg == signal.SIGINT) and not th:
                            continue
                        sc = Script()
                        nb = 64
                        bk = []
                        for i, o in enumerate(seq):
                            sc.connect(i)
                            if o == 'd':
                                sc.send(i, req('GET', '/d%d' % i)).q()
                            elif o == 'p':
                                sc.send(i, req('GET', '/p%d' % i) + req('GET', '/q%d' % i)).q()
                            else:
                                sc.send(i, req('GET', '/b/%d' % i)).q()
                                bk.append((i, o, nb))
                                nb += 1
                        for i, o, k in bk:
                            if o != 'b':
                                sc.send(k, b'Status: 200\r\nContent-Length: 4\r\n\r\n' + (b'aabb' if o == 'ba' else b'aa')).q()
                        for i in range(n):
                            sc.drain(i)
                        sc.sig(sg).q()
                        if late:
                            for i, o, k in bk:
                                if o != 'ba':
                                    sc.send(k, b'bb' if o == 'bh' else b'Status: 200\r\nContent-Length: 4\r\n\r\naabb').close(k).q()
                        for i in range(n):
                            sc.drain(i)
                        yield (seq, late), sc.advance(20).q()
    return gen


def stop_judge(key, r):
    seq, late = key
    if r.exited is None:
        return 'the server did not stop'
    ls = lines(r)
    for i, o in enumerate(seq):
        names = {'d': ['/d%d'], 'p': ['/p%d', '/q%d']}.get(o, ['/b/%d'])
        for nm in names:
            c = len([l for l in ls if l.split(b' ')[0] == (nm % i).encode()])
            answered = o in ('d', 'p', 'ba') or late or o == 'bh'
            if c > 1 or (answered and c != 1):
                return '%s logged %d times: %r' % (nm % i, c, ls)
    return None


# ---- error log: levels, targets and lines of backends

def lvl_cases(th):
    opts = (None, 'A', 'B', '')
    out = []
    for info, back, dflt in itertools.product(opts, repeat=3):
        out.append((info, back, dflt))
    return out


def logmap(wd, m):
    d = []
    for k, v in zip(('"info"', '"backend"', 'default'), m):
        if v is not None:
            d.append('%s => "%s"' % (k, '%s/%s.log' % (wd, v) if v else ''))
    return '[%s]' % ', '.join(d)


def lvl_conf(maps):
    def f(wd):
        c = []
        for i, m in enumerate(maps):
            if any(x is not None for x in m):
                c.append('if req.query == "%d" { log %s; }' % (i, logmap(wd, m)))
        return conf('\n'.join(c) + '\nlog.write "M %{req.path}";\nfastcgi.log_plain_errors true; fastcgi "unix:/f";', ['mod_fastcgi'], setup='log ["info" => "%s/S.log", default => "%s/D.log"];' % (wd, wd))
    return f


def rec(t, data):
    return struct.pack('>BBHHBx', 1, t, 1, len(data), 0) + data


def fcgi_answer(err):
    return (rec(7, err) if err else b'') + rec(6, b'Status: 200\r\n\r\nok') + rec(6, b'') + rec(3, b'\0' * 8)


def run(ctx):
    th = ctx.thorough
    ctx.explore('escaping', esc_conf, esc_cases(th), esc_judge, batch=60)
    ctx.explore('values', val_conf, val_cases(th), val_judge, batch=40)
    ctx.explore('histories', hist_conf, hist_cases(th), hist_judge, batch=60)
    ctx.explore('write faults', hist_conf, fault_cases(th), fault_judge, batch=60)
    ctx.explore('stop', hist_conf, stop_cases(th), stop_judge, isolate=True)

    maps = lvl_cases(th)

    def lc():
        for i, m in enumerate(maps):
            sc = Script().connect(0).send(0, req('GET', '/x', version='1.0').replace(b'/x', b'/x?%d' % i)).q()
            yield (i, m), sc.send(64, fcgi_answer(b'err one\ntwo\n')).close(64).q().drain(0).reset(1.1).logwait()

    def lj(key, r):
        i, m = key
        if b'ok' not in r.data.get(0, b''):
            return 'no answer: %s' % short(r.data.get(0, b''))
        want = {}
        if all(x is None for x in m):
            ti, tb = 'S', 'D'
        else:
            ti = m[0] if m[0] is not None else m[2]
            tb = m[1] if m[1] is not None else m[2]
        if ti:
            want.setdefault(ti, []).append('M')
        if tb:
            want.setdefault(tb, []).extend(['err one', 'two'])
        got = {k[:-4]: [l.decode('latin-1') for l in v.split(b'\n')[:-1]] for k, v in r.logged.items()}
        got = {k: [l for l in v if '(debug) server.c' not in l] for k, v in got.items()}
        got = {k: [('M' if re.search(r'M /x$', l) else l) for l in v] for k, v in got.items() if v}
        if got != want:
            return 'logged %r instead of %r' % (got, want)
        return None
    ctx.explore('log targets by level', lvl_conf(maps), lc, lj, batch=20)

    def fc():
        al = (b'a', b'bc', b'\n', b'\r', b' ')
        for n in range(0, 8 if th else 6):
            for t in itertools.product(al, repeat=n):
                s = b''.join(t)
                yield s, Script().connect(0).send(0, req('GET', '/y', version='1.0')).q().send(64, fcgi_answer(s)).close(64).q().drain(0).reset(1.1).logwait()

    def fj(s, r):
        if b'ok' not in r.data.get(0, b''):
            return 'no answer: %s' % short(r.data.get(0, b''))
        want = [l for l in re.split(rb'[\r\n]+', s) if l]
        got = [l for l in r.logged.get('D.log', b'').split(b'\n')[:-1] if b'(debug) server.c' not in l]
        if got != want:
            return 'stderr %r of the backend logged as %r' % (s, got)
        return None
    ctx.explore('lines of backends', lvl_conf([]), fc, fj, batch=40)

    # malformed formats are refused
    bad = ['%', '%z', '%{x', '%{x}', 'a%', '%i', '%o', '%e', '%{}', '%<', '%>', '%l', '%n', '%P', '%5s', '%!s', '%s%', '%{a}i%{', '%-s']
    good = ['', '%%', '%{x}i', 'text', '%s%s', '%>s', '%<s', '%{a b}e', '%%%%', '%{}i', '%{x}s']
    n = 0
    for fmt, ok in [(x, False) for x in bad] + [(x, True) for x in good]:
        try:
            s = Sim(conf('respond 200 => "x";', ['mod_accesslog'], setup='accesslog "%s/c.log"; accesslog.format "%s";' % (ctx.tmp, fmt)), ctx.tmp + '/fmt%d' % n)
            s.run(Script().connect(0).send(0, req('GET', '/')).q().drain(0).reset(1.1).logwait())
            s.close()
            started = True
        except SimDied as e:
            started = False
            if e.rc != 1:
                ctx.violation('format %r: the server died with %s\n%s' % (fmt, e.rc, e.log[-2000:]), {'format': fmt})
        n += 1
        if started != ok:
            ctx.violation('format %r %s' % (fmt, 'accepted' if started else 'refused'), {'format': fmt})
    ctx.count('formats', n, n, [0, 1])
