"""C19: patterns, rewrite, rewrite_raw and redirect"""
import itertools, re
from h import *
import reqmodel

GROUP = 48
UNRES = set(b'!()*-./0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz')


def enc(b):
    return b''.join(bytes([c]) if c in UNRES else b'%%%02X' % c for c in b)


def up(b):
    """escapes are equal regardless of the case of their digits"""
    return re.sub(rb'%[0-9a-fA-F]{2}', lambda m: m.group(0).upper(), b)


def dispatch(progs, pre=''):
    l = [pre]
    for g in range(0, len(progs), GROUP):
        l.append('if req.host =^ "g%d-" {' % (g // GROUP))
        for i in range(g, min(g + GROUP, len(progs))):
            l.append(' %sif req.host == "g%d-%d" { %s }' % ('else ' if i > g else '', g // GROUP, i, progs[i]))
        l.append('}')
    return '\n'.join(l)


def host(i):
    return 'g%d-%d' % (i // GROUP, i)


def cfgstr(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'


# ---------------------------------------------------------------- pattern model
class Env:
    """variables, captures of the action, captures of the last condition"""
    def __init__(self, var, nth=None, prev=None):
        self.var, self.nth, self.prev = var, nth, prev


def caps(m, frm, to):
    if m is None:
        return b''
    g = [m.group(0)] + [m.group(i) or b'' for i in range(1, (m.lastindex_all if hasattr(m, 'lastindex_all') else m.re.groups) + 1)]
    BIG = 1 << 32
    frm = BIG if frm is None else frm
    to = BIG if to is None else to
    if frm <= to:
        idx = range(frm, min(to, len(g) - 1) + 1)
    else:
        idx = range(min(frm, len(g) - 1), to - 1, -1)
    return b''.join(g[i] for i in idx if i < len(g))


def tok_eval(t, env):
    kind = t[0]
    if kind == 'lit':
        return t[2]
    if kind == '$':
        return caps(env.nth, t[2], t[3])
    if kind == '%':
        return caps(env.prev, t[2], t[3])
    v = env.var.get(t[2], b'')
    return enc(v) if kind == 'enc' else v


def ev(tokens, env):
    return b''.join(tok_eval(t, env) for t in tokens)


LIT = [('lit', 'x', b'x'), ('lit', '/', b'/'), ('lit', '\\?', b'?'), ('lit', '\\$', b'$'), ('lit', '\\%', b'%'), ('lit', '\\\\', b'\\'), ('lit', '1', b'1'), ('lit', ']', b']')]
NTH = [('$', '$0', 0, 0), ('$', '$1', 1, 1), ('$', '$2', 2, 2), ('$', '$9', 9, 9), ('$', '$[1-2]', 1, 2), ('$', '$[3-1]', 3, 1), ('$', '$[-1]', None, 1), ('$', '$[1-]', 1, None), ('$', '$[10]', 10, 10), ('$', '$[2-12]', 2, 12), ('$', '$[0]', 0, 0), ('$', '$[10-11]', 10, 11)]
PRE = [('%', '%0', 0, 0), ('%', '%1', 1, 1), ('%', '%3', 3, 3), ('%', '%[0-1]', 0, 1), ('%', '%[2-0]', 2, 0), ('%', '%[-0]', None, 0), ('%', '%[1-]', 1, None)]
VAR = [('var', '%{req.path}', 'path'), ('enc', '%{enc:req.path}', 'path'), ('var', '%{req.query}', 'query'), ('enc', '%{enc:req.query}', 'query'), ('var', '%{req.header[X-V]}', 'xv'), ('enc', '%{enc:req.header[X-V]}', 'xv'),
       ('var', '%{request.method}', 'method'), ('var', '%{req.scheme}', 'scheme'), ('var', '%{req.env[E]}', 'env'), ('var', '%{request.environment[nope]}', 'nope'), ('var', '%{req.localport}', 'lport'), ('var', '%{req.remoteip}', 'rip'), ('var', '%{req.length}', 'len'), ('var', '%{req.is_handled}', 'handled')]
TOK = LIT + NTH + PRE + VAR
TOK3 = [LIT[0], LIT[2], LIT[6], NTH[0], NTH[1], NTH[4], NTH[5], PRE[1], PRE[3], PRE[6], VAR[0], VAR[1], VAR[4]]

AREGEX = [r'^/(a*)(b)?(.*)$', r'(a)|(b)', r'^/((((((((((.*))))))))))$', r'']
CREGEX = [r'^(x*)(y)?(.*)$', r'z']
REQS = [('/', b'', b''), ('/aab', b'q=1', b'xxy'), ('/b%20%3F%25', b'a%20b', b'y z'), ('/aXc/%C3%A9', b'a+b&c=d', b'\xe9<"">')]


def pat_progs(th):
    pats = [()] + [(a,) for a in TOK] + list(itertools.product(TOK, repeat=2)) + list(itertools.product(TOK if th else TOK3, repeat=3))
    out = []
    for i, p in enumerate(pats):
        out.append((p, i % len(AREGEX), i % len(CREGEX)))
        if len(p) < (3 if th else 2):
            for a in range(len(AREGEX)):
                for c in range(len(CREGEX)):
                    if (a, c) != (i % len(AREGEX), i % len(CREGEX)):
                        out.append((p, a, c))
    return out


def pat_prog(pr):
    p, a, c = pr
    t = ''.join(x[1] for x in p)
    # the rewrite puts the result into the query string; the condition provides the % captures
    act = 'rewrite %s => %s;' % (cfgstr(AREGEX[a]), cfgstr('/x?' + t))
    return 'if req.header["X-V"] =~ %s { %s respond 200 => "[%%{req.query}]"; } else { %s respond 200 => "[%%{req.query}]"; }' % (cfgstr(CREGEX[c]), act, act)


def pat_want(pr, rq):
    p, a, c = pr
    path, q, xv = rq
    dec = reqmodel.url_decode(path.encode())
    m = re.search(AREGEX[a].encode(), dec, re.S)
    pm = re.search(CREGEX[c].encode(), xv)
    var = {'path': dec, 'query': q, 'xv': xv, 'method': b'GET', 'scheme': b'http', 'env': b'', 'lport': b'80', 'rip': b'10.0.0.1', 'len': b'0', 'handled': b''}
    var['handled'] = None
    if m is None:
        return q
    return ev(p, Env(var, m, pm))


def pat_cases(progs):
    for ri, rq in enumerate(REQS):
        for k in range(0, len(progs), 32):
            d = b''
            for i in range(k, min(k + 32, len(progs))):
                d += b'GET ' + rq[0].encode() + (b'?' + rq[1] if rq[1] else b'') + b' HTTP/1.1\r\nHost: ' + host(i).encode() + b'\r\nX-V: ' + rq[2] + b'\r\n\r\n'
            yield (ri, k), Script().connect(0).send(0, d).q().drain(0).reset()


def pat_judge(progs):
    def judge(key, r):
        ri, k = key
        n = min(32, len(progs) - k)
        rs, err = bodies(r, 0, ['GET'] * n)
        if err:
            return err
        if len(rs[0]) != n:
            return '%d responses for %d requests' % (len(rs[0]), n)
        for i, x in enumerate(rs[0]):
            want = pat_want(progs[k + i], REQS[ri])
            if up(x.body) != up(b'[' + want + b']'):
                return 'pattern %s regex %s condition %s for %r: %r expected %r' % (''.join(t[1] for t in progs[k + i][0]), AREGEX[progs[k + i][1]], CREGEX[progs[k + i][2]], REQS[ri], x.body, want)
    return judge


# ---------------------------------------------------------------- rewrite rule lists
L = lambda s: ('lit', s, s.encode())
RULES = [
    (r'^/a', [L('/new')], None),
    (r'^/(a.*)/(b.*)$', [L('/'), NTH[2], L('/'), NTH[1]], None),
    (r'^/(.*)$', [L('/p/'), NTH[1]], [L('id='), NTH[1]]),
    (r'b', [L('/b/../c//d/./e')], []),
    (r'^/q/(.*)', [L('/'), NTH[1]], [VAR[2], L('&x=1')]),
    (r'^/$', [L('/root'), ('lit', '\\?', b'?'), L('x')], None),
    (r'^/u(.*)', [NTH[1]], [VAR[0]]),
    (r'c$', [VAR[0], L('/'), VAR[1]], None),
    (None, [L('/all')], None),
]
RPATHS = ['/', '/a', '/ab/bc', '/b', '/q/z', '/u', '/u../x', '/c', '/x%3Fy', '/a%2Fb/b%20c', '/c%25c', '/zzz']
RQ = ['', 'k=v', 'a?b']


def rule_text(rule):
    rx, p, q = rule
    t = ''.join(x[1] for x in p) + ('?' + ''.join(x[1] for x in q) if q is not None else '')
    return (cfgstr(rx) if rx is not None else None), cfgstr(t)


def rw_text(idx, name='rewrite', rules=RULES):
    if idx == (8,) and rules is RULES:
        return '%s %s;' % (name, rule_text(rules[8])[1])
    l = []
    for i in idx:
        rx, t = rule_text(rules[i])
        l.append('%s => %s' % (rx if rx is not None else '"^"', t))
    return '%s %s;' % (name, l[0] if len(l) == 1 else '[' + ', '.join(l) + ']')


def simplify(p):
    return reqmodel.simplify(p)


def rw_apply(idx, state):
    path, query, hdr = state
    for i in idx:
        rx, p, q = RULES[i]
        m = re.search((rx if rx is not None else '^').encode(), path) if not (rx is None and len(idx) == 1) else None
        if m is None and not (rx is None and len(idx) == 1):
            continue
        env = Env({'path': path, 'query': query}, m, None)
        np = simplify(ev(p, env))
        nq = ev(q, env) if q is not None else query
        return np, nq, True
    return path, query, hdr


def rw_progs(th):
    n = range(len(RULES))
    out = [((i,),) for i in n] + [((i, j),) for i in n for j in n]
    out += [((i, j, k),) for i in n for j in n for k in n][::1 if th else 3]
    out += [((i,), (j,)) for i in n for j in n]
    out += [((i,), (j,), (k,)) for i in n for j in n for k in n][::1 if th else 4]
    return out


def rw_prog(pr):
    return ' '.join(rw_text(x) for x in pr) + ' respond 200 => "%{req.path}|%{req.query}|%{req.raw_path}";'


def rw_cases(progs):
    for pi in range(len(RPATHS)):
        for qi in range(len(RQ)):
            for k in range(0, len(progs), 32):
                d = b''.join(req('GET', RPATHS[pi] + ('?' + RQ[qi] if RQ[qi] else ''), [], host=host(i)) for i in range(k, min(k + 32, len(progs))))
                yield (pi, qi, k), Script().connect(0).send(0, d).q().drain(0).reset()


def encq(q):
    return b''.join(bytes([c]) if 0x20 < c < 0x7f else b'%%%02X' % c for c in q)


def rw_judge(progs):
    def judge(key, r):
        pi, qi, k = key
        n = min(32, len(progs) - k)
        rs, err = bodies(r, 0, ['GET'] * n)
        if err:
            return err
        if len(rs[0]) != n:
            return '%d responses for %d requests' % (len(rs[0]), n)
        for i, x in enumerate(rs[0]):
            st = (simplify(reqmodel.url_decode(RPATHS[pi].encode())), RQ[qi].encode(), False)
            for idx in progs[k + i]:
                st = rw_apply(idx, st)
            raw = enc(st[0]) + (b'?' + encq(st[1]) if st[1] else b'') if st[2] else (RPATHS[pi] + ('?' + RQ[qi] if RQ[qi] else '')).encode()
            want = st[0] + b'|' + st[1] + b'|' + raw
            if up(x.body) != up(want):
                return 'rewrite %s for %s?%s: %r expected %r' % (rw_prog(progs[k + i]), RPATHS[pi], RQ[qi], x.body, want)
    return judge


# ---------------------------------------------------------------- where the query of a target starts
SPL = [('x', b'x'), ('\\\\', b'\\'), ('\\?', b'?'), ('?', None), ('$1', b'C'), ('\\$', b'$')]


def spl_progs(th):
    return [t for n in range(0, 6 if th else 5) for t in itertools.product(range(len(SPL)), repeat=n)]


def spl_prog(t):
    return 'rewrite "^/(C)" => %s; respond 200 => "%%{req.path}|%%{req.query}";' % cfgstr('/' + ''.join(SPL[i][0] for i in t))


def spl_cases(progs):
    for q in ('', 'old'):
        for k in range(0, len(progs), 32):
            d = b''.join(req('GET', '/C' + ('?' + q if q else ''), [], host=host(i)) for i in range(k, min(k + 32, len(progs))))
            yield (q, k), Script().connect(0).send(0, d).q().drain(0).reset()


def spl_judge(progs):
    def judge(key, r):
        q, k = key
        n = min(32, len(progs) - k)
        rs, err = bodies(r, 0, ['GET'] * n)
        if err:
            return err
        if len(rs[0]) != n:
            return '%d responses for %d requests' % (len(rs[0]), n)
        for i, x in enumerate(rs[0]):
            path, query = b'/', None
            for j in progs[k + i]:
                v = SPL[j][1]
                if v is None and query is None:
                    query = b''
                elif query is None:
                    path += v
                else:
                    query += v if v is not None else b'?'
            want = simplify(path) + b'|' + (query if query is not None else q.encode())
            if x.body != want:
                return '%s with query %r: %r expected %r' % (spl_prog(progs[k + i]), q, x.body, want)
    return judge


# ---------------------------------------------------------------- rewrite_raw
RAWRULES = [
    (r'^/a(.*)$', [L('/new'), NTH[1]], None),
    (r'%2[fF]', [L('/slash')], None),
    (r'\?(.*)$', [L('/qs/'), NTH[1]], None),
    (r'^([^?]*)\?(.*)$', [NTH[1], L('/x/../?'), NTH[2], L('&y')], None),
    (r'^/b', [L('/b%20c'), ('lit', '\\%', b'%')][:1], None),
    (r'.', [NTH[0], L('//z')], None),
]
RAWRULES[4] = (r'^/b', [L('/b'), ('lit', '\\%20c', b'%20c')], None)


def raw_apply(idx, raw):
    for i in idx:
        rx, p, q = RAWRULES[i]
        m = re.search(rx.encode(), raw)
        if m:
            return ev(p, Env({}, m, None)), True
    return raw, False


def raw_progs(th):
    n = range(len(RAWRULES))
    return [((i,),) for i in n] + [((i, j),) for i in n for j in n] + [((i,), (j,)) for i in n for j in n] + [((i, j, k),) for i in n for j in n for k in n]


def raw_prog(pr):
    return ' '.join(rw_text(x, 'rewrite_raw', RAWRULES) for x in pr) + ' respond 200 => "%{req.path}|%{req.query}|%{req.raw_path}";'


RAWPATHS = ['/', '/a', '/a%20b', '/a%2Fb?x=y', '/b?q', '/c/%2e%2e/d', '/x?a?b', '/ab%2f']


def raw_cases(progs):
    for pi in range(len(RAWPATHS)):
        for k in range(0, len(progs), 32):
            d = b''.join(req('GET', RAWPATHS[pi], [], host=host(i)) for i in range(k, min(k + 32, len(progs))))
            yield (pi, k), Script().connect(0).send(0, d).q().drain(0).reset()


def raw_judge(progs):
    def judge(key, r):
        pi, k = key
        n = min(32, len(progs) - k)
        rs, err = bodies(r, 0, ['GET'] * n)
        if err:
            return err
        if len(rs[0]) != n:
            return '%d responses for %d requests' % (len(rs[0]), n)
        for i, x in enumerate(rs[0]):
            raw = RAWPATHS[pi].encode()
            for idx in progs[k + i]:
                raw, ch = raw_apply(idx, raw)
            p, _, q = raw.partition(b'?')
            want = simplify(reqmodel.url_decode(p)) + b'|' + q + b'|' + raw
            if up(x.body) != up(want):
                return '%s for %s: %r expected %r' % (raw_prog(progs[k + i]), RAWPATHS[pi], x.body, want)
    return judge


# ---------------------------------------------------------------- redirect
RD = [
    (None, 'http://n.example/x'), (None, '/abs'), (None, '/abs?q=%{req.query}'), (None, '?new'), (None, './rel'), (None, './'), (None, '/'),
    (r'^/a(.*)$', 'https://h%{enc:req.path}?$1'), (r'^/d/(.*)$', './$1'), (r'b', '?%{req.query}&z'), (r'^/nomatch', '/no'), (r'(c)|(d)', '/$1-$2'),
]
RDP = ['/', '/a', '/a/b', '/d/e/f', '/d/', '/b%20c/x%3Fy', '/x', '/%C3%A9/%22', '/a%2F..%2Fc', '/a%0d%0aSet-Cookie:%20x=y/z']


def rd_progs():
    n = range(len(RD))
    out = [((i,), 0) for i in n] + [((i, j), 0) for i in n for j in n]
    out += [((i,), 1) for i in n]        # already handled: redirect must not interfere
    return out


def rd_prog(pr):
    idx, handled = pr
    pre = 'respond 200 => "first"; ' if handled else ''
    if len(idx) == 1 and RD[idx[0]][0] is None:
        return pre + 'redirect %s; respond 200 => "none";' % cfgstr(RD[idx[0]][1])
    l = ['%s => %s' % (cfgstr(RD[i][0] or '^'), cfgstr(RD[i][1])) for i in idx]
    return pre + 'redirect %s; respond 200 => "none";' % (l[0] if len(l) == 1 else '[' + ', '.join(l) + ']')


def rd_want(idx, path, query, auth):
    dec = simplify(reqmodel.url_decode(path))
    base = b'http://' + auth
    for i in idx:
        rx, t = RD[i]
        m = re.search((rx or '^').encode(), dec, re.S)
        if not m:
            continue
        t = t.encode().replace(b'%{req.query}', query).replace(b'%{enc:req.path}', enc(dec))
        t = re.sub(rb'\$(\d)', lambda x: (m.group(int(x.group(1))) or b'') if int(x.group(1)) <= m.re.groups else b'', t)
        raw = RD[i][1]
        if raw[0] == '/':
            return base + t
        if raw[0] == '?':
            return base + enc(dec) + t
        if raw.startswith('./'):
            return base + enc(dec[:dec.rindex(b'/') + 1]) + t[2:]
        return t
    return None


def rd_cases(progs):
    for pi in range(len(RDP)):
        for q in ('', 'k=v'):
            for port in ('', ':8080'):
                for k in range(0, len(progs), 32):
                    d = b''.join(req('GET', RDP[pi] + ('?' + q if q else ''), [], host=host(i) + port) for i in range(k, min(k + 32, len(progs))))
                    yield (pi, q, port, k), Script().connect(0).send(0, d).q().drain(0).reset()


def rd_judge(progs):
    def judge(key, r):
        pi, q, port, k = key
        n = min(32, len(progs) - k)
        rs, err = bodies(r, 0, ['GET'] * n)
        if err:
            return err
        if len(rs[0]) != n:
            return '%d responses for %d requests' % (len(rs[0]), n)
        for i, x in enumerate(rs[0]):
            idx, handled = progs[k + i]
            want = rd_want(idx, RDP[pi].encode(), q.encode(), (host(k + i) + port).encode())
            if handled:
                if x.status != 200 or x.body != b'first' or x.get('Location'):
                    return 'redirect after another handler changed the response: %r' % (x,)
                continue
            if x.get('Set-Cookie'):
                return 'header injection through redirect'
            if want is None:
                if x.status != 200 or x.get('Location'):
                    return '%s for %s: unexpected redirect %d %r' % (rd_prog(progs[k + i]), RDP[pi], x.status, x.get('Location'))
            else:
                loc = [v.encode('latin-1') if isinstance(v, str) else v for v in x.get('Location')]
                w = [re.sub(rb'[\x00-\x1f]', b'_', want)]
                if x.status != 301 or [up(z) for z in loc] != [up(z) for z in w]:
                    return '%s for %s?%s: %d %r expected 301 %r' % (rd_prog(progs[k + i]), RDP[pi], q, x.status, loc, w)
    return judge


# ---------------------------------------------------------------- captures of nested conditions
def cap_progs():
    """sequences of nested / following conditions; the last successful match on the way provides %n"""
    conds = [('req.header["A"] =~ "^(a*)(.*)$"', 0), ('req.header["B"] =~ "^b(.)"', 1), ('req.header["B"] !~ "^b(.)"', 2), ('req.header["A"] == "ax"', 3)]
    leaf = 'env.set "T" => "%{req.env[T]}<%0,%1>";'
    out = []
    ids = range(len(conds))

    def node(i, body, other):
        return ('if', i, body, other)
    for i in ids:
        out.append([node(i, ['L'], ['L']), 'L'])
        for j in ids:
            out.append([node(i, [node(j, ['L'], ['L']), 'L'], [node(j, ['L'], ['L']), 'L']), 'L'])
            out.append([node(i, ['L'], ['L']), node(j, ['L'], ['L']), 'L'])
            for k in ids:
                out.append([node(i, [node(j, [node(k, ['L'], ['L']), 'L'], ['L']), 'L'], ['L']), 'L'])
                out.append([node(i, ['L', node(j, ['L'], []), 'L', node(k, ['L'], ['L']), 'L'], ['L']), 'L'])

    def text(b):
        s = ''
        for x in b:
            if x == 'L':
                s += leaf + ' '
            else:
                s += 'if %s { %s } else { %s } ' % (conds[x[1]][0], text(x[2]), text(x[3]))
        return s
    return out, text


# the documentation defines %n as the captures of the previous matching regex conditional in the action stack
def cap_model(b, A, B):
    def m_of(i):
        if i == 0:
            return re.search(rb'^(a*)(.*)$', A), True
        if i == 1:
            return re.search(rb'^b(.)', B), True
        if i == 2:
            return re.search(rb'^b(.)', B), False
        return (A == b'ax'), None
    out = []

    def run(blk, cur):
        for x in blk:
            if x == 'L':
                out.append(caps(cur, 0, 0).decode() + ',' + caps(cur, 1, 1).decode() if cur else ',')
                continue
            m, pos = m_of(x[1])
            c2 = cur
            if pos is None:
                t = bool(m)
            else:
                t = (m is not None) == pos
                if m is not None:
                    c2 = m
            run(x[2] if t else x[3], c2)
    run(b, None)
    return ''.join('<%s>' % x for x in out)


CAPV = [(a, b) for a in ('', 'ax', 'aa', 'zz') for b in ('', 'bq', 'x')]


def cap_cases(progs):
    for vi, (a, b) in enumerate(CAPV):
        for k in range(0, len(progs), 32):
            d = b''.join(req('GET', '/', [('A', a), ('B', b)], host=host(i)) for i in range(k, min(k + 32, len(progs))))
            yield (vi, k), Script().connect(0).send(0, d).q().drain(0).reset()


def cap_judge(progs, text):
    def judge(key, r):
        vi, k = key
        n = min(32, len(progs) - k)
        rs, err = bodies(r, 0, ['GET'] * n)
        if err:
            return err
        for i, x in enumerate(rs[0]):
            want = cap_model(progs[k + i], CAPV[vi][0].encode(), CAPV[vi][1].encode())
            if x.body.decode() != want:
                return 'captures in %s with %r: %r expected %r' % (text(progs[k + i]), CAPV[vi], x.body, want)
    return judge


def run(ctx):
    th = ctx.thorough
    CH = 2400

    def batches(l):
        for b in range(0, len(l), CH):
            yield l[b:b + CH]
    for p in batches([x for x in pat_progs(th) if not any(t[1] == '%{req.is_handled}' for t in x[0])]):
        ctx.explore('patterns', conf(dispatch([pat_prog(x) for x in p]), ['mod_rewrite']), lambda p=p: pat_cases(p), pat_judge(p), batch=8)
    for p in batches(rw_progs(th)):
        ctx.explore('rewrite rules', conf(dispatch([rw_prog(x) for x in p]), ['mod_rewrite']), lambda p=p: rw_cases(p), rw_judge(p), batch=8)
    for p in batches(spl_progs(th)):
        ctx.explore('query part of targets', conf(dispatch([spl_prog(x) for x in p]), ['mod_rewrite']), lambda p=p: spl_cases(p), spl_judge(p), batch=8)
    p = raw_progs(th)
    ctx.explore('rewrite_raw rules', conf(dispatch([raw_prog(x) for x in p]), ['mod_rewrite']), lambda: raw_cases(p), raw_judge(p), batch=8)
    p2 = rd_progs()
    ctx.explore('redirect rules', conf(dispatch([rd_prog(x) for x in p2]), ['mod_redirect']), lambda: rd_cases(p2), rd_judge(p2), batch=8)
    p3, text = cap_progs()
    ctx.explore('captures of nested conditions', conf(dispatch([text(x) + ' respond 200 => "%{req.env[T]}";' for x in p3])), lambda: cap_cases(p3), cap_judge(p3, text), batch=8)
