"""C11: header, environment and map actions behave like operations on an ordered list / a dictionary"""
import itertools, re
from h import *

GROUP = 48


def dispatch(progs, pre=''):
    l = [pre]
    for g in range(0, len(progs), GROUP):
        l.append('if req.host =^ "g%d-" {' % (g // GROUP))
        for i in range(g, min(g + GROUP, len(progs))):
            l.append(' %sif req.host == "g%d-%d" { %s }' % ('else ' if i > g else '', g // GROUP, i, progs[i]))
        l.append('}')
    return '\n'.join(l)


def host(i):
    return 'g%d-%d' % (i // GROUP, i)


# ---------------------------------------------------------------- response / request header operations
OPS = [('add', 'X-A', 'one'), ('add', 'x-a', 'two'), ('append', 'X-A', 'three'), ('overwrite', 'X-a', 'four'), ('remove', 'X-A', None), ('add', 'X-AB', 'five'), ('append', 'X-B', '%{req.query}'), ('overwrite', 'X-B', '%{req.header[X-C]}'),
       ('remove', 'X-B', None), ('append', 'X-A', '')]


def optext(op, pre):
    o, k, v = op
    return '%s.%s "%s"%s;' % (pre, o, k, '' if v is None else ' => "%s"' % v)


def apply(l, op, env):
    o, k, v = op
    if v is not None:
        v = v.replace('%{req.query}', env.get('q', '')).replace('%{req.header[X-C]}', env.get('c', ''))
    idx = [i for i, (n, _) in enumerate(l) if n.lower() == k.lower()]
    if o == 'add' or (o in ('append', 'overwrite') and not idx):
        l.append((k, v))
    elif o == 'append':
        l[idx[-1]] = (l[idx[-1]][0], l[idx[-1]][1] + ', ' + v)
    elif o == 'overwrite':
        l[idx[-1]] = (l[idx[-1]][0], v)
    else:
        l[:] = [x for x in l if x[0].lower() != k.lower()]


def seqs(th):
    n = range(len(OPS))
    out = [t for k in range(0, 4 if not th else 5) for t in itertools.product(n, repeat=k)]
    return out


ENVS = [{'q': '', 'c': ''}, {'q': 'a=b&c', 'c': 'v1, "q"'}, {'q': '%0d%0aX-Evil:%20y', 'c': 'x;y=z'}]


def base_req(i, e, extra=()):
    hs = list(extra)
    if e['c']:
        hs.append(('X-C', e['c']))
    return req('GET', '/' + ('?' + e['q'] if e['q'] else ''), hs, host=host(i))


def resp_cases(progs):
    for ei, e in enumerate(ENVS):
        for k in range(0, len(progs), 32):
            d = b''.join(base_req(i, e) for i in range(k, min(k + 32, len(progs))))
            yield (ei, k), Script().connect(0).send(0, d).q().drain(0).reset()


STD = ('content-length', 'date', 'server', 'content-type', 'connection', 'transfer-encoding')


def norm(l):
    return [(n.lower(), v.strip(' ')) for n, v in l]


def resp_judge(progs):
    def judge(key, r):
        ei, k = key
        n = min(32, len(progs) - k)
        rs, err = bodies(r, 0, ['GET'] * n)
        if err:
            return err
        if len(rs[0]) != n:
            return '%d responses for %d requests' % (len(rs[0]), n)
        for i, x in enumerate(rs[0]):
            l = []
            for o in progs[k + i]:
                apply(l, OPS[o], ENVS[ei])
            got = [(a, b) for a, b in hlist(x) if a.lower() not in STD]
            if norm(got) != norm(l) or x.body != b'body':
                return 'header operations %r with %r: %r expected %r' % ([OPS[o] for o in progs[k + i]], ENVS[ei], got, l)
    return judge


def hlist(x):
    return [(a.decode('latin-1') if isinstance(a, bytes) else a, b.decode('latin-1') if isinstance(b, bytes) else b) for a, b in x.headers]


# the same operations on request headers, visible to conditions and patterns and to a backend
def rq_prog(t):
    return ' '.join(optext(OPS[o], 'req_header') for o in t) + ' respond 200 => "%{req.header[X-A]}|%{req.header[X-B]}|%{req.header[X-AB]}";'


INIT = [[], [('X-A', 'c1')], [('x-a', 'c1'), ('X-B', 'c2'), ('X-A', 'c3')]]


def rq_cases(progs):
    for ei, e in enumerate(ENVS):
        for ii, init in enumerate(INIT):
            for k in range(0, len(progs), 32):
                d = b''.join(base_req(i, e, init) for i in range(k, min(k + 32, len(progs))))
                yield (ei, ii, k), Script().connect(0).send(0, d).q().drain(0).reset()


def joined(l, name):
    out = ''
    for n, v in l:
        if n.lower() == name:
            out = out + ', ' + v if out else v
    return out


def rq_judge(progs):
    def judge(key, r):
        ei, ii, k = key
        n = min(32, len(progs) - k)
        rs, err = bodies(r, 0, ['GET'] * n)
        if err:
            return err
        if len(rs[0]) != n:
            return '%d responses for %d requests' % (len(rs[0]), n)
        for i, x in enumerate(rs[0]):
            l = list(INIT[ii])
            for o in progs[k + i]:
                apply(l, OPS[o], ENVS[ei])
            want = '|'.join(joined(l, n) for n in ('x-a', 'x-b', 'x-ab'))
            if x.body.decode('latin-1') != want:
                return 'request header operations %r on %r: %r expected %r' % ([OPS[o] for o in progs[k + i]], INIT[ii], x.body, want)
    return judge


# ---------------------------------------------------------------- headers of a backend response
def back_prog(t):
    return 'scgi "unix:/s"; if resp.status >= 0 { %s }' % ' '.join(optext(OPS[o], 'header') for o in t)


BINIT = [[], [('X-A', 'b1')], [('X-A', 'b1'), ('X-Z', 'z'), ('x-a', 'b2'), ('X-B', 'b3')]]


def back_cases(progs):
    for i in range(len(progs)):
        for bi, init in enumerate(BINIT):
            d = b'Status: 200\r\n' + b''.join(('%s: %s\r\n' % h).encode() for h in init) + b'\r\nbody'
            yield (i, bi), Script().connect(0).send(0, base_req(i, ENVS[1])).q().drain(64).send(64, d).q().close(64).q().drain(0).reset()


def back_judge(progs):
    def judge(key, r):
        i, bi = key
        rs, err = bodies(r, 0, ['GET'])
        if err or not rs[0]:
            return err or 'no response'
        l = list(BINIT[bi])
        for o in progs[i]:
            apply(l, OPS[o], ENVS[1])
        got = [(a, b) for a, b in hlist(rs[0][0]) if a.lower() not in STD]
        if norm(got) != norm(l) or rs[0][0].body != b'body':
            return 'header operations %r on backend response %r: %r expected %r' % ([OPS[o] for o in progs[i]], BINIT[bi], got, l)
    return judge


# ---------------------------------------------------------------- environment variables
EOPS = ['env.set "A" => "1";', 'env.set "A" => "%{req.env[A]}2";', 'env.add "A" => "3";', 'env.remove "A";', 'env.clear;', 'env.set "a" => "4";', 'env.add "B" => "%{req.env[A]}";', 'env.set "B" => "";', 'env.remove "B";']


def env_apply(d, o):
    if o == 0: d['A'] = '1'
    elif o == 1: d['A'] = d.get('A', '') + '2'
    elif o == 2: d.setdefault('A', '3')
    elif o == 3: d.pop('A', None)
    elif o == 4: d.clear()
    elif o == 5: d['a'] = '4'
    elif o == 6: d.setdefault('B', d.get('A', ''))
    elif o == 7: d['B'] = ''
    elif o == 8: d.pop('B', None)


def env_progs(th):
    return [t for k in range(0, 6 if th else 5) for t in itertools.product(range(len(EOPS)), repeat=k)][:None if th else 4000]


def env_prog(t):
    return ' '.join(EOPS[o] for o in t) + ' respond 200 => "%{req.env[A]}|%{req.env[B]}|%{req.env[a]}";'


def env_cases(progs):
    for k in range(0, len(progs), 32):
        yield (k,), Script().connect(0).send(0, b''.join(req('GET', '/', [], host=host(i)) for i in range(k, min(k + 32, len(progs))))).q().drain(0).reset()


def env_judge(progs):
    def judge(key, r):
        k, = key
        n = min(32, len(progs) - k)
        rs, err = bodies(r, 0, ['GET'] * n)
        if err:
            return err
        if len(rs[0]) != n:
            return '%d responses for %d requests' % (len(rs[0]), n)
        for i, x in enumerate(rs[0]):
            d = {}
            for o in progs[k + i]:
                env_apply(d, o)
            want = '|'.join(d.get(z, '') for z in ('A', 'B', 'a'))
            if x.body.decode() != want:
                return 'environment operations %s: %r expected %r' % ([EOPS[o] for o in progs[k + i]], x.body, want)
    return judge


# ---------------------------------------------------------------- map
KEYS = ['', 'a', 'b', 'ab', 'A', 'a/b', 'default', '0']


def map_progs(th):
    """(keys present, has default)"""
    out = []
    for k in range(0, 4 if th else 3):
        for sub in itertools.permutations(range(len(KEYS)), k):
            for d in (0, 1, 2):
                out.append((sub, d))
    for k in (2, 3):
        for sub in itertools.permutations(range(len(KEYS) if th else 5), k):
            out.append((sub, 3))
            out.append((sub, 4))
    return out


def map_prog(pr):
    sub, d = pr
    if d >= 3:           # one action for a list of keys
        l = ['[%s] => { env.set "T" => "%%{req.env[T]}k"; }' % ', '.join('"%s"' % KEYS[i] for i in sub)]
        if d == 4:
            l.append('default => { env.set "T" => "%{req.env[T]}D"; }')
        return 'map "%%{req.query}" => [ %s ]; respond 200 => "%%{req.env[T]}.";' % (', '.join(l) if d == 4 else '%s, "nope" => { respond 500; }' % l[0])
    l = ['"%s" => { env.set "T" => "%%{req.env[T]}k%d"; }' % (KEYS[i], i) for i in sub]
    if d == 1:
        l.append('default => { env.set "T" => "%{req.env[T]}D"; }')
    elif d == 2:
        l.insert(0, 'default => { env.set "T" => "%{req.env[T]}D"; }')
    return 'map "%%{req.query}" => [ %s ]; respond 200 => "%%{req.env[T]}.";' % ', '.join(l) if l else 'respond 200 => ".";'


def map_cases(progs):
    for qi in range(len(KEYS)):
        for k in range(0, len(progs), 32):
            yield (qi, k), Script().connect(0).send(0, b''.join(req('GET', '/?' + KEYS[qi] if KEYS[qi] else '/', [], host=host(i)) for i in range(k, min(k + 32, len(progs))))).q().drain(0).reset()


def map_judge(progs):
    def judge(key, r):
        qi, k = key
        n = min(32, len(progs) - k)
        rs, err = bodies(r, 0, ['GET'] * n)
        if err:
            return err
        if len(rs[0]) != n:
            return '%d responses for %d requests' % (len(rs[0]), n)
        for i, x in enumerate(rs[0]):
            sub, d = progs[k + i]
            want = ('k%d.' % qi if d < 3 else 'k.') if qi in sub else 'D.' if d in (1, 2, 4) else '.'
            if x.body.decode() != want:
                return '%s for query %r: %r expected %r' % (map_prog(progs[k + i]), KEYS[qi], x.body, want)
    return judge


# ---------------------------------------------------------------- client controlled bytes in header values
def inj_cases():
    for b in range(1, 256):
        for tmpl in ('%%%02x', 'a%%%02xb', '%%0d%%%02x', '%%%02xX-Evil:1'):
            yield ('path', b, tmpl), Script().connect(0).send(0, req('GET', '/p' + tmpl % b, []) + req('GET', '/second')).q().drain(0).reset()
    for b in range(0, 256):
        for pre, post in ((b'a', b'b'), (b'', b'X-Evil: 1'), (b'a\r\n', b'X-Evil: 1')):
            for place in ('query', 'header'):
                v = pre + bytes([b]) + post
                if place == 'query':
                    d = b'GET /p?' + v + b' HTTP/1.1\r\nHost: x\r\n\r\n'
                else:
                    d = b'GET /p HTTP/1.1\r\nHost: x\r\nX-C: ' + v + b'\r\n\r\n'
                yield (place, b, pre.decode()), Script().connect(0).send(0, d + req('GET', '/second')).q().drain(0).reset()


INJ = conf('header.add "X-1" => "%{req.path}"; header.add "X-2" => "s"; header.append "X-2" => "%{req.path}"; header.add "X-3" => "s"; header.overwrite "X-3" => "%{req.path}";'
           'header.append "X-2" => "%{req.query}"; header.overwrite "X-3" => "%{req.query}"; header.append "X-2" => "%{req.header[X-C]}"; header.overwrite "X-1" => "%{req.header[X-C]}"; respond 200 => "body";')


def inj_judge(key, r):
    rs, err = bodies(r, 0, ['GET', 'GET'])
    if err:
        return err
    for x in rs[0]:
        names = [a.lower() for a, _ in hlist(x)]
        if 'x-evil' in names:
            return 'client data became a response header: %r' % (hlist(x),)
        for a, v in hlist(x):
            if '\r' in v or '\n' in v:
                return 'line break in header value %r' % ((a, v),)
        if x.status == 200 and (x.body != b'body' or names.count('x-1') != 1 or names.count('x-2') != 1 or names.count('x-3') != 1):
            return 'response changed by client data: %r %r' % (hlist(x), x.body)


def run(ctx):
    th = ctx.thorough
    CH = 2400

    def batches(l):
        for b in range(0, len(l), CH):
            yield l[b:b + CH]
    for p in batches(seqs(th)):
        ctx.explore('response header operations', conf(dispatch([' '.join(optext(OPS[o], 'header') for o in t) + ' respond 200 => "body";' for t in p])), lambda p=p: resp_cases(p), resp_judge(p), batch=8)
        ctx.explore('request header operations', conf(dispatch([rq_prog(t) for t in p])), lambda p=p: rq_cases(p), rq_judge(p), batch=8)
    for p in batches([t for t in seqs(False) if len(t) < (4 if th else 3)]):
        ctx.explore('operations on backend responses', conf(dispatch([back_prog(t) for t in p]), ['mod_scgi']), lambda p=p: back_cases(p), back_judge(p))
    for p in batches(env_progs(th)):
        ctx.explore('environment operations', conf(dispatch([env_prog(t) for t in p])), lambda p=p: env_cases(p), env_judge(p), batch=8)
    for p in batches(map_progs(th)):
        ctx.explore('map', conf(dispatch([map_prog(t) for t in p])), lambda p=p: map_cases(p), map_judge(p), batch=8)
    ctx.explore('client bytes in header values', INJ, inj_cases, inj_judge)
