"""C12: conditions and control flow of the configuration are evaluated exactly as documented"""
import itertools, re
from h import *

GROUP = 48


def dispatch(progs, extra=''):
    """progs: list of action texts; program i is run for path /<i//GROUP>/<i>"""
    l = []
    for g in range(0, len(progs), GROUP):
        l.append('if req.path =^ "/%d/" {' % (g // GROUP))
        for i in range(g, min(g + GROUP, len(progs))):
            l.append(' %sif req.path == "/%d/%d" { %s }' % ('else ' if i > g else '', g // GROUP, i, progs[i]))
        l.append('}')
    return extra + '\n'.join(l)


def url(i, q=''):
    return '/%d/%d%s' % (i // GROUP, i, q)


YN = lambda cond: 'if %s { respond 200 => "T"; } else { respond 200 => "F"; }' % cond

# ------------------------------------------------------------------ string operators
STRS = [''.join(t) for n in range(0, 4) for t in itertools.product('ab', repeat=n)]
REG = ['a', '^a', 'b$', '^$', '^(a|ab)$', 'a.b', '[^a]', '(?i)AB', 'aa?b*', '^a*$', '']
SOPS = ['==', '!=', '=^', '!^', '=$', '!$']


def sop(op, v, r):
    return {'==': v == r, '!=': v != r, '=^': v.startswith(r), '!^': not v.startswith(r), '=$': v.endswith(r), '!$': not v.endswith(r),
            '=~': re.search(r, v) is not None, '!~': re.search(r, v) is None}[op]


# lvalue -> (config name, function(value) -> request parts)
LV = {
    'header': 'req.header["X-V"]', 'query': 'req.query', 'host': 'req.host', 'env': 'req.env["V"]', 'path': 'req.path', 'raw': 'req.raw_path', 'resphdr': 'resp.header["X-V"]',
    'pi': 'phys.pathinfo', 'docroot': 'phys.docroot', 'phys': 'phys.path',
}


def str_tests(th):
    for op in SOPS:
        for r in STRS:
            yield op, r
    for op in ('=~', '!~'):
        for r in REG:
            yield op, r


def str_config(lv):
    def c(wd):
        l = []
        name = LV[lv]
        tests = list(str_tests(0))
        for op, r in tests:
            if lv in ('path', 'raw'):
                r2 = '/' + r if op not in ('=$', '!$', '=~', '!~') else r
            elif lv in ('docroot', 'phys'):
                r2 = wd + '/' + r if op not in ('=$', '!$', '=~', '!~') else r
            else:
                r2 = r
            l.append('if %s %s "%s" { env.set "R" => "%%{req.env[R]}1"; } else { env.set "R" => "%%{req.env[R]}0"; }' % (name, op, r2))
        pre = ''
        if lv == 'env':
            pre = 'env.set "V" => "%{req.header[X-V]}";'
        elif lv == 'resphdr':
            pre = 'header.add "X-V" => "%{req.header[X-V]}"; respond 200 => "";'
            l = [x.replace('env.set "R" => "%{req.env[R]}1"', 'header.append "X-R" => "1"').replace('env.set "R" => "%{req.env[R]}0"', 'header.append "X-R" => "0"') for x in l]
            return conf(pre + '\n' + '\n'.join(l))
        elif lv == 'docroot':
            pre = 'docroot "%s/%%{req.header[X-V]}";' % wd
        elif lv == 'phys':
            pre = 'docroot "%s";' % wd
        elif lv == 'pi':
            pre = 'alias "/f" => "%s/f"; docroot "%s"; pathinfo;' % (wd, wd)
        return conf(pre + '\n' + '\n'.join(l) + '\nrespond 200 => "%{req.env[R]}";')
    return c


def str_setup(wd):
    with open(wd + '/f', 'w') as f:
        f.write('x')


def str_cases(lv):
    if lv in ('header', 'env'):
        for v1 in STRS[1:7]:             # repeated headers are one list, joined with ", " (RFC 9110)
            for v2 in STRS[1:7]:
                yield (lv, v1 + ', ' + v2), Script().connect(0).send(0, req('GET', '/', [('X-V', v1), ('Y', 'z'), ('x-v', v2)])).q().drain(0).reset()
    for v in STRS:
        hs = []
        path = '/'
        host = 'x'
        if lv in ('header', 'env', 'resphdr', 'docroot'):
            if lv == 'docroot' and v == '':
                continue
            hs = [('X-V', v)]
        elif lv == 'query':
            path = '/?' + v if v else '/'
        elif lv == 'host':
            host = v
            if v == '':
                continue
        elif lv in ('path', 'raw', 'phys'):
            path = '/' + v
        elif lv == 'pi':
            path = '/f/' + v if v else '/f'
        yield (lv, v), Script().connect(0).send(0, req('GET', path, hs, host=host)).q().drain(0).reset()


def str_judge(key, r):
    lv, v = key
    rs, err = bodies(r, 0, ['GET'])
    if err or not rs[0]:
        return err or 'no response'
    x = rs[0][0]
    if x.status != 200:
        return 'status %d' % x.status
    got = x.body.decode() if lv != 'resphdr' else re.sub('[, ]', '', x.one('X-R') or '')
    want = ''
    for op, t in str_tests(0):
        val = v
        if lv in ('path', 'raw'):
            val, t = '/' + v, ('/' + t if op not in ('=$', '!$', '=~', '!~') else t)
        elif lv in ('docroot', 'phys'):
            val, t = '/wd/' + v, ('/wd/' + t if op not in ('=$', '!$', '=~', '!~') else t)
            if op in ('=~', '!~'):
                want += '.'        # depends on the work directory name
                continue
        elif lv == 'pi':
            val = '/' + v if v else ''
        want += '01'[sop(op, val, t)]
    if not re.fullmatch(want, got):
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if b != '.' and a != b), -1)
        return '%s with value %r: operator %r gives %s, expected %s' % (LV[lv], v, list(str_tests(0))[i] if i >= 0 else None, got[i:i + 1], want[i:i + 1])


# ------------------------------------------------------------------ numbers and booleans
NOPS = ['==', '!=', '<', '<=', '>', '>=']
NUMS = [-1, 0, 1, 2, 9, 10, 11, 99, 100, 200, 404, 65535, 2147483647, 2147483648, 4294967295, 4294967296]


def nop(op, a, b):
    return {'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]


def num_config(which):
    def c(wd):
        name = {'len': 'req.length', 'query': 'req.query', 'status': 'resp.status', 'size': 'phys.size', 'port': 'req.remoteport', 'lport': 'req.localport'}[which]
        l = []
        for n in NUMS:
            if n < 0:
                continue
            for op in NOPS:
                l.append('if %s %s %d { header.append "X-R" => "1"; } else { header.append "X-R" => "0"; }' % (name, op, n))
        pre = {'size': 'docroot "%s";' % wd, 'status': ''.join('if req.query == "%d" { respond %d => "x"; }' % (s, s) for s in (200, 404, 299, 100 + 101, 503))}.get(which, '')
        return conf(pre + '\n' + '\n'.join(l) + '\n' + ('respond 200 => "x";' if which != 'status' else ''))
    return c


def num_setup(wd):
    for n in (0, 1, 2, 9, 10, 11, 99, 100, 101, 65535, 65536):
        with open(wd + '/s%d' % n, 'wb') as f:
            f.truncate(n)
    with open(wd + '/s4294967296', 'wb') as f:
        f.truncate(4294967296)


def num_cases(which):
    if which == 'len':
        for n in (0, 1, 2, 9, 10, 11, 99, 100, 200, 201, 65535, 65536):
            yield (which, n), Script().connect(0).send(0, req('POST', '/', [('Content-Length', str(n))], b'x' * n)).q().drain(0).reset()
        yield (which, 0), Script().connect(0).send(0, req('GET', '/')).q().drain(0).reset()
        for n in (4294967296, 2147483648, 2147483647, 4294967295):
            yield (which, n), Script().connect(0).send(0, req('POST', '/', [('Content-Length', str(n))], b'')).q().drain(0).reset()
    elif which == 'query':
        for q in [str(n) for n in NUMS] + ['-5', '', 'abc', '12abc', '007', '4294967297', '9223372036854775807', '-9223372036854775808']:
            yield (which, q), Script().connect(0).send(0, req('GET', '/?' + q)).q().drain(0).reset()
    elif which == 'status':
        for s in (200, 404, 299, 201, 503):
            yield (which, s), Script().connect(0).send(0, req('GET', '/?%d' % s)).q().drain(0).reset()
    elif which == 'size':
        for n in (0, 1, 2, 9, 10, 11, 99, 100, 101, 65535, 65536, 4294967296):
            yield (which, n), Script().connect(0).send(0, req('GET', '/s%d' % n)).q().drain(0).reset()
        yield (which, -1), Script().connect(0).send(0, req('GET', '/nope')).q().drain(0).reset()
    elif which == 'port':
        for n in (1, 2, 9, 10, 11, 99, 100, 101, 255, 256, 65535):
            yield (which, n), Script().connect(0, port=n).send(0, req('GET', '/')).q().drain(0).reset()
    else:
        yield (which, 80), Script().connect(0).send(0, req('GET', '/')).q().drain(0).reset()


def num_judge(key, r):
    which, v = key
    rs, err = bodies(r, 0, ['GET'])
    if err or not rs[0]:
        return err or 'no response'
    got = re.sub('[, ]', '', rs[0][0].one('X-R') or '')
    if which == 'query':
        m = re.match(r'-?\d+', v)
        v = int(m.group(0)) if m else 0
    want = ''.join('01'[nop(op, v, n)] for n in NUMS if n >= 0 for op in NOPS)
    if got != want:
        tests = [(op, n) for n in NUMS if n >= 0 for op in NOPS]
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), -1)
        return '%s with value %r: test %r gives %s' % (which, v, tests[i] if i >= 0 else None, got[i:i + 1] if i >= 0 else got)


# ------------------------------------------------------------------ variables as truth values; method, scheme, file type
BV = [('req.header["X-V"]', lambda k: k[1] not in (None, '')), ('req.query', lambda k: k[2] not in (None, '')), ('phys.exists', lambda k: k[0] != 'none'), ('phys.is_dir', lambda k: k[0] == 'dir'),
      ('phys.is_file', lambda k: k[0] in ('file', 'empty')), ('req.length', lambda k: k[3] == 'POST'), ('req.is_handled', lambda k: False), ('req.env["nope"]', lambda k: False)]
BC = [('req.method == "%s"' % m, lambda k, m=m: k[3] == m) for m in ('GET', 'HEAD', 'POST', 'G', 'GETX', 'get')] + [('req.method =~ "^(GET|HEAD)$"', lambda k: k[3] in ('GET', 'HEAD')), ('req.scheme == "http"', lambda k: True), ('req.scheme == "https"', lambda k: False),
      ('phys.size == 0 and phys.is_file', lambda k: k[0] == 'empty'), ('req.remoteip == "10.0.0.9"', lambda k: k[4] == '10.0.0.9'), ('req.remoteport == 77', lambda k: True), ('req.header["x-v"] == "0"', lambda k: k[1] == '0'), ('req.header["X-V"] == ""', lambda k: not k[1])]


def bv_tests():
    for n, f in BV:
        yield n, f
        yield '!' + n, lambda k, f=f: not f(k)
        yield '(%s)' % n, f
        yield '!(%s)' % n, lambda k, f=f: not f(k)
        yield '!(!%s)' % n, f
    for n, f in BC:
        yield n, f
        yield '!(%s)' % n, lambda k, f=f: not f(k)


def bv_config(wd):
    return conf('docroot "%s";\n' % wd + '\n'.join('if %s { header.append "X-R" => "1"; } else { header.append "X-R" => "0"; }' % t for t, _ in bv_tests()) + '\nrespond 200 => "x";')


def bv_setup(wd):
    import os
    os.makedirs(wd + '/dir', exist_ok=True)
    for n, d in (('file', 'x'), ('empty', '')):
        with open(wd + '/' + n, 'w') as f:
            f.write(d)


def bv_cases():
    for k in itertools.product(('none', 'dir', 'file', 'empty'), (None, '', '0', 'x'), (None, '', '0', 'a=b'), ('GET', 'HEAD', 'POST'), ('10.0.0.9', '10.0.0.1')):
        hs = [('X-V', k[1])] if k[1] is not None else []
        if k[3] == 'POST':
            hs.append(('Content-Length', '2'))
        yield k, Script().connect(0, peer=k[4], port=77).send(0, req(k[3], '/' + k[0] + ('?' + k[2] if k[2] is not None else ''), hs, b'ab' if k[3] == 'POST' else b'')).q().drain(0).reset()


def bv_judge(key, r):
    rs, err = bodies(r, 0, [key[3]])
    if err or not rs[0]:
        return err or 'no response'
    got = re.sub('[, ]', '', rs[0][0].one('X-R') or '')
    want = ''.join('01'[bool(f(key))] for _, f in bv_tests())
    if got != want:
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), -1)
        return 'condition %s for %r gives %s' % (list(bv_tests())[i][0], key, got[i:i + 1])


# ------------------------------------------------------------------ boolean expressions
ATOMS = {
    'A': ('req.header["A"] == "1"', 'req.header["A"] != "1"'),
    'B': ('req.query =~ "b"', 'req.query !~ "b"'),
    'C': ('req.host =^ "c"', 'req.host !^ "c"'),
    'D': ('req.length > 0', 'req.length <= 0'),
    'H': ('req.is_handled', '!req.is_handled'),
    'E': ('phys.exists', '!phys.exists'),
}


def shapes(n):
    if n == 1:
        return ['L']
    out = []
    for k in range(1, n):
        for a in shapes(k):
            for b in shapes(n - k):
                out.append((a, b))
    return out


def exprs(leaves, th):
    """-> (text, evaluator tree)"""
    n = len(leaves)
    for sh in shapes(n):
        for ops in itertools.product(('and', 'or'), repeat=n - 1):
            for neg in itertools.product((0, 1), repeat=n):
                it = iter(zip(leaves, neg))
                oi = iter(ops)

                def build(s):
                    if s == 'L':
                        a, ng = next(it)
                        return ('atom', a, ng)
                    l = build(s[0])
                    o = next(oi)
                    return (o, l, build(s[1]))
                t = build(sh)
                yield t


def text(t, style, parent=None, right=False):
    if t[0] == 'atom':
        s = ATOMS[t[1]][t[2]]
        return '(%s)' % s if style == 2 else s
    s = '%s %s %s' % (text(t[1], style, t[0]), t[0], text(t[2], style, t[0], True))
    if style >= 1 or parent is None:
        return s if parent is None else '(%s)' % s
    # minimal: "and" binds stronger than "or"; same operators associate freely
    if parent == 'and' and t[0] == 'or':
        return '(%s)' % s
    return s


def ev(t, env):
    if t[0] == 'atom':
        return env[t[1]] != bool(t[2])
    a, b = ev(t[1], env), ev(t[2], env)
    return (a and b) if t[0] == 'and' else (a or b)


def bool_progs(th):
    out = []
    for leaves in ('A', 'B', 'H', 'E', 'AB', 'BA', 'AH', 'EA', 'AA', 'ABC', 'EHA', 'ABA', 'ABCD') + (('DCBA', 'ABAB', 'HEAB') if th else ()):
        for t in exprs(leaves, th):
            for style in (0, 1, 2) if len(leaves) < 4 or th else (0, 1):
                out.append((t, style))
    return out


def bool_config(progs):
    def c(wd):
        return conf(dispatch([YN(text(t, s)) for t, s in progs], 'docroot "%s";\n' % wd))
    return c


def bool_cases(progs):
    for bits in itertools.product((0, 1), repeat=4):
        env = dict(zip('ABCD', map(bool, bits)), H=False, E=False)
        for b in range(0, len(progs), 24):
            d = b''
            for i in range(b, min(b + 24, len(progs))):
                hs = [('A', '1' if env['A'] else '0')]
                body = b''
                if env['D']:
                    hs.append(('Content-Length', '1'))
                    body = b'x'
                d += req('POST' if env['D'] else 'GET', url(i, '?b' if env['B'] else '?a'), hs, body, host='c' if env['C'] else 'x')
            yield (bits, b), Script().connect(0).send(0, d).q().drain(0).reset()


def bool_judge(progs):
    def judge(key, r):
        bits, b = key
        env = dict(zip('ABCD', map(bool, bits)), H=False, E=False)
        n = min(24, len(progs) - b)
        rs, err = bodies(r, 0, ['GET'] * n)
        if err:
            return err
        if len(rs[0]) != n:
            return '%d responses for %d requests' % (len(rs[0]), n)
        for i, x in enumerate(rs[0]):
            t, s = progs[b + i]
            want = b'T' if ev(t, env) else b'F'
            if x.body != want:
                return 'condition "%s" with %r: %s expected %s' % (text(t, s), {k: v for k, v in env.items()}, x.body, want)
    return judge


# ------------------------------------------------------------------ control flow programs
CON = {'a': 'req.header["A"] == "1"', 'b': 'req.query == "b"', 'h': 'req.is_handled', 'r': 'resp.status == 200'}


def stmts(depth):
    """all statements of the given nesting depth: tuples"""
    out = [('t',), ('v',), ('R',)]
    if depth > 0:
        B = [(), (('t',),)] if depth == 1 else blocks(depth - 1)
        for c in 'ab':
            for x in B:
                out.append(('if', c, x))
                for y in B:
                    out.append(('ifelse', c, x, y))
        for x in B[:3]:
            for y in B[:3]:
                for z in B[:3]:
                    out.append(('elif', 'a', x, 'b', y, z))
        out.append(('if', 'h', (('t',),)))
        out.append(('ifelse', 'h', (('t',),), (('R',),)))
    return out


def blocks(depth):
    s = stmts(depth)
    out = [()] + [(x,) for x in s]
    return out


def programs(th):
    d1 = stmts(1)
    out = [(x,) for x in d1] + [(x, y) for x in d1 for y in d1] + [(x, ('t',), y) for x in d1[:12] for y in d1[-12:]]
    d2 = stmts(2)
    out += [(x, ('t',)) for x in d2[::1 if th else 3]]
    if th:
        out += [(x, y, z) for x in d1[::2] for y in d1[::2] for z in d1[::2]]
    # response conditions wait for the response
    out += [(('R',), ('if', 'r', (('t',),)), x) for x in d1[:20]]
    return out


def ptext(p):
    n = [0]

    def blk(b):
        return '{ ' + ' '.join(st(s) for s in b) + ' }'

    def st(s):
        n[0] += 1
        k = n[0]
        if s[0] == 't':
            return 'env.set "T" => "%%{req.env[T]}%d,";' % k
        if s[0] == 'v':
            return 'act;'
        if s[0] == 'R':
            return 'respond 200 => "R%d:%%{req.env[T]}";' % k
        if s[0] == 'if':
            return 'if %s %s' % (CON[s[1]], blk(s[2]))
        if s[0] == 'ifelse':
            return 'if %s %s else %s' % (CON[s[1]], blk(s[2]), blk(s[3]))
        return 'if %s %s else if %s %s else %s' % (CON[s[1]], blk(s[2]), CON[s[3]], blk(s[4]), blk(s[5]))
    return ' '.join(st(s) for s in p) + ' header.add "X-T" => "%{req.env[T]}"; respond 200 => "end:%{req.env[T]}";'


def pmodel(p, env):
    n = [0]
    tr = ''
    resp = None

    def cnt(s):
        """number the statements of a skipped block"""
        n[0] += 1
        for x in s[1:]:
            if isinstance(x, tuple):
                for y in x:
                    cnt(y)

    def cond(c):
        return resp is not None if c in 'hr' else env[c]

    def blk(b):
        for s in b:
            st(s)

    def skip(b):
        for s in b:
            cnt(s)

    def st(s):
        nonlocal tr, resp
        n[0] += 1
        k = n[0]
        if s[0] == 't':
            tr += '%d,' % k
        elif s[0] == 'v':
            tr += 'v,'
        elif s[0] == 'R':
            if resp is None:
                resp = 'R%d:%s' % (k, tr)
        elif s[0] == 'if':
            (blk if cond(s[1]) else skip)(s[2])
        elif s[0] == 'ifelse':
            c = cond(s[1])
            (blk if c else skip)(s[2])
            (skip if c else blk)(s[3])
        else:
            c = cond(s[1])
            (blk if c else skip)(s[2])
            if c:
                skip(s[4]); skip(s[5])
            else:
                d = cond(s[3])
                (blk if d else skip)(s[4])
                (skip if d else blk)(s[5])
    for s in p:
        st(s)
    if resp is None:
        resp = 'end:' + tr
    return tr, resp


def prog_config(progs):
    return conf(dispatch([ptext(p) for p in progs], 'act = { if req.header["A"] == "zz" { respond 500; } else { env.set "T" => "%{req.env[T]}v,"; } };\n'))


def prog_cases(progs):
    for a, b in itertools.product((0, 1), repeat=2):
        for k in range(0, len(progs), 24):
            d = b''.join(req('GET', url(i, '?b' if b else ''), [('A', str(a))]) for i in range(k, min(k + 24, len(progs))))
            yield (a, b, k), Script().connect(0).send(0, d).q().drain(0).reset()


def prog_judge(progs):
    def judge(key, r):
        a, b, k = key
        n = min(24, len(progs) - k)
        rs, err = bodies(r, 0, ['GET'] * n)
        if err:
            return err
        if len(rs[0]) != n:
            return '%d responses for %d requests' % (len(rs[0]), n)
        for i, x in enumerate(rs[0]):
            tr, resp = pmodel(progs[k + i], {'a': bool(a), 'b': bool(b)})
            if x.body.decode('latin-1') != resp or (x.one('X-T') or '') != tr:
                return 'program %s with a=%d b=%d: body %r trace %r, expected %r trace %r' % (ptext(progs[k + i]), a, b, x.body, x.one('X-T'), resp, tr)
    return judge


# ------------------------------------------------------------------ conditions on backend responses
BCONF = conf('''
scgi "unix:/s";
if resp.status >= 400 { header.add "X-1" => "err"; } else if resp.status == 201 { header.add "X-1" => "created"; } else { header.add "X-1" => "ok"; }
if resp.header["X-B"] =^ "a" and resp.header["Content-Type"] == "text/x" { header.add "X-2" => "both"; }
else if resp.header["X-B"] =~ "^(.*)b$" { header.add "X-2" => "re-%1"; }
else { header.add "X-2" => "none"; }
if req.is_handled { header.add "X-3" => "h"; }
''', ['mod_scgi'])


def back_cases():
    for st, xb, ct in itertools.product((200, 201, 302, 399, 400, 404, 500), ('', 'a', 'ab', 'xb', 'x'), ('', 'text/x', 'text/xy')):
        d = b'Status: %d\r\n' % st
        if xb:
            d += b'X-B: ' + xb.encode() + b'\r\n'
        if ct:
            d += b'Content-Type: ' + ct.encode() + b'\r\n'
        d += b'\r\nbody'
        for cut in range(0, len(d), 7):
            sc = Script().connect(0).send(0, req('GET', '/')).q().drain(64)
            if cut:
                sc.send(64, d[:cut]).q().drain(0)
            yield (st, xb, ct, cut), sc.send(64, d[cut:]).q().close(64).q().drain(0).reset()


def back_judge(key, r):
    st, xb, ct, cut = key
    rs, err = bodies(r, 0, ['GET'])
    if err or not rs[0]:
        return err or 'no response'
    x = rs[0][0]
    w1 = 'err' if st >= 400 else 'created' if st == 201 else 'ok'
    w2 = 'both' if xb.startswith('a') and ct == 'text/x' else 're-' + xb[:-1] if xb.endswith('b') else 'none'
    got = (x.status, x.get('X-1'), x.get('X-2'), x.get('X-3'), x.body)
    want = (st, [w1], [w2], ['h'], b'body')
    if got != want:
        return '%r expected %r' % (got, want)


def run(ctx):
    th = ctx.thorough
    for lv in LV:
        ctx.explore('string operators', str_config(lv), lambda lv=lv: str_cases(lv), str_judge, workers=4, setup=str_setup)
    for w in ('len', 'query', 'status', 'size', 'port', 'lport'):
        ctx.explore('number operators', num_config(w), lambda w=w: num_cases(w), num_judge, workers=2, setup=num_setup)
    ctx.explore('truth values and request attributes', bv_config, bv_cases, bv_judge, workers=4, setup=bv_setup)
    bp = bool_progs(th)
    for b in range(0, len(bp), 1920):
        p = bp[b:b + 1920]
        ctx.explore('boolean expressions', bool_config(p), lambda p=p: bool_cases(p), bool_judge(p), batch=8)
    pp = programs(th)
    for b in range(0, len(pp), 1920):
        p = pp[b:b + 1920]
        ctx.explore('control flow programs', prog_config(p), lambda p=p: prog_cases(p), prog_judge(p), batch=8)
    ctx.explore('conditions on backend responses', BCONF, back_cases, back_judge)
