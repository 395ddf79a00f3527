"""C05: URL -> file mapping: decoding, dot segment removal, docroot/alias/index/pathinfo/userdir/vhost containment"""
import itertools, stat
from h import *
import reqmodel

TREE = {
    'doc/a': 1, 'doc/b/a': 1, 'doc/b/index.html': 1, 'doc/..b': 1, 'doc/b/.hid': 1, 'doc/a%2fb': 1, 'doc/a b': 1, 'doc/al/a': 1, 'doc/c/b/a': 1,
    'doc/top.html': 1, 'doc/...': 1, 'doc/a_b': 1, 'doc/_': 1, 'doc/a.': 1, 'doc/%': 1, 'doc/é': 1,
    'doc2/a': 1, 'doc2/b/a': 1, 'doc2/ax': 1, 'doc2/al/a': 1, 'docs/a': 1, 'a': 1, 'b/a': 1, 'secret': 1, 'al/a': 1,
    'vh/x/a': 1, 'vh/a': 1, 'vh/y.x/a': 1, 'vh/x/y/a': 1, 'vh/x/y.z/a': 1, 'vh/x/y/z/a': 1, 'vh/def/a': 1,
    'doc2/bx': 1, 'doc2/b.': 1, 'docx/a': 1, 'doc2/alx/a': 1, 'doc2x/a': 1, 'docal/a': 1, 'doca': 1,
    'u/bob/a': 1, 'u/a': 1, 'u/bob/b/a': 1, 'u/b/o/bob/a': 1,
}


def body(p):
    return b'FILE:' + p.encode() + b':END'


def setup(wd):
    for n in TREE:
        p = os.path.join(wd, 't', n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(body(n))
    os.makedirs(os.path.join(wd, 't', 'doc', 'e'), exist_ok=True)


def config(wd):
    t = os.path.join(wd, 't')
    return conf('''
if req.host == "doc" { docroot "%(t)s/doc"; static; }
else if req.host == "docslash" { docroot "%(t)s/doc/"; static; }
else if req.host == "echo" { docroot "/D"; respond 200 => "%%{req.path}|%%{phys.path}|%%{phys.docroot}"; }
else if req.host == "al" { docroot "%(t)s/doc"; alias [ "/al" => "%(t)s/doc2", "/b/" => "%(t)s/doc2/b", "/al/b" => "%(t)s" ]; static; }
else if req.host == "al2" { docroot "%(t)s/doc"; alias "/a" => "%(t)s/doc2/ax"; alias "/" => "%(t)s/doc2"; static; }
else if req.host == "idx" { docroot "%(t)s/doc"; index [ "index.html", "a" ]; static; }
else if req.host == "idxt" { docroot "%(t)s/doc"; index [ "index.html", "/top.html" ]; static; }
else if req.host == "pi" { docroot "%(t)s/doc"; pathinfo; respond 200 => "%%{req.path}|%%{phys.path}|%%{phys.pathinfo}|%%{phys.docroot}"; }
else if req.host == "pis" { docroot "%(t)s/doc"; pathinfo; static; }
else if req.host == "ud" { userdir "%(t)s/u"; static; }
else if req.host == "ud2" { userdir "%(t)s/u/*/b"; static; }
else if req.host == "ud3" { userdir "%(t)s/u/$1/$2/*"; static; }
else if req.host == "rw" { rewrite "^/r(.*)" => "$1"; docroot "%(t)s/doc"; index [ "index.html" ]; static; }
else if req.host == "rwq" { rewrite "^/(.*)" => "/b/%%{req.query}"; docroot "%(t)s/doc"; static; }
else if req.host == "rwr" { rewrite_raw "^/r(.*)" => "/$1"; docroot "%(t)s/doc"; static; }
else if req.host =$ ".v0" { docroot "%(t)s/vh/$2"; static; }
else if req.host =$ ".v1" { docroot "%(t)s/vh/$2/$[3-]"; static; }
else if req.host =$ ".v2" { docroot ("%(t)s/vh/$[2-]", "%(t)s/vh/def"); static; }
else if req.host =$ ".v3" { docroot ("%(t)s/vh/$[4-2]", "%(t)s/vh/def"); static; }
''' % dict(t=t), ['mod_userdir', 'mod_rewrite'])


class FS:
    """the directory tree, answered from memory (lstat semantics of path lookup)"""
    def __init__(self):
        self.files = {n.encode(): body(n) for n in TREE}
        self.dirs = {b'', b'doc/e'}
        for n in self.files:
            p = n
            while b'/' in p:
                p = p.rsplit(b'/', 1)[0]
                self.dirs.add(p)

    def look(self, path):
        """path relative to the tree root -> ('file', content, canonical) | 'dir' | 'ENOENT' | 'ENOTDIR' | 'LONG'"""
        if any(len(x) > 255 for x in path.split(b'/')) or len(path) > 3900:
            return ('LONG',)
        cur = []
        segs = path.split(b'/')
        isfile = False
        for s in segs:
            if isfile:
                return ('ENOTDIR',)
            if s in (b'', b'.'):
                continue
            if s == b'..':
                if not cur:
                    return ('OUTSIDE',)
                cur.pop()
                continue
            cur.append(s)
            p = b'/'.join(cur)
            if p in self.dirs:
                continue
            if p in self.files:
                isfile = True
                continue
            return ('ENOENT',)
        p = b'/'.join(cur)
        if isfile:
            return ('file', self.files[p], p)
        return ('dir', p)


FSM = FS()
UNAME = re_u = None
import re
UNAME = re.compile(rb'^/~([A-Za-z0-9_-]+)(/.*)?$', re.S)


def serve(phys):
    l = FSM.look(phys)
    if l[0] == 'file':
        return ('200', l[1])
    return ('no', l[0])


def hostparts(host, ranges):
    """label ranges of docroot patterns, labels numbered from the top level"""
    lab = host.split(b'.')[::-1]
    a, b = ranges
    n = len(lab)
    a, b = min(a, n), min(b, n)
    # the range is interpreted reversed: $[2-] of c.b.a is "c.b"
    if a <= b:
        return b'.'.join(lab[i - 1] for i in range(b, a - 1, -1))
    return b'.'.join(lab[i - 1] for i in range(b, a + 1))


def model(host, raw):
    u = reqmodel.parse_uri(raw, b'GET')
    if u is None:
        return ('bad',)
    P, q = u['path'], u['query']
    if host == b'doc' or host == b'docslash':
        return serve(b'doc' + P)
    if host == b'echo':
        return ('echo', P + b'|/D' + P + b'|/D')
    if host == b'al':
        for pre, to in ((b'/al', b'doc2'), (b'/b', b'doc2/b'), (b'/al/b', b'')):
            if P == pre or P.startswith(pre + b'/'):
                return serve(to + P[len(pre):])
        return serve(b'doc' + P)
    if host == b'al2':
        return serve(b'doc2' + P)   # the later alias matches everything
    if host in (b'idx', b'idxt'):
        phys = b'doc' + P
        l = FSM.look(phys)
        if l[0] == 'file':
            return ('200', l[1])
        for f in ((b'index.html', b'a') if host == b'idx' else (b'index.html', b'/top.html')):
            if f.startswith(b'/'):
                x = FSM.look(b'doc' + f)
                if x[0] == 'file':
                    return ('200', x[1])
            else:
                if l[0] != 'dir':
                    continue
                if not P.endswith(b'/'):
                    return ('redir', P + b'/', q)
                x = FSM.look(phys + f)
                if x[0] == 'file':
                    return ('200', x[1])
        return ('no', l[0])
    if host in (b'pi', b'pis'):
        phys, info, rp = b'doc' + P, b'', P
        while True:
            l = FSM.look(phys)
            if l[0] == 'ENOTDIR':
                phys, _, t = phys.rpartition(b'/')
                info = b'/' + t + info
                continue
            break
        if l[0] in ('file', 'dir') and info:
            rp = rp[:len(rp) - len(info)]
        if host == b'pis':
            return serve(phys)
        return ('pi', rp, phys, info)
    if host in (b'ud', b'ud2', b'ud3'):
        m = UNAME.match(P)
        if not m:
            return ('nodoc',)
        n, rest = m.group(1), m.group(2) or b''
        root = {b'ud': b'u/' + n, b'ud2': b'u/' + n + b'/b', b'ud3': b'u/' + n[0:1] + b'/' + n[1:2] + b'/' + n}[host]
        return serve(root + b'/' + rest)
    if host == b'rw':
        if P.startswith(b'/r'):
            P = reqmodel.simplify(P[2:])
        phys = b'doc' + P
        l = FSM.look(phys)
        if l[0] == 'dir':
            if not P.endswith(b'/'):
                return ('redir', None, q)
            x = FSM.look(phys + b'index.html')
            if x[0] == 'file':
                return ('200', x[1])
        return serve(phys)
    if host == b'rwq':
        return serve(b'doc' + reqmodel.simplify(b'/b/' + q))
    if host == b'rwr':
        rp = u['raw_path']
        if rp.startswith(b'/r'):
            v = reqmodel.parse_uri(b'/' + rp[2:], b'GET')
            if v is None:
                return ('err',)
            P = v['path']
        return serve(b'doc' + P)
    if host.endswith(b'.v0'):
        return serve(b'vh/' + hostparts(host, (2, 2)) + P)
    if host.endswith(b'.v1'):
        return serve(b'vh/' + hostparts(host, (2, 2)) + b'/' + hostparts(host, (3, 99)) + P)
    if host.endswith(b'.v2') or host.endswith(b'.v3'):
        d = b'vh/' + (hostparts(host, (2, 99)) if host.endswith(b'2') else hostparts(host, (4, 2)))
        if FSM.look(d)[0] in ('file', 'dir'):
            return serve(d + P)
        return serve(b'vh/def' + P)
    raise AssertionError(host)


def judge(key, r):
    host, raw = key
    exp = model(host, raw)
    rs, err = bodies(r, 0, ['GET'])
    if err:
        return err
    rs, left = rs
    if left or not rs or not rs[0].complete:
        return 'no complete response: %s' % short(r.data.get(0))
    x = rs[0]
    st = x.status
    if exp[0] == '200':
        if st != 200 or x.body != exp[1]:
            return 'expected 200 with %r, got %d %s' % (exp[1], st, short(x.body))
        return None
    if b'FILE:' in x.body:
        return 'expected no file (%r), got %d %s' % (exp, st, short(x.body))
    if exp[0] == 'echo':
        if st != 200 or x.body != exp[1]:
            return 'expected %r got %d %r' % (exp[1], st, x.body)
    elif exp[0] == 'pi':
        root = x.body.rpartition(b'|')[2]
        if st != 200 or not root.endswith(b'/t/doc'):
            return 'expected pathinfo echo, got %d %r' % (st, x.body)
        w = b'|'.join((exp[1], root[:-3] + exp[2], exp[3], root))
        if x.body != w:
            return 'expected %r got %r' % (w, x.body)
    elif exp[0] == 'bad':
        if st != 400:
            return 'expected 400 got %d' % st
    elif exp[0] == 'redir':
        if st != 301:
            return 'expected 301 got %d' % st
        loc = x.one('location') or ''
        if exp[1] is not None:
            w = 'http://' + host.decode()
            if not loc.startswith(w):
                return 'Location %r' % loc
            path, _, q = loc[len(w):].partition('?')
            if reqmodel.url_decode(path.encode('latin-1')) != exp[1] or q.encode('latin-1') != exp[2]:
                return 'Location %r expected path %r' % (loc, exp[1])
    elif exp[0] == 'no':
        if not (st in (403, 404, 414) or (exp[1] == 'dir' and st == 301)):
            return 'expected refusal (%r), got %d' % (exp, st)
    elif exp[0] in ('nodoc', 'err'):
        if st < 400:
            return 'expected an error, got %d' % st
    return None


def mk(host, raw):
    return (host, raw), Script().connect(0).send(0, b'GET ' + raw + b' HTTP/1.1\r\nHost: ' + host + b'\r\n\r\n').q().drain(0).reset()


TOK = [b'/', b'..', b'.', b'a', b'b', b'%2e', b'%2F', b'%', b'%00', b'\\', b'al', b'%5c', b'?', b'%25', b'c']
TOK2 = [b'/', b'..', b'.', b'a', b'b', b'al', b'x', b'%2e']
TOKU = [b'/', b'..', b'~', b'bob', b'a', b'b', b'.', b'%2f', b'root', b'%7e']
HTOK = [b'x', b'y', b'z', b'.', b'..', b'-', b'def']


def cases(th):
    seen = set()

    def go(host, raw):
        if (host, raw) in seen:
            return None
        seen.add((host, raw))
        return mk(host, raw)

    def out(hosts, raws):
        for raw in raws:
            for h in hosts:
                x = go(h, raw)
                if x:
                    yield x
    n = 5 if th else 4
    yield from out((b'echo', b'doc'), (b'/' + b''.join(t) for k in range(n + 1) for t in itertools.product(TOK, repeat=k)))
    m = 6 if th else 4
    yield from out((b'al', b'al2', b'idx', b'idxt', b'pi', b'pis', b'docslash'), (b'/' + b''.join(t) for k in range(m + 1) for t in itertools.product(TOK2, repeat=k)))
    # with a fixed tail so that escapes reach real files
    for pre in (b'/b', b'/al', b'/b/', b'/'):
        for t in itertools.product([b'/', b'..', b'.', b'%2e', b'%2f', b'b', b'//'], repeat=5 if th else 4):
            for tail in (b'/a', b'/secret', b'/doc2/a', b'/../secret'):
                yield from out((b'doc', b'al', b'idx', b'pis'), [pre + b''.join(t) + tail])
    yield from out((b'ud', b'ud2', b'ud3'), (b'/' + b''.join(t) for k in range(n + 1) for t in itertools.product(TOKU, repeat=k)))
    yield from out((b'rw', b'rwr'), (b'/r' + b''.join(t) for k in range(n + 1) for t in itertools.product([b'/', b'..', b'.', b'a', b'b', b'%2e', b'%252e', b'%2f', b'?', b'%3f'], repeat=k)))
    yield from out((b'rwq',), (b'/?' + b''.join(t) for k in range(n + 1) for t in itertools.product([b'/', b'..', b'.', b'a', b'b', b'%2e', b'secret'], repeat=k)))
    # every single byte, raw and encoded
    for c in range(256):
        e = b'%%%02x' % c
        yield from out((b'echo', b'doc', b'pi', b'idx', b'ud'), [b'/' + e, b'/a' + e, b'/' + e + b'a', b'/a' + e + b'b', b'/b/' + e, b'/a%' + bytes((c,)) + b'0', b'/~' + e + b'/a', b'/~bob' + e + b'/a'] if c not in (10, 13, 32, 0) else [b'/' + e, b'/a' + e, b'/~bob' + e])
        if c not in (9, 10, 13, 32):
            yield from out((b'echo', b'doc'), [b'/' + bytes((c,)), b'/a' + bytes((c,)) + b'b'])
    # long names and deep paths
    for k in (254, 255, 256, 1000, 4095, 4096, 5000):
        yield from out((b'doc', b'echo', b'pi'), [b'/' + b'n' * k, b'/b/' + b'n' * k + b'/a'])
        yield from out((b'doc', b'echo'), [b'/' + b'b/../' * (k // 5) + b'a', b'/' + b'../' * (k // 3) + b'secret', b'/' + b'/' * k + b'a'])
    # host labels
    for k in range(1, 6 if th else 5):
        for t in itertools.product(HTOK, repeat=k):
            for v in (b'.v0', b'.v1', b'.v2', b'.v3'):
                h = b''.join(t) + v
                for raw in (b'/a', b'/x/a', b'/../a'):
                    if (h, raw) not in seen:
                        seen.add((h, raw))
                        yield mk(h, raw)


def hjudge(key, r):
    host, raw = key
    h2 = host.rstrip(b'.')
    if h2.startswith(b'.') or b'..' in h2:
        d = r.data.get(0, b'')
        if not d.startswith(b'HTTP/1.1 400'):
            return 'host with empty labels accepted: %s' % short(d)
        return None
    return judge(key, r)


def run(ctx):
    th = ctx.thorough
    ctx.rules.append('every URL over the token alphabets up to the stated length, for every mapping configuration, is sent to the real server; the response is compared with a path-mapping model over the same directory tree')
    ctx.assumptions.append('no symbolic links in the served tree (documented: lighttpd follows them)')
    ctx.explore('url-to-file', config, lambda: cases(th), hjudge, setup=setup, batch=64)
