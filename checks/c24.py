"""C24: deflate is transparent: what the client decodes is what the origin sent, in an encoding the client accepts"""
import bz2, itertools, random, zlib
from multiprocessing import Manager
from h import *

TAIL = req('GET', '/tail')
AVAIL = ['bzip2', 'x-bzip2', 'gzip', 'x-gzip', 'deflate']

OPTS = {
    '/d': '',
    '/ob1': '["output-buffer" => 1]',
    '/ob9': '["output-buffer" => 9]',
    '/ob64': '["output-buffer" => 64]',
    '/ob100': '["output-buffer" => 100, "blocksize" => 7]',
    '/bs1': '["blocksize" => 1]',
    '/bs64': '["blocksize" => 64, "compression-level" => 9]',
    '/bs4k': '["blocksize" => 4096, "output-buffer" => 65536]',
    '/cl9': '["compression-level" => 9]',
    '/gz': '["encodings" => "gzip"]',
    '/gd': '["encodings" => "deflate,gzip"]',
    '/none': '["encodings" => "compress"]',
}


def cfg(wd):
    l = ['docroot "ROOT";']
    l.append('if req.path == "/tail" { respond 200 => "tail"; }')
    for p, o in OPTS.items():
        l.append('else if req.path == "%s" { proxy "unix:/p"; deflate %s; }' % (p, o))
        l.append('else if req.path =^ "/s%s/" { rewrite "^/s%s(/.*)$" => "$1"; docroot "%s/doc"; static; deflate %s; }' % (p[1:], p[1:], wd, o))
    l.append('else if req.path == "/twice" { proxy "unix:/p"; deflate; deflate; }')
    l.append('else if req.path == "/respond" { respond 200 => "hello hello hello hello"; deflate; }')
    l.append('else if req.path == "/404" { respond 404; deflate; }')
    l.append('else { proxy "unix:/p"; }')
    return conf('etag.use [["mtime"]];\n' + '\n'.join(l[1:]), ['mod_proxy', 'mod_deflate', 'mod_rewrite'])


RND = random.Random(24).randbytes(300000)


def mkbody(kind, n):
    if kind == 'z':
        return b'a' * n
    if kind == 't':
        return (b'The quick brown fox jumps over the lazy dog. 0123456789\n' * (n // 56 + 1))[:n]
    return RND[:n]


def decode(enc, data):
    """-> (bytes decoded so far, stream ended and nothing behind it) or raises"""
    if enc in ('gzip', 'x-gzip'):
        d = zlib.decompressobj(31)
    elif enc == 'deflate':
        d = zlib.decompressobj(-15)
    elif enc in ('bzip2', 'x-bzip2'):
        d = bz2.BZ2Decompressor()
        out = d.decompress(data) if data else b''
        return out, d.eof and not d.unused_data
    else:
        raise Bad('unknown encoding %r' % enc)
    out = d.decompress(data)
    return out, d.eof and not d.unused_data


def plain(x):
    """decoded body of a complete response, its encoding; or raises Bad"""
    ce = x.get('content-encoding')
    if not ce:
        return x.body, None
    if len(ce) != 1:
        raise Bad('several content-encodings %r' % ce)
    try:
        b, end = decode(ce[0], x.body)
    except Exception as e:
        raise Bad('body does not decode as %s: %s %s' % (ce[0], e, short(x.body)))
    if not end:
        raise Bad('%s stream of a complete response is cut or has trailing data' % ce[0])
    return b, ce[0]


def accepted(ae):
    """-> (may: encodings the client accepts, must: some compression required)"""
    may, refused, must = set(), set(), set()
    for line in ae:
        for t in line.split(','):
            name, _, par = t.strip().partition(';')
            name = name.strip()
            q = 1.0
            for p in par.split(';'):
                k, _, v = p.strip().partition('=')
                if k.strip().lower() == 'q':
                    try:
                        q = float(v)
                    except ValueError:
                        pass
            if q == 0:
                refused.add(name.lower())
            else:
                may.add(name.lower())
                if name in AVAIL and not par:
                    must.add(name)
    if '*' in may:
        may |= set(AVAIL) - refused
    return may, must - refused


def first(r, method='GET', n=2):
    rs, err = bodies(r, 0, [method] + ['GET'] * (n - 1))
    if err:
        return None, None, err
    f = [x for x in rs[0] if x.status >= 200]
    if rs[1] or not f:
        return None, None, 'no response or trailing bytes: %s' % short(r.data.get(0), 300)
    return f[0], f, None


def ask(path, ae=(), method='GET', hdr=(), version='1.1', tail=True):
    return req(method, path, [('Accept-Encoding', a) for a in ae] + list(hdr), version=version) + (TAIL if tail else b'')


def wire(body, framing='cl', status=200, headers=()):
    h = b'HTTP/1.1 %d X\r\n' % status
    for k, v in headers:
        h += ('%s: %s\r\n' % (k, v)).encode()
    if framing == 'cl':
        return h + b'Content-Length: %d\r\n\r\n' % len(body) + body
    if framing == 'chunked':
        return h + b'Transfer-Encoding: chunked\r\n\r\n' + chunked(body, [len(body)] if body else [])
    if framing == 'none':
        return h + b'\r\n'
    return h + b'Connection: close\r\n\r\n' + body


def script(reqd, segs, close=False):
    sc = Script().connect(0).send(0, reqd).q().drain(64)
    for s in segs:
        sc.send(64, s).q()
    if close:
        sc.close(64).q()
    return sc.drain(0).q().drain(0).reset()


def has_vary(x):
    return any('accept-encoding' in v.lower() for v in x.get('vary'))


def judge_full(r, body, ae, status=200, allowed=AVAIL, force=None, tail=True):
    x, f, e = first(r)
    if e:
        return e
    if not x.complete:
        return 'incomplete response %r' % x
    if x.status != status:
        return 'status %d expected %d' % (x.status, status)
    try:
        b, enc = plain(x)
    except Bad as e:
        return str(e)
    may, must = accepted(ae)
    if enc and enc not in may:
        return 'encoding %s was not accepted by %r' % (enc, ae)
    if enc and enc not in allowed:
        return 'encoding %s is not enabled' % enc
    if not enc and must & set(allowed):
        return 'not compressed for Accept-Encoding %r' % (ae,)
    if not has_vary(x):
        return 'no Vary: Accept-Encoding: %r' % (x.headers,)
    if b != body:
        return 'decoded body %s expected %s (%s)' % (short(b), short(body), enc)
    if tail and (len(f) != 2 or f[1].body != b'tail'):
        return 'following request: %r' % f[1:]
    return None


def X(ctx, group, config, gen, judge, **kw):
    ex = {}

    def cases():
        for k, sc, e in gen():
            ex[k] = e
            yield k, sc

    def j(k, r):
        return judge(k, r, ex[k])
    ctx.explore(group, config, cases, j, **kw)


def run(ctx):
    deep = ctx.thorough
    CONF = cfg

    def setup(d):
        os.makedirs(d + '/doc', exist_ok=True)
        for n in SIZES:
            for k in 'zr':
                p = '%s/doc/%s%d.txt' % (d, k, n)
                with open(p, 'wb') as fh:
                    fh.write(mkbody(k, n))
                os.utime(p, (1600000000, 1600000000))
    SIZES = [0, 1, 2, 63, 64, 65, 100, 4090, 4095, 4096, 4097, 16384, 16385, 65535, 65536, 65537, 131072, 262145]
    if not deep:
        SIZES = [0, 1, 65, 4095, 4096, 4097, 16385, 65536, 65537, 262145]

    # ---- A: negotiation
    TOK = ['gzip', 'x-gzip', 'deflate', 'bzip2', 'x-bzip2', 'identity', 'br', 'gzipped', 'xgzip', 'deflate64', 'gzip;q=0', 'gzip;q=0.0', 'gzip; q=0', 'gzip;q=0.5', 'gzip;q=1',
           'deflate;q=0', 'bzip2;q=0', 'x-gzip;q=0.000', 'gzip ;q=0', 'gzip;x=1;q=0', '*', '*;q=0', 'identity;q=0.5', 'GZIP']
    AES = [()] + [('',)] + [(a,) for a in TOK]
    AES += [(a + s + b,) for a, b in itertools.product(TOK, TOK) for s in ((', ', ',') if deep else (', ',))]
    AES += [(a, b) for a, b in itertools.product(TOK, TOK) if deep or (hash_ok(a, b))]
    if deep:
        AES += [(', '.join(t),) for t in itertools.product(TOK[:18:2] + TOK[1:18:4], repeat=3)]
    HB = b'hello hello hello'

    def neg():
        for ae in AES:
            for p, allowed in (('/d', AVAIL), ('/gz', ['gzip']), ('/gd', ['gzip', 'deflate']), ('/none', [])):
                if p != '/d' and len(ae) == 1 and ae[0].count(',') and not deep and ',' in ae[0] and 'q' in ae[0]:
                    continue
                yield (ae, p), script(ask(p, ae), [wire(HB)]), None

    ALLOWED = {'/gz': ['gzip'], '/gd': ['gzip', 'deflate'], '/none': []}

    def jneg(key, r, _):
        ae, p = key
        return judge_full(r, HB, ae, allowed=ALLOWED.get(p, AVAIL))
    X(ctx, 'which encoding: Accept-Encoding header lists x enabled encodings', CONF, neg, jneg, batch=48)

    # ---- B: sizes x content x framing x options x encodings
    KINDS = 'zrt' if deep else 'zr'

    def sz():
        for p in ('/d', '/ob1', '/ob9', '/ob64', '/ob100', '/bs1', '/bs64', '/bs4k', '/cl9'):
            for n in SIZES:
                if p in ('/bs1', '/ob1', '/ob9', '/ob100') and n > 20000:
                    continue
                if not deep and n > 100000 and p not in ('/d', '/bs4k'):
                    continue
                for k in KINDS:
                    for enc in AVAIL if deep else ['gzip', 'deflate', 'bzip2']:
                        b = mkbody(k, n)
                        for fr in ('cl', 'chunked', 'close'):
                            if not deep and fr == 'close' and p != '/d':
                                continue
                            w = wire(b, fr)
                            yield (p, k, n, enc, fr), script(ask(p, (enc,)), [w], close=fr == 'close'), None
                        if k in 'zr':
                            yield (p, k, n, enc, 'file'), Script().connect(0).send(0, ask('/s%s/%s%d.txt' % (p[1:], k, n), (enc,))).q().drain(0).q().drain(0).reset(), None

    def jsz(key, r, _):
        p, k, n, enc, fr = key
        return judge_full(r, mkbody(k, n), (enc,))
    X(ctx, 'body sizes x contents x framing (backend, file) x encodings x buffer options', CONF, sz, jsz, setup=setup, batch=4)

    # ---- C: streaming: everything the backend sent so far can be decoded by the client
    def segsets():
        b = b'abcdefgh'
        for i in range(1, 8):
            yield [b[:i], b[i:]]
        for i in range(1, 7):
            for j in range(i + 1, 8):
                yield [b[:i], b[i:j], b[j:]]
        for n in (1, 63, 64, 65, 4000, 4086, 4096, 4100, 8192, 16384, 20000, 65536, 70000):
            for k in 'rz':
                x = mkbody(k, n)
                yield [x, b'1', x]
                if deep:
                    yield [b'1', x, x, b'2']

    def stream():
        for si, segs in enumerate(segsets()):
            for p in ('/d', '/ob9', '/ob64', '/bs64'):
                if p != '/d' and sum(map(len, segs)) > 30000 and not deep:
                    continue
                for enc in ('gzip', 'deflate', 'x-gzip', 'bzip2'):
                    for fr in ('chunked', 'cl'):
                        if fr == 'cl' and not deep and enc != 'gzip':
                            continue
                        n = sum(map(len, segs))
                        head = b'HTTP/1.1 200 X\r\n' + (b'Transfer-Encoding: chunked\r\n\r\n' if fr == 'chunked' else b'Content-Length: %d\r\n\r\n' % n)
                        sc = Script().connect(0).send(0, ask(p, (enc,))).q().drain(64)
                        for i, s in enumerate(segs):
                            d = (b'%x\r\n' % len(s) + s + b'\r\n') if fr == 'chunked' else s
                            if i == 0:
                                d = head + d
                            if i == len(segs) - 1 and fr == 'chunked':
                                d += b'0\r\n\r\n'
                            sc.send(64, d).q().drain(0).now()
                        yield (si, p, enc, fr), sc.q().drain(0).reset(), segs

    def jstream(key, r, segs):
        si, p, enc, fr = key
        e = judge_full(r, b''.join(segs), (enc,))
        if e or enc == 'bzip2':
            return e
        got = b''
        sent = b''
        pos = 0
        for i, (nsteps, _) in enumerate(r.marks[:len(segs) - 1]):
            got = b''.join(d for k, d in r.steps[:nsteps] if k == 0)
            sent += segs[i]
            try:
                rs, left = parse_responses(got, False, ['GET', 'GET'])
            except Bad as e:
                return 'after segment %d: %s' % (i, e)
            f = [x for x in rs if x.status >= 200]
            if not f:
                return 'after segment %d: no response yet' % i
            try:
                b, end = decode(enc, f[0].body)
            except Exception as e:
                return 'after segment %d: %s' % (i, e)
            if b != sent:
                return 'after segment %d the client can decode %d bytes of %d the backend sent' % (i, len(b), len(sent))
        return None
    X(ctx, 'streaming: backend segments, the client can decode all of them at once', CONF, stream, jstream, batch=8)

    # ---- D: broken off backends
    def broken():
        for enc in AVAIL if deep else ['gzip', 'deflate', 'bzip2']:
            for body in (b'hello world', mkbody('r', 9000)):
                for fr in ('cl', 'chunked'):
                    w = wire(body, fr)
                    hl = w.index(b'\r\n\r\n') + 4
                    if len(body) < 100:
                        cuts = range(hl, len(w))
                    else:
                        cuts = sorted({hl, hl + 1, hl + 10, hl + 4095, hl + 4096, hl + 8000, len(w) - 1, len(w) - 7})
                    for c in cuts:
                        for mode in ('close', 'rst', 'close2'):
                            for ver in ('1.1', '1.0') if mode == 'close' else ('1.1',):
                                sc = Script().connect(0).send(0, ask('/d', (enc,), version=ver)).q().drain(64)
                                if mode == 'close2':
                                    sc.send(64, w[:hl]).q().send(64, w[hl:c]).q().close(64).q()
                                else:
                                    sc.send(64, w[:c])
                                    if mode == 'close':
                                        sc.close(64).q()
                                    else:
                                        sc.plan(64, 'r', [c, -ECONNRESET]).q().send(64, b'!').q()
                                yield (enc, len(body), fr, c - hl, mode, ver), sc.drain(0).q().drain(0).info(0).reset(), (body, w, c)

    def jbroken(key, r, ex):
        enc, n, fr, c, mode, ver = key
        body, w, cut = ex
        rs, err = bodies(r, 0, ['GET', 'GET'])
        gone = r.eof.get(0) or r.rst.get(0)
        if err:
            return None if gone else 'broken, connection stays open'
        f = [x for x in rs[0] if x.status >= 200]
        if not f:
            return None if gone else 'client hangs'
        x = f[0]
        if x.complete and x.status >= 500:
            return None
        if not x.complete:
            if not gone:
                return 'client hangs in an incomplete response'
        ce = x.one('content-encoding') if x.get('content-encoding') else None
        try:
            b, end = decode(ce, x.body) if ce else (x.body, False)
        except Exception as e:
            return 'undecodable part %s' % e
        if not body.startswith(b):
            return 'decoded %s is no prefix' % short(b)
        if x.complete and not (ver == '1.0' and x.framing == 'close'):
            return 'broken off backend response presented as complete (%s, %d of %d bytes)' % (x.framing, len(b), len(body))
        if end and b != body:
            return 'the end of the %s stream was written for a broken off response' % ce
        return None
    X(ctx, 'backend breaks off at every point of the body', CONF, broken, jbroken, batch=16)

    # ---- E: statuses, methods, headers of the origin
    ETAGS = [(), (('ETag', '"abc"'),), (('ETag', 'W/"abc"'),), (('ETag', '"a"'), ('ETag', '"b"'))]
    XH = [(), (('Vary', 'Cookie'),), (('Content-Encoding', 'gzip'),), (('Content-Encoding', 'br'),), (('Content-Type', 'text/plain'), ('X-A', '1'))]
    STAT = [200, 201, 202, 203, 204, 205, 206, 300, 301, 302, 304, 400, 401, 403, 404, 410, 500, 503]

    def hdr():
        for st in STAT:
            for et in ETAGS if st == 200 or deep else ETAGS[:2]:
                for xh in XH:
                    for m in ('GET', 'HEAD', 'POST'):
                        for enc in (None, 'gzip', 'deflate', 'bzip2') if deep or st in (200, 206, 404) else (None, 'gzip'):
                            fr = 'none' if st in (204, 304) else 'cl'
                            w = wire(HB if fr == 'cl' and m != 'HEAD' else b'', fr, st, et + xh)
                            if m == 'HEAD' and fr == 'cl':
                                w = wire(b'', 'none', st, et + xh + (('Content-Length', str(len(HB))),))
                            rq = ask('/d', (enc,) if enc else (), m, [('Content-Length', '0')] if m == 'POST' else [])
                            yield (st, et, xh, m, enc), script(rq, [w]), None

    def jhdr(key, r, _):
        st, et, xh, m, enc = key
        x, f, e = first(r, m)
        if e:
            return e
        if not x.complete or x.status != st:
            return 'status %r' % x
        nobody = st in (204, 205, 304)
        untouched = enc is None or st in (204, 205, 206, 304) or any(k == 'Content-Encoding' for k, v in xh) or len(et) > 1
        oce = [v for k, v in xh if k == 'Content-Encoding']
        if m == 'HEAD' and x.body:
            return 'HEAD with body'
        if m != 'HEAD' and not nobody:
            if untouched:
                if x.body != HB:
                    return 'body was changed: %s' % short(x.body)
            else:
                try:
                    b, e = plain(x)
                except Bad as e:
                    return str(e)
                if b != HB:
                    return 'decoded %s' % short(b)
        if m == 'HEAD' and st >= 400:
            pass             # an error page is announced instead
        elif untouched:
            if x.get('content-encoding') != oce:
                return 'content-encoding %r expected %r' % (x.get('content-encoding'), oce)
            if x.get('etag') != [v for k, v in et]:
                return 'etag changed: %r' % x.get('etag')
            cl = x.get('content-length')
            if m == 'HEAD' and not nobody and cl and cl != [str(len(HB))]:
                return 'content-length %r' % cl
        else:
            if x.get('content-encoding') != [enc]:
                return 'content-encoding %r expected %r' % (x.get('content-encoding'), enc)
            if et:
                t = x.get('etag')
                if len(t) != 1 or t[0] == et[0][1]:
                    return 'etag %r of the encoded entity' % t
            if m == 'HEAD' and str(len(HB)) in x.get('content-length'):
                return 'HEAD announces the length of the identity body for the encoded entity'
        for k, v in xh:
            if (k == 'X-A' or k == 'Content-Type' and not (m == 'HEAD' and st >= 400)) and x.get(k) != [v]:
                return 'header %s lost' % k
        if not oce and st not in (204, 205, 206, 304) and not has_vary(x):
            return 'no Vary'
        if ('Vary', 'Cookie') in xh and not any('Cookie' in v for v in x.get('vary')):
            return 'Vary of the origin lost'
        if len(f) != 2 or f[1].body != b'tail':
            return 'following request %r' % f[1:]
        return None
    X(ctx, 'statuses x methods x entity headers: untouched or correctly labelled', CONF, hdr, jhdr, batch=48)

    # ---- F: validators: learn the ETag of every variant, then revalidate each variant against each
    VAR = [None, 'gzip', 'deflate', 'bzip2', 'x-gzip', 'x-bzip2']

    def origin(kind):
        return wire(HB, headers=[('ETag', kind)])

    def learn():
        for src in ('"abc"', 'W/"abc"', 'file'):
            for v in VAR:
                for m in ('GET', 'HEAD'):
                    if src == 'file':
                        sc = Script().connect(0).send(0, ask('/sd/z65.txt', (v,) if v else (), m)).q().drain(0).reset()
                    else:
                        sc = script(ask('/d', (v,) if v else (), m), [origin(src) if m == 'GET' else origin(src)[:-len(HB)]])
                    yield (src, v, m), sc, None
    def jlearn(key, r, _):
        x, f, e = first(r, key[2])
        if e:
            return e
        if x.status != 200 or len(x.get('etag')) != 1:
            return 'no etag: %r' % x
        store[key] = x.one('etag')
        return None
    with Manager() as mgr:
        store = mgr.dict()
        X(ctx, 'validators of all variants', CONF, learn, jlearn, setup=setup)
        tags = dict(store)
    for src in ('"abc"', 'W/"abc"', 'file'):
        seen = {}
        for v in VAR:
            t = tags.get((src, v, 'GET'))
            if t is None:
                continue
            if t != tags.get((src, v, 'HEAD')):
                ctx.violation('ETag of %s %s differs between GET and HEAD' % (src, v), {'tags': repr(tags)})
            if t in seen:
                ctx.violation('variants %s and %s of %s share the ETag %s' % (v, seen[t], src, t), {'tags': repr(tags)})
            seen[t] = v

    def reval():
        for src in ('"abc"', 'W/"abc"', 'file'):
            for have in VAR:
                t = tags.get((src, have, 'GET'))
                if t is None:
                    continue
                for v in VAR:
                    for m in ('GET', 'HEAD'):
                        for lst in (t, '"zzz", %s' % t, '"zzz"'):
                            hd = [('If-None-Match', lst)]
                            if src == 'file':
                                sc = Script().connect(0).send(0, ask('/sd/z65.txt', (v,) if v else (), m, hd)).q().drain(0).reset()
                            else:
                                sc = script(ask('/d', (v,) if v else (), m, hd), [origin(src) if m == 'GET' else origin(src)[:-len(HB)]])
                            yield (src, have, v, m, lst), sc, None

    def jreval(key, r, _):
        src, have, v, m, lst = key
        x, f, e = first(r, m)
        if e:
            return e
        t = tags[(src, v, 'GET')]
        body = mkbody('z', 65) if src == 'file' else HB
        if x.status == 304:
            # fine when it validates the selected variant or (file) the identity variant; never for another variant
            if t in lst:
                pass
            elif src == 'file' and tags[(src, None, 'GET')] in lst:
                pass
            else:
                return '304 for %s: the selected variant %s has the ETag %s' % (lst, v, t)
            if x.body:
                return '304 with a body'
        elif x.status == 200:
            if have == v and v is not None and lst != '"zzz"':
                return 'revalidation of variant %s with its own ETag %s gives %d' % (v, lst, x.status)
            if m == 'GET':
                try:
                    b, e = plain(x)
                except Bad as e:
                    return str(e)
                if b != body or e != v:
                    return 'variant %r body %s' % (e, short(b))
        else:
            return 'status %d' % x.status
        if len(f) != 2 or f[1].body != b'tail':
            return 'following request %r' % f[1:]
        return None
    X(ctx, 'revalidation of each variant against the ETag of each', CONF, reval, jreval, setup=setup)

    # ---- G: other origins
    def misc():
        for enc in AVAIL:
            yield ('respond', enc), Script().connect(0).send(0, ask('/respond', (enc,))).q().drain(0).reset(), (200, b'hello hello hello hello')
            yield ('twice', enc), script(ask('/twice', (enc,)), [wire(HB)]), (200, HB)
            yield ('missing', enc), Script().connect(0).send(0, ask('/sd/none.txt', (enc,))).q().drain(0).reset(), (404, None)
            yield ('404', enc), Script().connect(0).send(0, ask('/404', (enc,))).q().drain(0).reset(), (404, None)
            for rg in ('bytes=0-9', 'bytes=5-', 'bytes=-7'):
                yield ('range', enc, rg), Script().connect(0).send(0, ask('/sd/z65.txt', (enc,), hdr=[('Range', rg)])).q().drain(0).reset(), (206, None)

    def jmisc(key, r, ex):
        x, f, e = first(r)
        if e:
            return e
        if not x.complete or x.status != ex[0]:
            return '%r' % x
        if ex[0] == 206:
            if x.get('content-encoding'):
                return 'partial response labelled as encoded'
            n = {'bytes=0-9': 10, 'bytes=5-': 60, 'bytes=-7': 7}[key[2]]
            if x.body != b'a' * n:
                return 'range body %s' % short(x.body)
        else:
            try:
                b, enc = plain(x)
            except Bad as e:
                return str(e)
            if ex[1] is not None and b != ex[1]:
                return 'decoded %s' % short(b)
            if ex[1] is None and b'404' not in b:
                return 'error page %s' % short(b)
        if len(f) != 2 or f[1].body != b'tail':
            return 'following request %r' % f[1:]
        return None
    X(ctx, 'error pages, ranges, direct responses', CONF, misc, jmisc, setup=setup)


    # ---- H: the file cannot be read any more
    def unreadable():
        for enc in AVAIL:
            for n in (100, 4097, 65537):
                if n not in SIZES and n != 100:
                    continue
                f = '/sd/z%d.txt' % (65 if n == 100 else n)
                for at in range(0, 6):
                    for err in (EIO, EINTR):
                        yield (enc, f, at, err), Script().connect(0).fs('e', (err << 16) | at, '~/doc/').send(0, ask(f, (enc,))).q().drain(0).q().drain(0).info(0).fs('x', 0, '').reset(), mkbody('z', 65 if n == 100 else n)
                yield (enc, f, 'short', 0), Script().connect(0).fs('s', 0, '~/doc/').send(0, ask(f, (enc,))).q().drain(0).q().drain(0).info(0).fs('x', 0, '').reset(), mkbody('z', 65 if n == 100 else n)

    def junread(key, r, body):
        enc, f, at, err = key
        rs, e = bodies(r, 0, ['GET', 'GET'])
        gone = r.eof.get(0) or r.rst.get(0)
        if at == 'short' or err == EINTR:
            return judge_full(r, body, (enc,))
        if e:
            return None if gone else 'broken, connection stays open'
        fr = [x for x in rs[0] if x.status >= 200]
        if not fr:
            return None if gone else 'client hangs'
        if fr[0].complete:
            if fr[0].status >= 500:
                return None
            return judge_full(r, body, (enc,))
        return None if gone else 'client hangs in an incomplete response'
    X(ctx, 'file read errors', CONF, unreadable, junread, setup=setup)


def hash_ok(a, b):
    return a[:4] == b[:4] or 'q' in a + b

