"""C07: conditional requests: 304 exactly if all given validators match, validators change with the file, If-Range"""
import itertools, time
from email.utils import formatdate
from h import *

T0 = 1600000000
SIZES = [0, 1, 2, 9, 10, 11, 100, 101, 999, 1000, 1200, 1400, 2000, 2400, 4096, 10000, 12000, 123456]
MT = [T0 + d for d in (0, 1, 2, 3, 5, 8, 10, 17, 20, 33, 60, 64, 68, 99, 100, 1000, 1024, 3600, 86400, 10000000, -1, -100)]


def content(sz):
    return (b'%d:' % sz + b'abcdefghij' * (sz // 10 + 1))[:sz]


def setup(wd):
    d = os.path.join(wd, 'doc')
    os.makedirs(d, exist_ok=True)
    for s in SIZES:
        c = content(s)
        for m in MT:
            p = os.path.join(d, '%d-%d' % (s, m))
            with open(p, 'wb') as f:
                f.write(c)
            os.utime(p, (m, m))


def config(wd):
    return conf('''
docroot "%s/doc";
if req.host == "noetag" { etag.use [[]]; }
else if req.host == "sm" { etag.use ["size", "mtime"]; }
else if req.host == "m" { etag.use [["mtime"]]; }
else if req.host == "s" { etag.use [["size"]]; }
static;
''' % wd)


def http(t):
    return formatdate(t, usegmt=True)


# --- phase 1: the validators of all versions (one script per configuration)
def vcases():
    for host in ('x', 'sm', 'm', 's', 'noetag'):
        s = Script().connect(0)
        names = ['%d-%d' % (a, b) for a in SIZES for b in MT]
        for i, n in enumerate(names):
            s.send(0, req('HEAD', '/' + n, host=host))
            if i % 20 == 19:
                s.q().drain(0)
        s.q().drain(0)
        yield (host,), s.reset()


def vjudge(key, r):
    host, = key
    names = ['%d-%d' % (a, b) for a in SIZES for b in MT]
    rs, err = bodies(r, 0, ['HEAD'] * len(names))
    if err:
        return err
    rs, left = rs
    if len(rs) != len(names):
        return 'got %d of %d responses' % (len(rs), len(names))
    seen = {}
    for n, x in zip(names, rs):
        sz, m = map(int, n.split('-'))
        if x.status != 200:
            return '%s: status %d' % (n, x.status)
        if x.get('last-modified') != [http(m)]:
            return '%s: Last-Modified %r' % (n, x.get('last-modified'))
        et = x.get('etag')
        if host == 'noetag':
            if et:
                return 'ETag although disabled'
            continue
        if len(et) != 1 or not (len(et[0]) > 2 and et[0][0] == '"' and et[0][-1] == '"' and '"' not in et[0][1:-1]):
            return '%s: ETag %r' % (n, et)
        k = {'x': n, 'sm': n, 'm': m, 's': sz}[host]
        if et[0] in seen and seen[et[0]] != k:
            return 'different versions (size-mtime) %s and %s share the ETag %s' % (seen[et[0]], k, et[0])
        seen[et[0]] = k
    return None


# --- phase 2: conditional requests, first an unconditional request to learn the validators is part of the script key
def etags(ctx, bdir=None):
    """learn the ETag of the probe file (its value is the implementation's business)"""
    pass


P = '1000-%d' % T0


def inm_variants(et, other):
    return [None, et, 'W/' + et, other, et + ', ' + other, other + ', ' + et, other + ',' + et, 'W/' + other, '"x"', '', et[1:-1], et[:-2] + '"', '"' + et[2:], et.replace('"', "'"), other + ', "x"']


def ims_variants():
    return [None, http(T0), http(T0 + 1), http(T0 - 1), http(T0 + 86400 * 400), http(T0 - 86400 * 400), 'junk', '', http(T0) + '; length=1000', http(T0 - 1) + '; length=1', http(T0)[:-4],
            http(T0 + 3600).replace('GMT', 'GMT'), '0', 'Sun, 13 Sep 2020', http(1), http(T0) + ' ' * 30 + 'x']


def inm_match(v, et):
    """None: not given, True/False"""
    if v is None:
        return None
    return et in v      # quoted tag contained in the list (weak comparison)


def ims_match(v):
    if v is None:
        return None
    v = v.split(';')[0].strip()
    if v == http(T0):
        return True
    try:
        t = time.strptime(v, '%a, %d %b %Y %H:%M:%S GMT')
    except ValueError:
        return False
    import calendar
    return calendar.timegm(t) >= T0


def ccases(ets, th):
    for host in ('x', 'noetag', 'sm'):
        et, other = ets[host]
        for m in ('GET', 'HEAD'):
            for i in range(len(inm_variants('"1"', '"2"'))):
                inm = inm_variants(et or '"77"', other or '"78"')[i]
                for ims in ims_variants():
                    for rng in (None, 'bytes=0-3'):
                        h = []
                        if inm is not None:
                            h.append(('If-None-Match', inm))
                        if ims is not None:
                            h.append(('If-Modified-Since', ims))
                        if rng:
                            h.append(('Range', rng))
                        yield ('c', host, m, inm, ims, rng, None), Script().connect(0).send(0, req(m, '/' + P, h, host=host) + req('GET', '/' + P, host=host)).q().drain(0).reset()
            # two If-None-Match headers
            if et:
                for a in (et, other):
                    for b in (et, other):
                        yield ('c', host, m, a + ',' + b, None, None, None), Script().connect(0).send(0, req(m, '/' + P, [('If-None-Match', a), ('If-None-Match', b)], host=host) + req('GET', '/' + P, host=host)).q().drain(0).reset()
            for ifr in [et or '"77"', other or '"78"', 'W/' + (et or '"77"'), http(T0), http(T0 + 1), http(T0 - 1), '', 'junk'  , (et or '"77"') + 'x']:
                for rng in (None, 'bytes=0-3', 'bytes=0-1,3-4', 'bytes=5000-'):
                    for inm in (None, et or '"77"', '"no"'):
                        h = [('If-Range', ifr)]
                        if rng:
                            h.append(('Range', rng))
                        if inm:
                            h.append(('If-None-Match', inm))
                        yield ('c', host, m, inm, None, rng, ifr), Script().connect(0).send(0, req(m, '/' + P, h, host=host) + req('GET', '/' + P, host=host)).q().drain(0).reset()


def mkjudge(ets):
    data = content(1000)

    def judge(key, r):
        _, host, m, inm, ims, rng, ifr = key
        et = ets[host][0]
        rs, err = bodies(r, 0, [m, 'GET'])
        if err:
            return err
        rs, left = rs
        if left or len(rs) != 2 or not rs[1].complete:
            return 'responses %r' % rs
        x = rs[0]
        if rs[1].status != 200 or rs[1].body != data:
            return 'following unconditional request: %r' % rs[1]
        a = inm_match(inm, et) if host != 'noetag' else (None)
        b = ims_match(ims)
        given = [v for v in (a, b) if v is not None]
        want304 = bool(given) and all(given)
        if x.status in (200, 206, 304) and x.get('last-modified') != [http(T0)] or (x.status in (200, 206, 304) and x.get('etag') != ([et] if et else [])):
            return 'validators in response: %r' % x.headers
        if want304:
            if x.status != 304:
                return 'expected 304, got %d' % x.status
            return None if not x.body else 'body in 304'
        if x.status == 304:
            return '304 although a validator does not match'
        if rng is None or (ifr is not None and ifr != et and ifr != http(T0)):
            if x.status != 200 or (m == 'GET' and x.body != data):
                return 'expected the complete file, got %r' % x
            return None
        if rng == 'bytes=5000-':
            return None if x.status == 416 else 'expected 416 got %d' % x.status
        if x.status != 206:
            return 'expected 206 got %d' % x.status
        if rng == 'bytes=0-3' and m == 'GET' and x.body != data[:4]:
            return 'wrong range'
        return None
    return judge


def learn(ctx):
    import vbuild
    from vc import VERIF
    wd = os.path.join(ctx.tmp, 'learn')
    os.makedirs(wd, exist_ok=True)
    return wd


def run(ctx):
    th = ctx.thorough
    ctx.rules.append('all pairs of file versions (sizes x mtimes) for validator distinctness; all combinations of If-None-Match x If-Modified-Since x Range x If-Range variants for the exact 304/206/200 decision')
    ctx.explore('validators of all file versions', config, vcases, vjudge, setup=setup, batch=1, timeout=120)
    # shared document tree: inode is part of the default etag, so all shards must see the same files
    wd = os.path.join(ctx.tmp, 'shared')
    os.makedirs(wd)
    setup(wd)
    s = Sim(config(wd), wd)
    ets = {}
    for host in ('x', 'noetag', 'sm'):
        v = []
        for n in (P, '1200-%d' % T0):
            r = s.run(Script().connect(0).send(0, req('GET', '/' + n, host=host)).q().drain(0).reset())
            (rs, left), err = bodies(r, 0, ['GET'])
            v.append(rs[0].one('etag'))
        ets[host] = v
    s.close()
    ctx.explore('conditional requests', config(wd), lambda: ccases(ets, th), mkjudge(ets), batch=32)
    histories(ctx)


OPS = ['same', 'touch', 'append', 'shrink', 'rewrite', 'rename', 'delete', 'dir']


def histories(ctx):
    """all modification histories of one path up to depth 3 (4), with cached stat entries, requests after every step"""
    depth = 4 if ctx.thorough else 3
    wd = os.path.join(ctx.tmp, 'hist')
    os.makedirs(os.path.join(wd, 'doc'))
    cfg = conf('docroot "%s/doc"; if req.host == "sync" { stat.async false; } static;' % wd)
    s = Sim(cfg, wd)
    n = tr = 0
    outs = set()
    f = os.path.join(wd, 'doc', 'f')
    try:
        for host in ('x', 'sync'):
            for seq in itertools.product(OPS, repeat=depth):
                if os.path.isdir(f):
                    os.rmdir(f)
                cur = b'version0:abcdefghij'
                mt = T0
                put(f, cur, mt)
                valid = []
                for i, op in enumerate(('same',) + seq):
                    if op == 'touch':
                        mt += 1
                        if cur is not None:
                            os.utime(f, (mt, mt))
                    elif op in ('append', 'shrink', 'rewrite', 'rename'):
                        base = cur or b'new:'
                        cur = {'append': base + b'%d' % i, 'shrink': base[:-1], 'rewrite': base[::-1], 'rename': b'R%d' % i + base}[op]
                        if os.path.isdir(f):
                            os.rmdir(f)
                        mt += 2
                        if op == 'rename':
                            put(f + '.tmp', cur, mt)
                            os.rename(f + '.tmp', f)
                        else:
                            put(f, cur, mt)
                    elif op in ('delete', 'dir'):
                        if os.path.isdir(f):
                            os.rmdir(f)
                        elif os.path.exists(f):
                            os.unlink(f)
                        cur = None
                        if op == 'dir':
                            os.mkdir(f)
                    rq = [req('GET', '/f', host=host)]
                    for et, lm, key in valid:
                        rq += [req('GET', '/f', [('If-None-Match', et)], host=host), req('GET', '/f', [('Range', 'bytes=1-3'), ('If-Range', et)], host=host)]
                    r = s.run(Script().connect(0).send(0, b''.join(rq)).q().drain(0).q().drain(0).reset())
                    n += 1
                    tr += len(rq)
                    rs, err = bodies(r, 0, ['GET'] * len(rq))
                    msg = err
                    if not msg:
                        rs = rs[0]
                        if len(rs) != len(rq):
                            msg = '%d responses for %d requests' % (len(rs), len(rq))
                        elif cur is None:
                            if any(x.status not in (403, 404) for x in rs):
                                msg = 'path has no file, responses %r' % rs
                        else:
                            if rs[0].status != 200 or rs[0].body != cur:
                                msg = 'unconditional: %r, current content %r' % (rs[0], cur)
                            k = (cur, mt)
                            for (et, lm, key), x, y in zip(valid, rs[1::2], rs[2::2]):
                                if key == k:
                                    # the same content and mtime may have a new inode: both answers are correct
                                    if not (x.status == 304 or (x.status == 200 and x.body == cur)):
                                        msg = 'unchanged file: %r' % x
                                elif x.status != 200 or x.body != cur:
                                    msg = 'modified file, old validator: %r' % x
                                if key != k and (y.status != 200 or y.body != cur):
                                    msg = 'If-Range with old validator: %r' % y
                                if key == k and not (y.status == 206 and y.body == cur[1:4] or y.status == 200 and y.body == cur):
                                    msg = 'If-Range: %r' % y
                            valid.append((rs[0].one('etag') or '"none"', rs[0].one('last-modified') or '', k))
                            valid = valid[-3:]
                        outs.add(repr([x.status for x in rs]))
                    if msg:
                        ctx.violation('[histories] host %s history %r step %d: %s' % (host, seq, i, msg), {'seq': repr(seq), 'config': cfg})
                        return
    except SimDied as e:
        ctx.violation('[histories] %s' % e, {'config': cfg})
        return
    finally:
        s.close()
        ctx.count('modification histories', n, tr, outs)


def put(p, v, mt):
    with open(p, 'wb') as f:
        f.write(v)
    os.utime(p, (mt, mt))
