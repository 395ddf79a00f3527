"""C30: generated pages (directory listings, status page) are complete and cannot be subverted by names"""
import itertools, os, shutil, urllib.parse
from html.parser import HTMLParser
from h import *

SAFE = set(b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.!*()/')
CSSTAGS = None


def quote(p):
    return ''.join(chr(c) if c in SAFE else '%%%02X' % c for c in p)


class P(HTMLParser):
    def __init__(self, data):
        super().__init__(convert_charrefs=True)
        self.shape = set()
        self.rows = []
        self.text = {}           # tag -> [text, ...]
        self.open = []
        self.row = None
        self.order = []
        self.links = []
        self.metas = []
        self.comments = 0
        self.feed(data.decode('latin-1'))
        self.close()

    def handle_starttag(self, tag, attrs):
        for a, v in attrs or [('', '')]:
            self.shape.add((tag, a))
        self.open.append(tag)
        self.text.setdefault(tag, []).append('')
        self.order.append(tag)
        d = dict(attrs)
        if tag == 'tr':
            self.row = {'cells': [], 'href': [], 'vals': [], 'a': ''}
            self.rows.append(self.row)
        elif tag == 'td' and self.row is not None:
            self.row['cells'].append('')
            self.row['vals'].append(d.get('val'))
        elif tag == 'a' and self.row is not None:
            self.row['href'].append(d.get('href'))
        elif tag in ('meta', 'link', 'br', 'hr', 'img', 'input'):
            if tag == 'meta':
                self.metas.append(d)
            if tag == 'link':
                self.links.append(d.get('href'))
            self.open.pop()

    def handle_startendtag(self, tag, attrs):
        self.handle_starttag(tag, attrs)
        if self.open and self.open[-1] == tag:
            self.open.pop()

    def handle_endtag(self, tag):
        if tag in self.open:
            while self.open.pop() != tag:
                pass
        if tag == 'tr':
            self.row = None

    def handle_comment(self, d):
        self.comments += 1

    def handle_data(self, d):
        for t in set(self.open):
            self.text[t][-1] += d
        if self.row is not None and 'td' in self.open and self.row['cells']:
            self.row['cells'][-1] += d


SPECIAL = [b'<img src=x onerror=y>', b'<b>', b'<!--', b'<script>alert(1)</script>', b'"onmouseover="x', b"'><b>", b'a&amp;b', b'a&lt;b', b'&#x3c;', b'x:y', b'javascript:alert(1)', b'http:', b'%41', b'%', b'%2e%2e', b'a%2fb', b'a?b=c', b'a#b', b'a b', b' ', b'  x ', b'...', b'-',
           b'n' * 255, b'\xc3\xa4', b'\xff\xfe', b'%s%n%x', b'a;b', b'a+b', b'\\', b'a\\..\\b', b'title</title>', b'--><b>', b']]>', b'A.TXT', b'x.txt']


def names():
    out = []
    for c in range(1, 256):
        if c == 47:
            continue
        out.append(b'a' + bytes([c]) + b'b')
    for c in (33, 34, 37, 38, 39, 43, 58, 59, 60, 62, 63, 64, 91, 92, 94, 96, 123, 126, 200):
        out.append(bytes([c]))
        if c != 126:
            out.append(b'a' + bytes([c]))
        out.append(bytes([c]) + b'a')
    out += SPECIAL
    seen = []
    for n in out:
        if n not in seen and b'/' not in n and n not in (b'.', b'..'):
            seen.append(n)
    return seen


NAMES = names()
CTL = set(range(1, 32)) | {127}


def mk(path, data=None, mtime=1600000000):
    if data is None:
        os.makedirs(path, exist_ok=True)
    else:
        with open(path, 'wb') as f:
            f.write(data)
    os.utime(path, (mtime, mtime))


CONTENT = {'plain': b'hello\nworld', 'html': b'<b>x</b> & "q" \'s\' &amp;', 'latin': b'\xe4\xff\xc3\xa4', 'max': b'h' * 65536, 'big': b'h' * 65537, 'empty': b'', 'dir': None, 'script': b'<script>alert("x")</script></pre>'}
ENTRIES = [('.dot', b'1'), ('t~', b'22'), ('.both~', b'3'), ('f.txt', b'4444'), ('g.bak', b'5'), ('bak', b'6'), ('sub', None), ('sub~', None), ('.sub', None), ('sub.bak', None), ('xf', b'777'), ('HEADER.txtx', b'8'), ('empty', b'')]


def setup(wd):
    root = wd.encode() + b'/www'
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    mk(root + b'/ref')
    mk(root + b'/ref/f', b'x')
    mk(root + b'/ref/d')
    for i, n in enumerate(NAMES):
        mk(root + b'/f%d' % i)
        mk(root + b'/f%d/' % i + n, b'file %d' % i, 1500000000 + i)
        mk(root + b'/d%d' % i)
        mk(root + b'/d%d/' % i + n)
        mk(root + b'/d%d/' % i + n + b'/in', b'inner %d' % i)
        os.utime(root + b'/d%d/' % i + n, (1400000000 + i,) * 2)
    for k, v in CONTENT.items():
        for w in ('HEADER.txt', 'README.txt'):
            d = root + ('/o-%s-%s' % (w[0], k)).encode()
            mk(d)
            for j, (n, c) in enumerate(ENTRIES):
                mk(d + b'/' + n.encode(), c, 1300000000 + j)
            mk(d + b'/' + w.encode(), v, 1200000000)
            other = 'README.txt' if w[0] == 'H' else 'HEADER.txt'
            mk(d + b'/' + other.encode(), b'other', 1200000001)
    mk(root + b'/o-none')
    for j, (n, c) in enumerate(ENTRIES):
        mk(root + b'/o-none/' + n.encode(), c, 1300000000 + j)
    # sizes
    mk(root + b'/sz')
    for j, n in enumerate(SIZES):
        with open(root + b'/sz/s%d' % j, 'wb') as f:
            f.truncate(n)


SIZES = [0, 1, 9, 10, 99, 100, 999, 1000, 1023, 1024, 1025, 2047, 10240, 102400, 1023 * 1024, 1024 * 1024, 1024 ** 3, 5 * 1024 ** 3, 1024 ** 4 + 1]
BOOLS = ['hide-dotfiles', 'hide-tildefiles', 'hide-directories', 'include-header', 'hide-header', 'encode-header', 'include-readme', 'hide-readme', 'encode-readme']
DEFAULT = dict(zip(BOOLS, [True, True, False, False, False, True, True, False, True]))
EXC = [((), ()), (('.bak',), ()), ((), ('x',)), (('bak', 'txt'), ('.', 'g')), (('~',), ('sub',)), (('',), ()), ((), ('f.txtlonger',))]


def optprogs(th):
    out = [({}, ((), ()))]
    # every combination of the six header/readme options, every combination of the hiding options x exclusions
    for bits in itertools.product((False, True), repeat=6):
        out.append((dict(zip(BOOLS[3:], bits)), ((), ())))
    for bits in itertools.product((False, True), repeat=3):
        for e in EXC:
            out.append((dict(zip(BOOLS[:3], bits)), e))
    if th:
        for bits in itertools.product((False, True), repeat=9):
            out.append((dict(zip(BOOLS, bits)), EXC[3]))
    return out


def optconf(o, e):
    l = ['"%s" => %s' % (k, 'true' if v else 'false') for k, v in o.items()]
    if e[0]:
        l.append('"exclude-suffix" => (%s)' % ', '.join('"%s"' % x for x in e[0]) if len(e[0]) > 1 else '"exclude-suffix" => ("%s",)' % e[0][0])
    if e[1]:
        l.append('"exclude-prefix" => (%s)' % ', '.join('"%s"' % x for x in e[1]) if len(e[1]) > 1 else '"exclude-prefix" => ("%s",)' % e[1][0])
    l.append('"css" => "/c.css"')
    return 'dirlist [%s];' % ', '.join(l)


def one(r, k, n=0):
    rs, err = bodies(r, k, ['GET'])
    if err:
        return None, err
    f = [x for x in rs[0] if x.status >= 200]
    if not f or not f[0].complete:
        return None, 'no complete response: %s' % short(r.data.get(k), 300)
    return f[0], None


def listing(resp):
    """-> parser, rows without the header and parent rows"""
    p = P(resp.body)
    rows = []
    for r in p.rows:
        if not r['cells']:
            continue
        if r['href'] == ['../'] and r['cells'][0] == 'Parent Directory':
            continue
        rows.append(r)
    return p, rows


def row_is(r, base, name, isdir, mtime, size, mime=None):
    if len(r['href']) != 1 or r['href'][0] is None:
        return 'links %r' % (r['href'],)
    u = urllib.parse.urlsplit(urllib.parse.urljoin('http://x' + base, r['href'][0]))
    if u.scheme != 'http' or u.netloc != 'x' or u.query or u.fragment:
        return 'link %r leads to %r' % (r['href'][0], u)
    got = urllib.parse.unquote_to_bytes(u.path.encode('latin-1'))
    want = urllib.parse.unquote_to_bytes(base) + name + (b'/' if isdir else b'')
    if got != want:
        return 'link %r leads to %r, not %r' % (r['href'][0], got, want)
    if r['cells'][0] != name.decode('latin-1') and not set(name) & CTL:
        return 'shown as %r' % r['cells'][0]
    if mtime is not None and str(mtime) not in r['vals']:
        return 'modification time %r, not %d' % (r['vals'], mtime)
    if not isdir and size is not None and str(size) not in r['vals']:
        return 'size %r, not %d' % (r['vals'], size)
    if mime and r['cells'][-1] != mime:
        return 'type %r not %r' % (r['cells'][-1], mime)
    return None


def match_rows(rows, base, want):
    if len(rows) != len(want):
        return '%d entries listed, not %d: %r instead of %r' % (len(rows), len(want), [x['cells'][:1] for x in rows], [w[0] for w in want])
    rest = list(rows)
    for w in want:
        for r in rest:
            if row_is(r, base, *w) is None:
                rest.remove(r)
                break
        else:
            return 'entry %r is not listed correctly: %s' % (w, row_is(rest[0], base, *w))
    return None


def run(ctx):
    th = ctx.thorough
    ctx.rules.append('HTML of the generated pages is parsed; every entry, link and text is compared with the directory, and no element or attribute appears that a harmless page does not have')

    def config(wd):
        return conf('''
docroot "%s/www";
mime_types (".txt" => "text/plain");
dirlist;
static;
''' % wd, ['mod_dirlist'])

    def name_cases():
        for i, n in enumerate(NAMES):
            sc = Script()
            urls = ['/ref/', '/f%d/' % i, '/d%d/' % i, '/f%d/%s' % (i, quote(n)), '/d%d/%s/' % (i, quote(n)), '/d%d/%s' % (i, quote(n))]
            for k, u in enumerate(urls):
                sc.connect(k).send(k, req('GET', u, [('Connection', 'close')])).q().drain(k)
            yield (i, n, tuple(urls)), sc.reset()

    def name_judge(key, r):
        i, n, urls = key
        ref, err = one(r, 0)
        if err:
            return err
        rp, _ = listing(ref)
        for k, isdir in ((1, False), (2, True)):
            x, err = one(r, k)
            if err:
                return '%s: %s' % (urls[k], err)
            if x.status != 200:
                return '%s: status %d' % (urls[k], x.status)
            p, rows = listing(x)
            hid = n.endswith(b'~') or n.startswith(b'.')
            e = match_rows(rows, urls[k], [] if hid else [(n, isdir, (1400000000 if isdir else 1500000000) + i, None if isdir else len(b'file %d' % i))])
            if e:
                return '%s: %s' % (urls[k], e)
            if p.shape - rp.shape or p.comments != rp.comments:
                return '%s: unexpected markup %r' % (urls[k], p.shape - rp.shape)
        if set(n) & CTL:
            return None
        x, err = one(r, 3)
        if err or x.status != 200 or x.body != b'file %d' % i:
            return 'following the link to the file: %s' % (err or short(x.body))
        x, err = one(r, 4)
        if err or x.status != 200:
            return 'following the link to the directory: %s' % (err or x.status)
        p, rows = listing(x)
        if p.shape - rp.shape or p.comments != rp.comments:
            return '%s: unexpected markup %r' % (urls[4], p.shape - rp.shape)
        e = match_rows(rows, urls[4], [(b'in', False, None, len(b'inner %d' % i))])
        if e:
            return '%s: %s' % (urls[4], e)
        for t in ('title', 'h2'):
            if p.text.get(t) != ['Index of /d%d/%s/' % (i, n.decode('latin-1'))]:
                return '%s: <%s> shows %r' % (urls[4], t, p.text.get(t))
        x, err = one(r, 5)
        if err:
            return err
        loc = [v for a, v in x.headers if a.lower() == 'location']
        if x.status not in (301, 302, 308) or len(loc) != 1:
            return '%s: %d %r' % (urls[5], x.status, loc)
        u = urllib.parse.urlsplit(loc[0])
        if u.scheme != 'http' or u.netloc != 'x' or u.query or u.fragment or urllib.parse.unquote_to_bytes(u.path) != b'/d%d/' % i + n + b'/':
            return '%s redirects to %r' % (urls[5], loc[0])
        return None
    ctx.explore('names of files and directories', config, name_cases, name_judge, setup=setup)

    # ---- sizes
    def size_cases():
        sc = Script().connect(0).send(0, req('GET', '/sz/', [('Connection', 'close')])).q().drain(0)
        yield ('sizes',), sc.reset()

    def size_judge(key, r):
        x, err = one(r, 0)
        if err:
            return err
        p, rows = listing(x)
        e = match_rows(rows, '/sz/', [(b's%d' % j, False, None, n) for j, n in enumerate(SIZES)])
        if e:
            return e
        for j, n in enumerate(SIZES):
            row = [x for x in rows if x['cells'][0] == 's%d' % j][0]
            t = row['cells'][2]
            try:
                v = float(t[:-1]) * 1024 ** 'BKMGTPE'.index(t[-1])
            except ValueError:
                return 'size %d shown as %r' % (n, t)
            unit = 1024 ** 'BKMGTPE'.index(t[-1])
            if abs(v - n) > max(0.2 * unit, 0) and not (n == 0 and v == 0):
                return 'size %d shown as %r' % (n, t)
        return None
    ctx.explore('file sizes', config, size_cases, size_judge, setup=setup)

    # ---- options
    OP = optprogs(th)
    DIRS = ['o-none'] + ['o-%s-%s' % (w, k) for w in 'HR' for k in CONTENT]

    def oconfig(wd):
        out = []
        for i, (o, e) in enumerate(OP):
            out.append('if req.query == "k%d" { %s }' % (i, optconf(o, e)))
        return conf('docroot "%s/www";\nmime_types (".txt" => "text/plain");\n%s\n' % (wd, '\n'.join(out)), ['mod_dirlist'])

    def ocases():
        for i, (o, e) in enumerate(OP):
            for d in DIRS:
                if not th and e != ((), ()) and d not in ('o-none', 'o-H-plain'):
                    continue
                sc = Script()
                sc.connect(0).send(0, req('GET', '/%s/?k%d' % (d, i), [('Connection', 'close')])).q().drain(0).q().drain(0)
                yield (i, d), sc.reset()

    def ojudge(key, r):
        i, d = key
        o, e = OP[i]
        opt = dict(DEFAULT)
        opt.update(o)
        x, err = one(r, 0)
        if err:
            return err
        if x.status != 200:
            return 'status %d' % x.status
        inc = {}
        ents = list(ENTRIES)
        times = {n: 1300000000 + j for j, (n, c) in enumerate(ENTRIES)}
        special = {}
        if d != 'o-none':
            w, c = d.split('-')[1:]
            special = {'HEADER.txt': CONTENT[c] if w == 'H' else b'other', 'README.txt': CONTENT[c] if w == 'R' else b'other'}
            for n, v in special.items():
                ents.append((n, v))
                times[n] = 1200000000 if n[0] == w else 1200000001
        want = []
        for n, v in ents:
            if opt['hide-dotfiles'] and n.startswith('.'):
                continue
            if opt['hide-tildefiles'] and n.endswith('~'):
                continue
            if any(n.endswith(s) for s in e[0]) or any(n.startswith(s) for s in e[1]):
                continue
            if v is None and opt['hide-directories']:
                continue
            if v is not None and (n == 'HEADER.txt' and opt['hide-header'] or n == 'README.txt' and opt['hide-readme']):
                continue
            want.append((n.encode(), v is None, times[n], None if v is None else len(v), None if v is None else ('text/plain' if n.endswith('.txt') else 'application/octet-stream')))
        for n, key2 in (('HEADER.txt', 'header'), ('README.txt', 'readme')):
            v = special.get(n)
            if v is not None and len(v) <= 65536 and opt['include-' + key2]:
                inc[n] = (v, opt['encode-' + key2])
        raw = x.body
        a, h2, rest = raw.partition(b'<h2')
        if not h2:
            return 'no title in %s' % short(raw)
        tbl, te, after = rest.partition(b'</table>')
        if not te:
            return 'no table in %s' % short(raw)
        for n, where in (('HEADER.txt', a.partition(b'<body>')[2]), ('README.txt', after.partition(b'<script')[0] if n != 'x' else after)):
            v, encd = inc.get(n, (None, None))
            if n == 'README.txt':
                where = after
            if v is None:
                if special.get(n) and (b'<pre>' in where or special[n] in where):
                    return '%s is included: %s' % (n, short(where))
                if special.get(n) == b'' and b'<pre>' in where:
                    return '%s is included: %s' % (n, short(where))
            elif not encd:
                if v not in where or b'<pre>' in where:
                    return '%s is not included as it is: %s' % (n, short(where))
            else:
                p = P(where)
                if [t.encode('latin-1') for t in p.text.get('pre', [])] != [v]:
                    return '%s is not included as text: %r' % (n, p.text.get('pre'))
                if p.shape & {('b', ''), ('b', 'x')}:
                    return '%s included with markup' % n
        p, rows = listing(type(x)(**{**x.__dict__, 'body': b'<h2' + tbl + te}) if False else _B(b'<h2' + tbl + te))
        er = match_rows(rows, '/%s/' % d, want)
        if er:
            return er
        if P(a.partition(b'<body>')[0]).links != ['/c.css']:
            return 'css link: %s' % short(a, 400)
        return None
    ctx.explore('options x directories', oconfig, ocases, ojudge, setup=setup)

    # ---- status page
    def sconfig(wd):
        return conf('''
if req.path == "/status" { status.info; }
else if req.path =^ "/p" { proxy "unix:/p"; }
''', ['mod_status', 'mod_proxy'])

    PAY = [b'<script>alert(1)</script>', b'"><b>', b"'x'", b'&amp;', b'%41', b'</span></td>', b'a b', b'\xc3\xa4', b'%s%n']

    def scases():
        i = 0
        for p in PAY + [b'z' + bytes([c]) + b'z' for c in range(32, 256) if c not in (47, 127)]:
            for q in (None, quote(p), ''.join(chr(c) for c in p if 33 <= c < 127 and chr(c) not in '#')):
                sc = Script()
                sc.connect(0).send(0, req('GET', '/status', [('Connection', 'close')])).q().drain(0)
                u = '/p' + quote(p) + ('' if q is None else '?' + q)
                sc.connect(1).send(1, req('GET', u, host='h%d.example' % i)).q()
                sc.connect(2).send(2, req('GET', '/status', [('Connection', 'close')], host='viewer')).q().drain(2)
                sc.close(1).q()
                yield (p, q, i), sc.reset()
                i += 1
        for p in PAY:
            for page in ('/status?', '/status?mode=runtime&'):
                for q in (quote(p), ''.join(chr(c) for c in p if 33 <= c < 127 and chr(c) not in '#')):
                    sc = Script()
                    for k, v in enumerate(('7', q)):
                        sc.connect(k).send(k, req('GET', '%srefresh=%s' % (page, v), [('Connection', 'close')])).q().drain(k)
                    yield (p, q, page), sc.reset()

    def sjudge(key, r):
        p, q, i = key
        ref, err = one(r, 0)
        if err:
            return err
        rp = P(ref.body)
        if isinstance(i, str):
            x, err = one(r, 1)
            if err:
                return err
            if x.status in (400, 404):
                return None
            pp = P(x.body)
            if x.status != 200 or pp.shape - rp.shape:
                return 'refresh=%s: unexpected markup %r' % (q, pp.shape - rp.shape)
            if len(pp.metas) != len(rp.metas):
                return 'refresh=%s: %r' % (q, pp.metas)
            return None
        x, err = one(r, 2)
        if err:
            return err
        pp = P(x.body)
        if pp.shape - rp.shape or pp.comments != rp.comments:
            return 'unexpected markup %r' % (pp.shape - rp.shape)
        if b'400' in (r.data.get(1) or b'')[:20]:
            return None
        rows = [[c.strip() for c in w['cells']] for w in pp.rows if w['cells']]
        want = '/p' + p.decode('latin-1') + ('' if q in (None, '') else '?' + q)
        me = [w for w in rows if 'h%d.example' % i in w]
        if not me:
            return 'connection is not listed: %r' % rows[-3:]
        if len(me) != 1 or want not in me[0]:
            return 'connection for %r shown as %r' % (want, me)
        if not any('viewer' in w and '/status' in w for w in rows):
            return 'own connection is not listed: %r' % rows[-2:]
        return None
    ctx.explore('status page with requests of other clients', sconfig, scases, sjudge)


class _B:
    def __init__(self, body):
        self.body = body
