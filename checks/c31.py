"""C31: the configuration language means what its documentation says"""
import itertools, os, struct, subprocess, shutil, glob, zlib
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor
import vbuild
from vc import VERIF

MAX, MIN = 2 ** 63 - 1, -2 ** 63


# ---- values; a program's output is a sequence of dumped values

class Refuse(Exception):
    pass


class Act:
    pass


NONE = object()


def dump(v):
    if v is None:
        return b'0'
    if v is NONE:
        return b'n'
    if v is True:
        return b'T'
    if v is False:
        return b'F'
    if isinstance(v, int):
        return b'i%d;' % v
    if isinstance(v, bytes):
        return b's%d:' % len(v) + v
    if isinstance(v, list):
        return b'(' + b''.join(dump(x) for x in v) + b')'
    return b'a'


def num(v):
    return isinstance(v, int) and not isinstance(v, bool)


def binop(op, a, b):
    if num(a) and num(b):
        if op == '+':
            r = a + b
        elif op == '-':
            r = a - b
        elif op == '*':
            r = a * b
        else:
            if b == 0:
                raise Refuse
            r = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
        if not MIN <= r <= MAX:
            raise Refuse
        return r
    if op == '+' and (isinstance(a, bytes) and isinstance(b, bytes) or isinstance(a, list) and isinstance(b, list)):
        return a + b
    raise Refuse


PREC = {'+': 3, '-': 3, '*': 4, '/': 4}


# ---- reference parser and evaluator on token level
# tokens: ('v', value) literals, ('n', name), everything else is a keyword or operator string

class Prog:
    def __init__(self, toks, files={}):
        self.t = toks
        self.p = 0
        self.files = files
        self.out = []
        self.glob = {}
        self.scopes = [{}]

    def peek(self):
        return self.t[self.p] if self.p < len(self.t) else None

    def next(self):
        x = self.peek()
        self.p += 1
        return x

    def expect(self, x):
        if self.next() != x:
            raise Refuse

    def run(self):
        try:
            self.actions(False)
        except Refuse:
            return b'!'
        return b''.join(self.out)

    # variables
    def get(self, n):
        for s in reversed(self.scopes):
            if n in s:
                return s[n]
        if n in self.glob:
            return self.glob[n]
        raise Refuse

    def has(self, n):
        return any(n in s for s in self.scopes) or n in self.glob

    def set(self, how, n, v):
        if n.startswith('sys.'):
            raise Refuse
        if how == 'global':
            self.glob[n] = v
            return
        if how == '':
            for s in reversed(self.scopes):
                if n in s:
                    s[n] = v
                    return
            if n in self.glob:
                self.glob[n] = v
                return
        self.scopes[-1][n] = v

    # statements
    def actions(self, block):
        while True:
            t = self.next()
            if t is None:
                if block:
                    raise Refuse
                return
            if t == '}':
                if not block:
                    raise Refuse
                return
            if t == 'setup':
                t = self.next()
                if t == '{':
                    while True:
                        t = self.next()
                        if t == '}':
                            break
                        self.setup(t)
                else:
                    if not (isinstance(t, tuple) and t[0] == 'n'):
                        raise Refuse
                    self.call(t[1])
            elif t in ('local', 'global'):
                n = self.name(self.next())
                self.expect('=')
                v, _ = self.value()
                self.expect(';')
                self.set(t, n, v)
            elif t == 'include':
                self.include()
            elif t == 'if':
                self.cond()
            else:
                n = self.name(t)
                if self.peek() == '=':
                    self.next()
                    v, _ = self.value()
                    self.expect(';')
                    self.set('', n, v)
                elif self.has(n):
                    if not isinstance(self.get(n), Act):
                        raise Refuse
                    self.expect(';')
                else:
                    self.call(n)

    def name(self, t):
        if isinstance(t, tuple) and t[0] == 'n':
            return t[1]
        raise Refuse

    def setup(self, t):
        n = self.name(t)
        if self.peek() == '=':
            self.next()
            v, _ = self.value()
            self.expect(';')
            self.set('', n, v)
        else:
            self.call(n)

    def include(self):
        v = self.params()
        if isinstance(v, list) and len(v) == 1 and isinstance(v[0], bytes) and v[0] in self.files:
            sub = Prog(self.files[v[0]], self.files)
            sub.glob, sub.out = self.glob, self.out
            sub.scopes = self.scopes + [{}]
            sub.actions(False)
            return
        raise Refuse

    def cond(self):
        # conditions are only parsed here: name == value
        self.expect(('n', 'req.path'))
        self.expect('==')
        t = self.next()
        if not (isinstance(t, tuple) and t[0] == 'v' and isinstance(t[1], bytes)):
            raise Refuse
        self.expect('{')
        self.actions(True)
        if self.peek() == 'else':
            self.next()
            t = self.next()
            if t == '{':
                self.actions(True)
            elif t == 'if':
                self.cond()
            else:
                raise Refuse

    def call(self, n):
        v = self.params()
        if n != 't.out':
            raise Refuse
        self.out.append(dump(v) + b'.')

    def params(self):
        """list of parameters; a key-value list counts as one parameter"""
        if self.peek() == ';':
            self.next()
            return None
        v, kv = self.value()
        t = self.peek()
        if t == ';':
            self.next()
        elif t in (',', '=>'):
            v, kv = self.items(v, ';')
        else:
            raise Refuse
        if kv or not isinstance(v, list):
            v = [v]
        return v

    # values; second result: it is literally a key-value list
    def items(self, first, end):
        out = []
        kvl = None
        while True:
            if first is not None:
                v, first = first, None
            else:
                if self.peek() == end:
                    self.next()
                    break
                v, _ = self.value()
            if self.peek() == '=>':
                if kvl is False:
                    raise Refuse
                kvl = True
                self.next()
                w, _ = self.value()
                v = [v, w]
            else:
                if kvl:
                    raise Refuse
                kvl = False
            out.append(v)
            t = self.next()
            if t == end:
                break
            if t != ',':
                raise Refuse
        return out, bool(kvl)

    def value(self, prec=0, unary=False):
        t = self.next()
        kv = False
        if isinstance(t, tuple) and t[0] == 'v':
            v = t[1]
        elif isinstance(t, tuple) and t[0] == 'n':
            v = self.get(t[1])
        elif t == '-':
            v, kv = self.value(unary=True)
            if not num(v) or v == MIN:
                raise Refuse
            v = -v
        elif t in ('not', '!'):
            v, kv = self.value(unary=True)
            if not isinstance(v, bool):
                raise Refuse
            v = not v
        elif t == 'cast(int)':
            v, kv = self.value(unary=True)
            if isinstance(v, bool):
                v = int(v)
            elif isinstance(v, bytes):
                d = v.lstrip(b' \t\n\v\f\r')
                s = d[1:] if d[:1] in (b'-', b'+') else d
                if not s.isdigit() or not MIN <= int(d) <= MAX:
                    raise Refuse
                v = int(d)
            elif not num(v):
                raise Refuse
        elif t == 'cast(string)':
            v, kv = self.value(unary=True)
            if isinstance(v, bool):
                v = b'true' if v else b'false'
            elif num(v):
                v = b'%d' % v
            else:
                raise NotImplementedError
        elif t == '{':
            self.scopes.append({})
            self.actions(True)
            self.scopes.pop()
            v = Act()
        elif t == '[':
            v, kv = self.items(None, ']')
        elif t == '(':
            v, kv = self.value()
            u = self.peek()
            if u == ')':
                self.next()
            elif u in (',', '=>'):
                v, kv = self.items(v, ')')
            else:
                raise Refuse
        else:
            raise Refuse
        if unary:
            return v, kv
        while self.peek() in PREC and PREC[self.peek()] > prec:
            op = self.next()
            w, kw = self.value(PREC[op])
            # the result of + on lists counts as key-value list if one of them was one
            v = binop(op, v, w)
            kv = kv or kw
        return v, kv


def text(t):
    if isinstance(t, str):
        return t.encode()
    k, v = t[0], t[1]
    if k == 'n':
        return v.encode()
    if len(t) > 2:
        return t[2]
    if v is NONE:
        return b'none'
    if v is True:
        return b'true'
    if v is False:
        return b'false'
    if num(v):
        return b'%d' % v
    return b'"' + v + b'"'


def V(v, txt=None):
    return ('v', v) if txt is None else ('v', v, txt)


def N(n):
    return ('n', n)


OUT = N('t.out')


def render(toks, sep=b' '):
    return sep.join(text(t) for t in toks)


def simple(toks, sep=b' ', files={}):
    try:
        return render(toks, sep), Prog(toks, files).run()
    except NotImplementedError:
        return None


# ---- groups: generators of (program, expected output)

def g_tokens(th, part, parts):
    """every sequence of tokens as parameters of a call"""
    A = [V(1), V(b's'), '+', '*', '-', '(', ')', '[', ']', ',', '=>', ';', N('a'), 'true', '!']
    A = [V(True) if x == 'true' else x for x in A]
    pre = [N('a'), '=', '[', V(2), '=>', V(3), ']', ';', OUT]
    i = 0
    for n in range(0, 5 if th else 4):
        for s in itertools.product(A, repeat=n):
            # one pass is enough once a statement is complete
            i += 1
            if i % parts != part:
                continue
            yield simple(pre + list(s) + [';'])
    # longer ones over fewer tokens
    B = [V(1), V(b's'), '+', '(', ')', '[', ']', ',', '=>']
    for n in (5, 6) if th else (5,):
        for s in itertools.product(B, repeat=n):
            i += 1
            if i % parts != part:
                continue
            yield simple([OUT] + list(s) + [';'])


LEAVES = [V(0), V(1), V(7), V(2 ** 31), V(2 ** 32 + 1), V(MAX), V(-1, b'-1'), V(-13, b'-13'), V(MIN, b'-9223372036854775808'), V(b''), V(b'ab'), V(True), NONE, 'L0', 'L1', 'L2']


def leaf(l):
    if l is NONE:
        return [V(NONE)]
    if l == 'L0':
        return ['[', ']']
    if l == 'L1':
        return ['[', V(1), ']']
    if l == 'L2':
        return ['[', V(b'x'), ',', '[', V(2), ']', ']']
    return [l]


def g_expr(th, part, parts):
    def tail(toks):
        return simple([OUT] + toks + [',', V(0), ';'])
    i = 0
    for a, op, b in itertools.product(LEAVES, '+-*/', LEAVES):
        i += 1
        if i % parts == part:
            yield tail(leaf(a) + [op] + leaf(b))
    un = ([], ['-'], ['!'], ['not'], ['cast(int)'], ['cast(string)'], ['-', '-'], ['cast(int)', 'cast(string)'], ['cast(string)', '-'])
    for u, a, op, w, b in itertools.product(un, LEAVES, '+*', un, LEAVES[:13] if th else LEAVES[1:12:2]):
        i += 1
        if i % parts == part:
            yield tail(u + leaf(a) + [op] + w + leaf(b))
    for s in (b'12', b'-12', b'+12', b'007', b' 12', b'12 ', b'', b'x', b'0x10', b'1e3', b'9223372036854775807', b'9223372036854775808', b'-9223372036854775808', b'-9223372036854775809', b'-', b'1kbyte', b'1\\x00'):
        i += 1
        if i % parts == part:
            yield tail(['cast(int)', V(s.replace(b'\\x00', b'\0'), b'"' + s + b'"')])
    # association and precedence: all operators, all ways to set one pair of parentheses
    L = [V(7), V(2), V(3), V(-5, b'-5'), V(40)]
    for n in (3, 4) if not th else (3, 4, 5):
        for ops in itertools.product('+-*/', repeat=n - 1):
            for x in range(0, n):
                for y in range(x + 1, n + 1):
                    if (x, y) == (0, n):
                        pass
                    for rot in range(5) if n < 5 else (0,):
                        i += 1
                        if i % parts != part:
                            continue
                        toks = []
                        for j in range(n):
                            if j == x:
                                toks.append('(')
                            toks.append(L[(j + rot) % 5])
                            if j == y - 1:
                                toks.append(')')
                            if j < n - 1:
                                toks.append(ops[j])
                        yield tail(toks)


SUF = {'': 1, 'byte': 1, 'kbyte': 1024, 'mbyte': 1024 ** 2, 'gbyte': 1024 ** 3, 'tbyte': 1024 ** 4, 'pbyte': 1024 ** 5, 'bit': None, 'kbit': 128, 'mbit': 131072, 'gbit': 1024 ** 3 // 8,
       'tbit': 1024 ** 4 // 8, 'pbit': 1024 ** 5 // 8, 'sec': 1, 'min': 60, 'hours': 3600, 'days': 86400}


def g_int(th, part, parts):
    ns = [0, 1, 2, 7, 8, 9, 10, 15, 16, 63, 64, 255, 1000, 4095, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 53 + 1, 2 ** 62, MAX // 10, MAX // 10 * 10, MAX - 8, MAX - 1, MAX, MAX + 1, MAX + 2, MAX + 3, 2 ** 64 - 1, 2 ** 64, 2 ** 64 + 5, 10 ** 19, 16 ** 16 - 1]
    ns += [10 ** k for k in range(2, 19)] + [MAX // f + d for f in SUF.values() if f and f > 1 for d in (-1, 0, 1)] if th else [MAX // f + d for f in (60, 1024, 86400, 1024 ** 5) for d in (0, 1, 2)]
    i = 0
    for n in ns:
        for base in 'dxXo':
            d = {'d': '%d', 'x': '0x%x', 'X': '0x%X', 'o': '0%o'}[base] % n
            for sg in ('', '-'):
                for suf, f in SUF.items():
                    if base in 'xX' and suf in ('byte', 'bit', 'days'):
                        continue   # see g_hexsuf
                    for sp in ('',):
                        i += 1
                        if i % parts != part:
                            continue
                        v = -n if sg else n
                        if not MIN <= v <= MAX:
                            want = b'!'
                        else:
                            if f is None:
                                v = abs(v) // 8 * (-1 if v < 0 else 1)
                            else:
                                v *= f
                            want = dump([v]) + b'.' if MIN <= v <= MAX else b'!'
                        yield ('t.out %s%s%s%s;' % (sg, d, sp, suf)).encode(), want
    for bad in ('08', '018', '0x', '0xg', '1x', '1k', '10 minutes', '1hour', '1 kbytes', '1byte2', '0b1', '1.5', '1_000', '--1', '1day', '12abc', '0x1g', '5 kbyte mbyte'):
        i += 1
        if i % parts == part:
            yield b't.out ' + bad.encode() + b';', b'!'


def g_hexsuf(th, part, parts):
    yield b't.out 0x1byte;', dump([1]) + b'.'
    yield b't.out 0x10bit;', dump([2]) + b'.'
    yield b't.out 0x1days;', dump([86400]) + b'.'


ESC = {ord('t'): b'\t', ord('r'): b'\r', ord('n'): b'\n', ord('"'): b'"', ord("'"): b"'", ord('\\'): b'\\'}


def g_str(th, part, parts):
    i = 0

    def pieces():
        for c in range(256):
            yield bytes([c]), 'raw'
        for c in range(256):
            yield b'\\' + bytes([c]), 'esc'
        for c in range(256):
            yield b'\\x%02x' % c, 'hex'
            if c % 16 > 9 or c > 0x9f:
                yield b'\\x%02X' % c, 'hex'
        for a in (b'g', b'0g', b'g0', b' 1', b'-1'):
            yield b'\\x' + a, 'badhex'
    pl = list(pieces())
    for q in (b'"', b"'"):
        for e in (b'', b'e'):
            def mean(p, k):
                if k == 'raw':
                    return None if p == q or p == b'\\' else p
                if k == 'hex':
                    return bytes([int(p[2:], 16)])
                if k == 'badhex':
                    return False
                c = p[1]
                if c == ord('x'):
                    return False
                if c in ESC:
                    return ESC[c]
                return False if e else p
            for pre, post in ((b'', b''), (b'a', b'z')) + (((b'\\\\', b'\\\\'),) if th else ()):
                for p, k in pl:
                    i += 1
                    if i % parts != part:
                        continue
                    m = mean(p, k)
                    if m is None:
                        continue
                    if m is False:
                        want = b'!'
                    else:
                        v = pre.replace(b'\\\\', b'\\') + m + post.replace(b'\\\\', b'\\')
                        want = dump([v, 0]) + b'.'
                    yield b't.out ' + e + q + pre + p + post + q + b', 0;', want
    # pairs of escapes next to each other, and next to the closing quote
    ps = [b'a', b'\\n', b'\\\\', b'\\"', b"\\'", b'\\x41', b'\\d', b'\\x5c', b'\\x22', b'#', b';', b'\n', b'x']
    mv = [b'a', b'\n', b'\\', b'"', b"'", b'A', b'\\d', b'\\', b'"', b'#', b';', b'\n', b'x']
    for n in (2, 3):
        for idx in itertools.product(range(len(ps)), repeat=n):
            for q in (b'"', b"'"):
                i += 1
                if i % parts != part:
                    continue
                yield b't.out ' + q + b''.join(ps[j] for j in idx) + q + b';', dump([b''.join(mv[j] for j in idx)]) + b'.'
    for bad in (b'"a', b"'a", b'"a\\"', b'e"a', b'"a\'', b'f"a"', b'e "a"'):
        i += 1
        if i % parts == part:
            yield b't.out ' + bad + b';', b'!'


def g_noise(th, part, parts):
    """white space and comments may stand between any two tokens"""
    progs = [
        [N('a'), '=', V(1), ';', OUT, N('a'), ',', V(b's'), ';'],
        ['if', N('req.path'), '==', V(b'/'), '{', OUT, V(1), ';', '}', 'else', '{', OUT, V(2), ';', '}'],
        [N('b'), '=', '{', OUT, '[', V(1), '+', V(2), ',', V(b'x'), '=>' if False else ',', ']', ';', '}', ';', N('b'), ';'],
        ['setup', '{', OUT, V(b'k'), '=>', V(3), ',', ';', '}', 'setup', OUT, '-', N('c'), ';'],
        ['local', N('a'), '=', 'cast(int)', V(b'5'), ';', OUT, 'not', V(True), ',', N('a'), ';'],
    ]
    noise = [b' ', b'\t', b'\n', b'\r', b'\r\n', b'  \n\t ', b'#\n', b' # x " ; } \r\n', b'#a\n#b\n', b'\n\n#\r', b'#x\r#y\n ']
    i = 0
    for p in progs:
        want = Prog(p).run()
        for nz in noise:
            i += 1
            if i % parts == part:
                yield render(p, nz), want
                yield nz + render(p, nz) + nz, want
            for j in range(len(p) + 1):
                i += 1
                if i % parts != part:
                    continue
                yield render(p[:j]) + (b' ' if j else b'') + nz + render(p[j:]), want
        for end in (b'#', b'# no newline', b' # x', b'\n#\n#', b' ', b'\n'):
            i += 1
            if i % parts == part:
                yield render(p) + end, want
    # where no space is needed
    for s, v in ((b't.out 1+2;', [3]), (b't.out 2*3;', [6]), (b't.out 8/2;', [4]), (b't.out(1);', [1]), (b't.out[1,2];', [1, 2]), (b't.out"a"+"b";', [b'ab']), (b"t.out'a';", [b'a']),
                 (b't.out -3;', [-3]), (b't.out -(3);', [-3]), (b't.out !true;', [False]), (b't.out "a"=>1;', [[[b'a', 1]]]), (b'a=5;t.out a;', [5]), (b'a=5;t.out -a;', [-5]),
                 (b't.out cast (\tint\n) "5";', [5]), (b't.out cast( string )5;', [b'5']), (b't.out 0x1F,017,9;', [31, 15, 9]), (b'_x.y1=1;t.out _x.y1;', [1]), (b'trueish=1;t.out trueish;', [1]),
                 (b'iffy=1;t.out iffy;', [1]), (b'e=1;t.out e;', [1]), (b'nota=1;t.out nota;', [1]), (b'e.f=1;t.out e.f,[e.f];', [1, [1]]), (b'casting=1;t.out casting;', [1]), (b'included=1;t.out included;', [1])):
        i += 1
        if i % parts == part:
            yield s, dump(v) + b'.'
    for s in (b'true=1;', b'if=1;', b'1a=1;', b'.a=1;', b'sys.pid=1;', b'local sys.x=1;', b'global sys.x = 1;', b't.out sys.nothing;', b't.out sys.env.VP_NOT_SET;', b't.out undefined;', b'unknown_action;', b'unknown_action 1;', b'setup { unknown_setup 1; }',
              b'setup { include "i1"; }', b'}', b'{', b'if req.path == "/" {', b'if req.path == "/" { } else', b'setup {', b'a = ;', b'a = 1', b't.out 1', b't.out', b'= 1;', b';', b'if { }', b'if req.path { t.out 1; } }', b'if req.path == { }', b'if req.path == "/" }',
              b'if req.path == 1 + 2 { }', b'if req.path =~ "(" { }', b'if req.path =~ "[" { t.out 1; }', b'if req.nothing == "x" { }', b'if req. == "x" { }', b'if req.pat == "x" { }', b'if req.paths == "x" { }', b'if request.h == "x" { }', b'if phys.i == true { }', b'if resp.stat == 5 { }', b'if req.e["x"] == "y" { }',
              b'respond "%{req.header}";', b'respond "%{req.env}";', b'respond "a%{resp.header}";', b'respond "%{req.p}";', b'respond "%{req.}";', b'respond "%{}";', b'respond "%{req.host";', b'respond "%{req.header[]}";', b'respond "%{req.header[x}";', b'respond "%x";', b'respond "a$";', b'respond "a%";', b'if req.header == "x" { }', b'if req.path["x"] == "y" { }', b'if req.header["x" == "y" { }', b'if req.remoteip =/ "300.1.1.1" { }',
              b'if not { }', b'if (req.path == "x" { }', b'if req.path == "x" and { }', b'if req.path == ["x"] { }', b'if req.path == true { }', b'else { }', b'x = { t.out 1; ;', b'x = { y };', b'x = {}; x 1;', b'x = 1; x;', b'include "missing";', b'include 5;', b'include;', b'include "i1", "i1";',
              b'include "bad";', b'include_shell "false";', b'include_shell "/nonexistent/x";', b'include_shell "echo }";'):
        i += 1
        if i % parts == part:
            yield s, b'!'
    for s, v in ((b't.out sys.cwd;', [os.environ.get('C31_CWD', '').encode()]), (b't.out sys.env.C31_X;', [b'val ue']), (b'include_shell "printf \'t.out 5;\'";', [5]), (b'a = 4; include_shell "printf \'t.out a;\'";', [4])):
        i += 1
        if i % parts == part and v != [b'']:
            yield s, dump(v) + b'.'


def g_scope(th, part, parts):
    """all small programs of assignments and reads in nested scopes"""
    files = {b'i1': [N('a'), '=', V(71), ';'], b'i2': ['local', N('a'), '=', V(72), ';', OUT, N('a'), ';'], b'i3': ['global', N('a'), '=', V(73), ';'], b'i4': [OUT, N('a'), ';', N('b'), '=', V(74), ';', 'include', V(b'i1'), ';', OUT, N('a'), ';']}
    basic = [('=', 'a'), ('local', 'a'), ('global', 'a'), ('out', 'a'), ('copy', 'a', 'b'), ('out', 'b'), ('app', 'a')]
    inc = [('inc', b'i1'), ('inc', b'i2'), ('inc', b'i3'), ('inc', b'i4')]
    inner1 = [(x,) for x in basic + inc]
    inner2 = list(itertools.product(basic[:6], repeat=2))
    inner = inner1 + inner2
    blocks = [('blk', x) for x in inner] + [('if', x) for x in inner] + [('else', x) for x in inner1] + [('setup', ('=', 'a')), ('setup', ('out', 'a'))]
    deep = [('blk', (('blk', x), ('out', 'a'))) for x in inner1] + [('blk', (y, ('blk', x))) for x in inner1 for y in basic[:3]] + [('if', (('blk', x),)) for x in inner1]
    ctr = [0]

    def toks(st):
        k = st[0]
        if k in ('=', 'local', 'global'):
            ctr[0] += 1
            return ([k] if k != '=' else []) + [N(st[1]), '=', '[', V(ctr[0]), ']', ';']
        if k == 'out':
            return [OUT, N(st[1]), ',', V(0), ';']
        if k == 'copy':
            return [N(st[2]), '=', N(st[1]), ';']
        if k == 'app':
            ctr[0] += 1
            return [N(st[1]), '=', N(st[1]), '+', '[', V(ctr[0]), ']', ';']
        if k == 'inc':
            return ['include', V(st[1]), ';']
        body = sum((toks(x) for x in st[1]), []) if k != 'setup' else toks(st[1])
        if k == 'blk':
            return [N('z'), '=', '{'] + body + ['}', ';']
        if k == 'if':
            return ['if', N('req.path'), '==', V(b'/'), '{'] + body + ['}']
        if k == 'else':
            return ['if', N('req.path'), '==', V(b'/'), '{', '}', 'else', '{'] + body + ['}']
        return ['setup', '{'] + body + ['}']
    top = basic + inc + blocks + deep
    i = 0

    def progs():
        for n in (1, 2):
            yield from itertools.product(top, repeat=n)
        yield from itertools.product(basic, top, basic if not th else top)
        if th:
            yield from itertools.product(basic, basic, top, basic)
    for p in progs():
        i += 1
        if i % parts != part:
            continue
        ctr[0] = 0
        t = sum((toks(s) for s in p), [])
        # finally look at everything; a variable that does not exist refuses the program, so ask for each separately
        for fin in ('a', 'b'):
            yield simple(t + [OUT, N(fin), ',', V(0), ';'], files=files)



def lit(v):
    if v is NONE:
        return b'none'
    if v is True or v is False:
        return b'true' if v else b'false'
    if isinstance(v, int):
        return b'%d' % v
    if isinstance(v, bytes):
        return b'"' + b''.join(b'\\x%02x' % c for c in v) + b'"'
    return b'[' + b', '.join(lit(x) for x in v) + b']'


def g_vars(th, part, parts):
    # values keep their type and content when they go through variables
    leaf = [0, 1, -1, 2**31 - 1, 2**31, -2**31 - 1, 2**32, 2**32 + 5, MAX, MIN + 1, b'', b'a', b'a\0b', b'\0', b'\xff"\\', b'x' * 300, True, False, NONE, []]
    small = [2**32, b'a\0b', True, NONE, []]
    vals = list(leaf)
    vals += [[x] for x in leaf]
    vals += [[x, y] for x in leaf for y in small]
    vals += [[[x]] for x in leaf] + [[[x, 1], y] for x in small for y in small] + [[x, [y, [x]], [[]], y] for x in small for y in small]
    vals += [list(range(k)) for k in (3, 15, 16, 17, 33)]
    forms = [(b'a = %s; t.out a;', lambda v: [[v]]), (b'a = %s; t.out a; t.out a, a;', lambda v: [[v], [v, v]]), (b'global a = %s; b = a; t.out b, [a, [b]];', lambda v: [[v, [v, [v]]]]),
             (b'local a = [%s]; a2 = a + a; t.out a2; t.out a;', lambda v: [[[v, v]], [[v]]]), (b'a = %s; b = a; a = 3; t.out b; t.out a;', lambda v: [[v], [3]]),
             (b'a = %s; if req.path == "/" { b = [a, a]; t.out b, a; } t.out a;', lambda v: [[[v, v], v], [v]]), (b'a = %s; x = { t.out a; }; x; t.out a, ["k" => a];', lambda v: [[v], [v, [[b'k', v]]]]),
             (b'a = ["k" => %s]; t.out a; t.out a;', lambda v: [[[[b'k', v]]]] * 2), (b'setup { a = %s; t.out a; }', lambda v: [[v]])]
    i = 0
    for f, w in forms:
        for v in vals:
            i += 1
            if i % parts == part:
                o = [[x] if not isinstance(x, list) else x for x in w(v)]
                # a list as only parameter is the list of parameters
                o = [x[0] if len(x) == 1 and isinstance(x[0], list) else x for x in o]
                yield f % lit(v), b''.join(dump(x) + b'.' for x in o)


GROUPS = {'token sequences': g_tokens, 'expressions': g_expr, 'integers': g_int, 'hexadecimal with suffix': g_hexsuf, 'strings': g_str, 'variables': g_vars, 'white space, comments, rejections': g_noise, 'scopes and includes': g_scope}


def work(a):
    group, th, part, parts, exe, d = a
    wd = os.path.join(d, '%s-%d' % (group.replace(' ', '_').replace(',', ''), part))
    os.makedirs(wd)
    os.environ['C31_CWD'] = os.path.realpath(wd)
    recs = os.path.join(wd, 'records')
    n = 0
    res = set()
    with open(recs, 'wb') as f:
        for x in GROUPS[group](th, part, parts):
            if x is None:
                continue
            p, w = x
            f.write(struct.pack('<I', len(p)) + p + struct.pack('<I', len(w)) + w)
            n += 1
            res.add(zlib.crc32(w))
    for name, c in ((b'i1', b'a = 71;'), (b'i2', b'local a = 72; t.out a;'), (b'i3', b'global a = 73;'), (b'i4', b't.out a;\nb = 74; include "i1"; t.out a;'), (b'bad', b't.out (;')):
        with open(os.path.join(wd, name.decode()), 'wb') as f:
            f.write(c)
    env = {'PATH': '/usr/bin:/bin', 'LANG': 'C.UTF-8', 'TZ': 'UTC', 'HOME': wd, 'C31_X': 'val ue', 'ASAN_OPTIONS': 'detect_leaks=0:exitcode=86:detect_odr_violation=0'}
    try:
        r = subprocess.run([exe, recs], cwd=wd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=800)
        rc, out, err = r.returncode, r.stdout.decode('latin-1'), r.stderr.decode('latin-1')
    except subprocess.TimeoutExpired:
        rc, out, err = 'timeout', '', ''
    last = ''
    if rc not in (0, 1):
        for c in glob.glob(os.path.join(wd, 'cfg-*.conf')):
            last = open(c, 'rb').read().decode('latin-1')
    bad = [l for l in out.splitlines() if l.startswith('BAD')]
    ok = [l for l in out.splitlines() if l.startswith('OK ')]
    tr = int(ok[0].split()[2]) if ok else 0
    if ok and int(ok[0].split()[1]) != n:
        bad.append('BAD only %s of %d programs were run' % (ok[0], n))
    shutil.rmtree(wd, ignore_errors=True)
    return group, n, tr, list(res), rc, bad, last, err[-3000:]


def run(ctx):
    exe = vbuild.harness('cfg', [os.path.join(VERIF, 'harness', 'cfg.c')])
    jobs = []
    for g in GROUPS:
        parts = {'token sequences': 16, 'scopes and includes': 8, 'hexadecimal with suffix': 1}.get(g, 4)
        jobs += [(g, ctx.thorough, p, parts, exe, ctx.tmp) for p in range(parts)]
    with ProcessPoolExecutor(8) as ex:
        for g, n, tr, res, rc, bad, last, err in ex.map(work, jobs):
            ctx.count(g, n, tr, res)
            for b in bad:
                ctx.violation('[%s] %s' % (g, b[4:]), {'program': b})
            if rc not in (0, 1):
                ctx.violation('[%s] the parser died (%s) on: %s\n%s' % (g, rc, last[:800], err), {'program': last, 'stderr': err})
