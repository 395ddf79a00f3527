"""C36: Lua scripts: faults stay in their request, state is per request, and the API does what the native configuration does"""
import itertools, os, re
from h import *

FAIL = 'fail'
# faulty (or border line) handler scripts: name -> (source, what a client may get: FAIL = no 2xx response, else the body)
FAULTY = {
    'syntax': ('this is not lua', FAIL),
    'rt': ('error("boom")', FAIL),
    'rttab': ('error({})', FAIL),
    'rtnil': ('local x = nil; x.y = 1', FAIL),
    'noact': ('local x = 1', FAIL),
    'badact': ('actions = 5', FAIL),
    'callerr': ('actions = function(vr) error("x") end', FAIL),
    'calltab': ('actions = function(vr) error({}) end', FAIL),
    'deep': ('local function f(n) return n > 0 and 1 + f(n + 1) or 0 end; actions = function(vr) f(1) end', FAIL),
    'ret': ('actions = function(vr) return 77 end', FAIL),
    'reterr': ('actions = function(vr) return lighty.HANDLER_ERROR end', FAIL),
    'dot': ('actions = function(vr) vr.handle_direct() end', FAIL),
    'dot2': ('actions = function(vr) vr.print("x") end', FAIL),
    'dot3': ('actions = function(vr) vr.debug("x") end', FAIL),
    'dot4': ('actions = function(vr) vr.warning() end', FAIL),
    'dot5': ('actions = function(vr) vr.info("x", "y") end', FAIL),
    'dot6': ('actions = function(vr) vr.stat("x") end', FAIL),
    'dotf': ('actions = function(vr) vr.add_filter_out({}) end', FAIL),
    'dotf2': ('actions = function(vr) vr.add_filter_out(1, {}) end', FAIL),
    'dotf3': ('actions = function(vr) vr.add_filter_in(1, {}) end', FAIL),
    'filnil': ('actions = lighty.filter_out(nil)', FAIL),
    'fil5': ('actions = action.list(lighty.filter_out(5), action.respond("aa"))', FAIL),
    'filb': ('actions = action.list(lighty.filter_out({}), action.respond("aa"))', FAIL),
    'filnew': ('actions = action.list(lighty.filter_out({ new = function(self, vr) error("x") end }), action.respond("aa"))', FAIL),
    'filnew5': ('actions = action.list(lighty.filter_out({ new = function(self, vr) return 5 end }), action.respond("aa"))', FAIL),
    'filnewn': ('actions = action.list(lighty.filter_out({ new = function(self, vr) return nil end }), action.respond("aa"))', b'aa'),
    'filhand': ('actions = action.list(lighty.filter_out({ new = function(self, vr) return {} end }), action.respond("aa"))', FAIL),
    'filherr': ('actions = action.list(lighty.filter_out({ new = function(self, vr) return {handle=function() error("x") end} end }), action.respond("aa"))', FAIL),
    'filh77': ('actions = action.list(lighty.filter_out({ new = function(self, vr) return {handle=function() return 77 end} end }), action.respond("aa"))', FAIL),
    'filfin': ('actions = action.list(lighty.filter_out({ new = function(self, vr) return {handle=function(self,vr,o,i) o:steal_all(i); o.is_closed = i.is_closed end, finished=function() error("x") end} end }), action.respond("aa"))', b'aa'),
    'fildot': ('actions = action.list(lighty.filter_out({ new = function(self, vr) return {handle=function(self,vr,o,i) i.skip_all() o.steal_all(nil, i) o.reset() end} end }), action.respond("aa"))', None),
    'addf5': ('actions = function(vr) vr:add_filter_out(5); vr:handle_direct(); vr.resp.status = 200; vr.out:add("x") end', FAIL),
    'addfnil': ('actions = function(vr) vr:add_filter_out(nil); vr:handle_direct(); vr.resp.status = 200; vr.out:add("x") end', FAIL),
    'addfe': ('actions = function(vr) vr:add_filter_out({ handle = function() error("x") end }); vr:handle_direct(); vr.resp.status = 200; vr.out:add("x") end', FAIL),
    'addok': ('actions = function(vr) vr:add_filter_out({ handle = function(self, vr, o, i) o:steal_all(i); o.is_closed = i.is_closed end }); vr:handle_direct(); vr.resp.status = 200; vr.out:add("x") end', b'x'),
    'addin': ('actions = function(vr) vr:add_filter_in({ handle = function(self, vr, o, i) o:steal_all(i); o.is_closed = i.is_closed end }); vr:handle_direct(); vr.resp.status = 200; vr.out:add("x") end', b'x'),
    'enter': ('actions = function(vr) vr:enter_action(nil) end', FAIL),
    'enter2': ('actions = function(vr) vr:enter_action(5) end', FAIL),
    'condbad': ('actions = action.when(request.path.eq("/x"), action.respond("x"))', FAIL),
    'condbad2': ('actions = action.when(physical.exists.is(), action.respond("x"))', FAIL),
    'condre': ('actions = action.when(request.path:match("("), action.respond("x"))', FAIL),
    'condip': ('actions = action.when(request.remoteip:ip("300.1.1.1/99"), action.respond("x"))', FAIL),
    'condip2': ('pcall(function() return request.remoteip:ip("nonsense") end); actions = action.when(request.remoteip:ip("10.0.0.0/8"), action.respond("x"))', b'x'),
    'condgt': ('actions = action.when(request.length:gt("5"), action.respond("x"))', FAIL),
    'cqdot': ('actions = function(vr) vr:handle_direct(); vr.resp.status = 200; vr.out.reset(); vr.out.skip_all(); vr.out.steal_all(1, vr.out); vr.out.add(1, 2); vr.out.add_file(1, "/x"); vr.out:add("y") end', b'y'),
    'cqself': ('actions = function(vr) vr:handle_direct(); vr.resp.status = 200; vr.out:steal_all(5) end', FAIL),
    'cqown': ('actions = function(vr) vr:handle_direct(); vr.resp.status = 200; vr.out:add("ab"); vr.out:steal_all(vr.out); vr.out:add("c") end', b'abc'),
    'deepval': ('local t = {1}; for i = 1, 300 do t = {t} end; actions = action.my.good(t)', FAIL),
    'selfval': ('local t = {}; t[1] = t; actions = action.list(t)', None),
    'cqtab': ('actions = function(vr) vr:handle_direct(); vr.resp.status = 200; vr.out:add({}) end', FAIL),
    'cqf': ('actions = function(vr) vr:handle_direct(); vr.resp.status = 200; vr.out:add_file("/nonex") end', FAIL),
    'cqfdir': ('actions = function(vr) vr:handle_direct(); vr.resp.status = 200; vr.out:add_file("/") end', FAIL),
    'status': ('actions = function(vr) vr:handle_direct(); vr.resp.status = 5 end', FAIL),
    'statusx': ('actions = function(vr) vr:handle_direct(); vr.resp.status = "x" end', FAIL),
    'wrro': ('actions = function(vr) vr.req = 5 end', FAIL),
    'rdno': ('actions = function(vr) return vr.nothing end', FAIL),
    'early': ('actions = function(vr) local o = vr.out; local i = vr["in"]; if o == nil then vr:handle_direct(); vr.resp.status = 200; vr.out:add("n") end end', b'n'),
    'noaction': ('actions = action.no_such_action("x")', FAIL),
    'weird': ('actions = action.respond({a = function() end, 1, 2})', FAIL),
    'setup': ('setup.listen("127.0.0.1:81")', FAIL),
    'hdrs': ('actions = function(vr) vr.req.headers.get("x"); vr.req.headers:set(nil, nil); vr.req.headers["A"] = {}; vr.env[nil] = "x"; vr:handle_direct(); vr.resp.status = 200; vr.out:add("h") end', None),
    'hpairs': ('actions = function(vr) vr.req.headers.pairs() end', FAIL),
    'epairs': ('actions = function(vr) vr.env.pairs() end', FAIL),
    'phys': ('actions = function(vr) vr.phys.path = nil end', FAIL),
    'gc': ('actions = function(vr) for i = 1, 50 do local a = vr.req.headers; local b = vr.env; local c = vr.phys end; collectgarbage(); vr:handle_direct(); vr.resp.status = 200; vr.out:add("g") end', b'g'),
    'md5nil': ('actions = function(vr) local a, b, c = lighty.md5(nil), lighty.sha1({}), lighty.path_simplify(); vr:handle_direct(); vr.resp.status = 200; vr.out:add("m") end', None),
    'coro': ('actions = function(vr) coroutine.yield() end', FAIL),
}

GOOD = {
    'g1': ('local n = 0; actions = function(vr) n = n + 1; mine = (mine or 0) + 1; vr:debug("x", n); vr:handle_direct(); vr.resp.status = 200; vr.out:add("g1:" .. mine) end', b'g1:1'),
    'g2': ('actions = action.list(lighty.filter_out({ new = function(self, vr) return {handle = function(self, vr, o, i) o:steal_all(i); if i.is_closed and not o.is_closed then o:add("+"); o.is_closed = true end end} end }), action.respond("g2"))', b'g2+'),
    'g3': ('actions = function(vr) vr:add_filter_out({handle = function(self, vr, o, i) seen = (seen or 0) + 1; o:steal_all(i); if i.is_closed and not o.is_closed then o:add("+" .. tostring(REQ.x)); o.is_closed = true end end}); REQ.x = "r"; vr:handle_direct(); vr.resp.status = 200; vr.out:add("g3") end', b'g3+r'),
    'g4': ('local filename, args = ...; actions = action.when(request.path:prefix("/g"), function(vr) vr:handle_direct(); vr.resp.status = 200; vr.out:add("g4") end, action.respond("no"))', b'g4'),
}


def put(wd, scripts):
    d = os.path.join(wd, 'lua')
    os.makedirs(d, exist_ok=True)
    for k, v in scripts.items():
        with open(os.path.join(d, k + '.lua'), 'w') as f:
            f.write(v)
    return d


PLUGIN = '''
local filename, args = ...
actions = {
 ["my.good"] = function(a) return function(vr) cnt = (cnt or 0) + 1; lighty.debug("p"); vr:handle_direct(); vr.resp.status = 200; vr.out:add("p" .. a .. cnt) end end,
 ["my.err"] = function() return function(vr) error("plugin") end end,
 ["my.wrap"] = function(a) return lighty.filter_out({ new = function(self, vr) return {handle = function(self, vr, o, i) o:steal_all(i); if i.is_closed and not o.is_closed then o:add(a); o.is_closed = true end end} end }) end,
}
'''


def faulty_cfg(wd):
    s = dict((k, v[0]) for k, v in list(FAULTY.items()) + list(GOOD.items()))
    d = put(wd, s)
    put(wd, {'plugin': PLUGIN})
    b = ''
    for k in s:
        b += 'if req.path == "/%s" { lua.handler "%s/%s.lua"; }\n' % (k, d, k)
    b += 'if req.path == "/p1" { my.good "a"; }\nif req.path == "/perr" { my.err; }\nif req.path == "/p2" { my.wrap "!"; respond "p2"; }\n'
    b += 'if req.path == "/ok" { respond "ok"; }\n'
    return conf(b, ['mod_lua'], setup='lua.plugin "%s/plugin.lua";' % d)


WANT = dict((k, v[1]) for k, v in FAULTY.items())
WANT.update((k, v[1]) for k, v in GOOD.items())
WANT.update({'p1': b'pa1', 'perr': FAIL, 'p2': b'p2!', 'ok': b'ok'})
PROBE = ['g1', 'g2', 'g3', 'g4', 'p1', 'p2', 'ok']


def one(k, data, eof):
    w = WANT[k]
    if w is None:
        return None
    try:
        rs, left = parse_responses(data, eof, ['GET'])
    except Bad as e:
        if w is FAIL and not data.startswith(b'HTTP/1.1 2'):
            return None
        return '/%s: unparsable answer: %s: %s' % (k, e, short(data))
    if w is FAIL:
        if rs and 200 <= rs[0].status < 300 and rs[0].complete:
            return '/%s: a script that failed answered %d %s' % (k, rs[0].status, short(rs[0].body))
        return None
    if len(rs) != 1 or rs[0].status != 200 or rs[0].body != w or not rs[0].complete:
        return '/%s: expected %r, got %s' % (k, w, short(data, 300))
    return None


def faulty_script(seq):
    sc = Script()
    for i, k in enumerate(seq):
        sc.connect(i, port=40000 + i).send(i, req('GET', '/' + k)).q().drain(i).q().drain(i)
    return sc.reset()


def faulty_judge(seq, r):
    if r.leak != [0]:
        return '%r sockets stay open' % r.leak
    for i, k in enumerate(seq):
        e = one(k, r.data.get(i, b''), r.eof.get(i))
        if e:
            return 'after %s: %s' % (', '.join('/' + x for x in seq[:i]) or 'nothing', e)
    return None


# ---------------------------------------------------------------- long histories
LONG = ['g1', 'g2', 'g3', 'g4', 'p1', 'p2', 'syntax', 'rt', 'rttab', 'noact', 'callerr', 'dot', 'fil5', 'filnew', 'filhand', 'filherr', 'filfin', 'addf5', 'addfe', 'addok', 'addin', 'condip', 'condre', 'perr', 'cqf', 'ret']


def long_drive(sim, key, wd):
    k, total = key
    n = 0
    while n < total:
        sc = Script()
        m = 50
        if WANT[k] is FAIL:
            for i in range(m):
                sc.connect(i, port=40000 + i).send(i, req('GET', '/' + k))
            sc.q()
            for i in range(m):
                sc.drain(i)
        else:
            sc.connect(0)
            for i in range(m):
                sc.send(0, req('GET', '/' + k))
            for i in range(4):
                sc.q().drain(0)
        sc.connect(60, port=39999).send(60, req('GET', '/g1')).q().drain(60)
        try:
            r = sim.run(sc.reset())
        except SimDied as e:
            return 'the server is gone after %d to %d requests for /%s: %s' % (n, n + m, k, e), None
        e = one('g1', r.data.get(60, b''), r.eof.get(60))
        if e:
            return 'after %d requests for /%s: %s' % (n + m, k, e), None
        if WANT[k] is FAIL:
            for i in range(m):
                e = one(k, r.data.get(i, b''), r.eof.get(i))
                if e:
                    return 'request %d: %s' % (n + i, e), None
        else:
            rs, left = parse_responses(r.data.get(0, b''), r.eof.get(0), ['GET'] * m)
            if len(rs) != m or left:
                return 'requests %d..: %d answers instead of %d' % (n, len(rs), m), None
            for x in rs:
                if x.status != 200 or x.body != WANT[k]:
                    return 'requests %d..: /%s answered %d %s' % (n, k, x.status, short(x.body)), None
        if r.leak != [0]:
            return '%r sockets stay open' % r.leak, None
        n += m
    return None, (k, total)


# ---------------------------------------------------------------- state of concurrent requests
ISO = {
    'h1': '''
actions = function(vr)
 local id = vr.req.headers["X-Id"]
 if who == nil then who = id; runs = 0; REQ.who = id end
 runs = runs + 1
 if who ~= id or REQ.who ~= id then vr.env["BAD"] = "h1:" .. who .. REQ.who .. id end
 local st, res = vr:stat("%(t)s/f" .. id)
 if res == lighty.HANDLER_WAIT_FOR_EVENT then return res end
 vr.env["R1"] = who .. (st and st.size or "-")
end
''',
    'h2': '''
local Filter = {}
Filter.__index = Filter
function Filter:new(vr) local o = { id = vr.req.headers["X-Id"] }; setmetatable(o, self); mark = o.id; return o end
function Filter:handle(vr, o, i)
 o:steal_all(i)
 if i.is_closed and not o.is_closed then o:add("|" .. self.id .. tostring(mark) .. tostring(REQ.who)); o.is_closed = true end
end
local wait = function(vr)
 local id = vr.req.headers["X-Id"]
 if who ~= nil and who ~= "2" .. id then vr.env["BAD"] = "h2:" .. who end
 who = "2" .. id
 local st, res = vr:stat("%(t)s/g" .. id)
 if res == lighty.HANDLER_WAIT_FOR_EVENT then return res end
 vr.env["R2"] = who .. REQ.who .. (st and st.size or "-")
end
actions = action.list(wait, lighty.filter_out(Filter))
''',
}
SIZES = {'f1': 1, 'f2': 2, 'f3': 3, 'g1': 4, 'g2': 5, 'g3': 6}


def iso_cfg(server):
    def c(wd):
        t = os.path.join(wd, 't')
        os.makedirs(t, exist_ok=True)
        for k, v in SIZES.items():
            with open(os.path.join(t, k), 'w') as f:
                f.write('x' * v)
        d = put(wd, dict((k, v % {'t': t}) for k, v in ISO.items()))
        load = 'include_lua "%s/%s.lua";' if server else 'lua.handler "%s/%s.lua";'
        return conf('%s\n%s\nrespond "%%{req.environment[R1]}|%%{req.environment[R2]}|%%{req.environment[BAD]}";' % (load % (d, 'h1'), load % (d, 'h2')), ['mod_lua'], threads=2)
    return c


def iso_script(h):
    sc = Script()
    n = 0
    for c in h:
        if c in '123':
            n += 1
            sc.connect(int(c), port=40000 + int(c)).send(int(c), req('GET', '/', [('X-Id', c)])).q()
        elif c in 'abcd':
            sc.task('abcd'.index(c)).q()
        elif c in 'xyz':
            sc.close('xyz'.index(c) + 1).q()
    for i in range(6):
        sc.task(255).q()
    for c in '123':
        if c in h:
            sc.drain(int(c))
    return sc.reset(11.5)


def iso_judge(h, r):
    for c in '123':
        if c not in h or 'xyz'[int(c) - 1] in h:
            continue
        want = ('%s%d|2%s%s%d||%s%s%s' % (c, SIZES['f' + c], c, c, SIZES['g' + c], c, c, c)).encode()
        d = r.data.get(int(c), b'')
        try:
            rs, left = parse_responses(d, r.eof.get(int(c)), ['GET'])
        except Bad as e:
            return 'request %s: %s: %s' % (c, e, short(d))
        if len(rs) != 1 or rs[0].status != 200 or rs[0].body != want:
            return 'request %s: expected %r, got %s' % (c, want, short(d, 300))
    if r.leak != [0]:
        return '%r sockets stay open' % r.leak
    return None


def iso_cases(n, tasks):
    """requests in order, each task index, one abort; every order"""
    def gen():
        ids = '123'[:n]
        for perm in itertools.product('abcd'[:3], repeat=tasks):
            ev = list(perm)
            for pos in itertools.combinations(range(n + tasks), n):
                h, i, j = '', 0, 0
                for p in range(n + tasks):
                    if p in pos:
                        h += ids[i]; i += 1
                    else:
                        h += ev[j]; j += 1
                yield h, iso_script(h)
                for k in range(n):
                    at = h.index(ids[k]) + 1
                    for p in range(at, len(h) + 1):
                        g = h[:p] + 'xyz'[k] + h[p:]
                        yield g, iso_script(g)
    return gen


# ---------------------------------------------------------------- state over successive requests
KEEP = '''
actions = function(vr)
 local op = vr.req.headers["X-Op"]:sub(%d, %d)
 if op == "-" then return end
 vr.env["R"] = (vr.env["R"] or "") .. "%s:" .. tostring(X) .. "," .. tostring(REQ.x) .. "," .. tostring(REQ.y) .. ";"
 if op == "s" then X = vr.req.headers["X-Id"]; REQ.x = "%s" .. X; REQ.y = (REQ.y or "") .. X end
end
'''
KEEPN = ('wa', 'sa', 'wb', 'sb')     # w: lua.handler (state of the worker), s: include_lua (state of the server)


def keep_cfg(wd):
    d = put(wd, dict((n, KEEP % (i + 1, i + 1, n, n)) for i, n in enumerate(KEEPN)))
    return conf('\n'.join(('lua.handler "%s/%s.lua";' if n[0] == 'w' else 'include_lua "%s/%s.lua";') % (d, n) for n in KEEPN) + '\nrespond "%{req.environment[R]}";', ['mod_lua'])


def keep_want(ops, id):
    o, r = '', {}
    for n, op in zip(KEEPN, ops):
        if op == '-':
            continue
        x, y = r.get(n[0], ('nil', 'nil'))
        o += '%s:nil,%s,%s;' % (n, x, y)
        if op == 's':
            r[n[0]] = (n + id, ('' if y == 'nil' else y) + id)
    return o.encode()


def keep_cases(th):
    def gen():
        allops = [''.join(o) for o in itertools.product('-gs', repeat=4)]
        later = [o for o in allops if '-' not in o] + ['----'] if not th else allops
        for a in allops:
            for b in later:
                for how in ('keep', 'pipe', 'new', 'both'):
                    yield (how, a, b), keep_script((how, a, b))
        if th:
            for t in itertools.product([o for o in allops if '-' not in o], repeat=3):
                yield ('keep',) + t, keep_script(('keep',) + t)
    return gen


def keep_script(k):
    how, seq = k[0], k[1:]
    rq = [req('GET', '/', [('X-Id', str(i + 1)), ('X-Op', o)]) for i, o in enumerate(seq)]
    sc = Script().connect(0)
    if how == 'pipe':
        sc.send(0, b''.join(rq)).q()
    elif how == 'both':
        sc.connect(1, port=40001).q()
        for i, r in enumerate(rq):
            sc.send(i, r)
        sc.q().drain(1)
    else:
        for i, r in enumerate(rq):
            if how == 'new' and i:
                sc.connect(i, port=40000 + i)
            sc.send(i if how == 'new' else 0, r).q().drain(i if how == 'new' else 0)
            if how == 'new':
                sc.close(i).q()
    return sc.drain(0).q().reset(11.5)


def keep_judge(k, r):
    how, seq = k[0], k[1:]
    got = []
    for c in range(len(seq) if how in ('new', 'both') else 1):
        d = r.data.get(c, b'')
        try:
            got += parse_responses(d, r.eof.get(c), ['GET'] * len(seq))[0]
        except Bad as e:
            return '%s: %s' % (e, short(d))
    if len(got) != len(seq):
        return '%d answers to %d requests' % (len(got), len(seq))
    for i, x in enumerate(got):
        want = keep_want(seq[i], str(i + 1))
        if x.status != 200 or x.body != want:
            return 'request %d: handlers see %s instead of %s' % (i + 1, short(x.body), short(want))
    return None


# ---------------------------------------------------------------- conditions
OPS = [('==', 'eq'), ('!=', 'ne'), ('=^', 'prefix'), ('!^', 'notprefix'), ('=$', 'suffix'), ('!$', 'notsuffix'), ('=~', 'match'), ('!~', 'nomatch')]
IPOPS = [('=/', 'ip'), ('!/', 'notip')]
NUM = [('==', 'eq'), ('!=', 'ne'), ('<', 'lt'), ('<=', 'le'), ('>', 'gt'), ('>=', 'ge')]


def conds():
    out = []
    for lv, vals in [('request.path', ['/a', '/a/b', '/', 'a', '^/a$', '']), ('request.host', ['h', 'hh', 'x.h']), ('request.query', ['', 'q=1', 'q']),
                     ('request.method', ['GET', 'POST', 'G']), ('request.scheme', ['http', 'https']), ('request.raw_path', ['/a?q=1', '/%61', '/a']),
                     ('request.header["X-A"]', ['1', '12', '']), ('request.header["x-a"]', ['1']), ('request.environment["E"]', ['e', '']), ('request.environment["N"]', ['e', '']),
                     ('physical.path', ['/doc/a', '/doc']), ('physical.docroot', ['/doc', '/doc/']), ('physical.pathinfo', ['']), ('request.remoteip', ['10.0.0.1', '10.']), ('request.localip', ['127.0.0.1'])]:
        for v in vals:
            for o, l in OPS:
                out.append(('%s %s "%s"' % (lv, o, v), '%s:%s(%s)' % (lv, l, '"%s"' % v)))
    for lv in ('request.remoteip', 'request.localip'):
        for v in ('10.0.0.1', '10.0.0.0/8', '10.0.0.2/31', '127.0.0.0/8', '::1', '0.0.0.0/0'):
            for o, l in IPOPS:
                out.append(('%s %s "%s"' % (lv, o, v), '%s:%s("%s")' % (lv, l, v)))
    for lv, vals in (('request.length', (0, 1, 3, 4, -1)), ('request.localport', (80, 81)), ('request.remoteport', (40000, 40001)), ('physical.size', (0, 4, 5))):
        for v in vals:
            for o, l in NUM:
                out.append(('%s %s %d' % (lv, o, v), '%s:%s(%d)' % (lv, l, v)))
    for lv in ('physical.exists', 'physical.is_file', 'physical.is_dir', 'request.is_handled'):
        out.append((lv, lv + ':is()'))
        out.append(('!' + lv, lv + ':isnot()'))
    return out


def usable(c):
    """the native configuration refuses a negative number literal"""
    return ' -' not in c[0]


def cond_cfg(kind):
    def c(wd):
        doc = os.path.join(wd, 'doc')
        os.makedirs(doc + '/a', exist_ok=True)
        with open(doc + '/f', 'w') as f:
            f.write('12345')
        cs = [x for x in conds() if usable(x)]
        cs = [(a.replace('"/doc', '"' + doc), b.replace('"/doc', '"' + doc)) for a, b in cs]
        b = 'docroot "%s"; env.set "E" => "e";\n' % doc
        lua = ''
        for i, (n, l) in enumerate(cs):
            b += 'if %s { header.append "X-N" => "%d"; }\n' % (n, i)
            lua += ' action.when(%s, action.header.append("X-L", "%d")),\n' % (l, i)
        # a table constructor instead of arguments: more than 255 entries
        src = 'local l = {\n%s}\nlocal acts = {}\nfor i = 1, #l, 40 do local part = {}; for j = i, math.min(i + 39, #l) do part[#part + 1] = l[j] end; acts[#acts + 1] = action.list(unpack(part)) end\nactions = action.list(unpack(acts))\n' % lua
        d = put(wd, {'cond': src})
        b += ('include_lua "%s/cond.lua";' if kind == 'include_lua' else 'lua.handler "%s/cond.lua";') % d
        return conf(b + '\nrespond "x";', ['mod_lua'])
    return c


def cond_reqs():
    for path in ('/', '/a', '/a/b', '/f', '/%61', '/a?q=1', '/f?', '/nope?q'):
        for host in ('h', 'hh', 'x.h'):
            for m, hd, body in (('GET', [], b''), ('POST', [('Content-Length', '3')], b'abc'), ('POST', [('Content-Length', '0')], b''), ('HEAD', [], b'')):
                for xa in (None, '1', '12', '-1'):
                    for peer, port in (('10.0.0.1', 40000), ('10.0.0.3', 40001), ('127.0.0.1', 40000)):
                        yield (path, host, m, hd + ([('X-A', xa)] if xa else []), body, peer, port)


def cond_cases():
    for k in cond_reqs():
        path, host, m, hd, body, peer, port = k
        yield k, Script().connect(0, peer=peer, port=port).send(0, req(m, path, hd, body, host=host)).q().drain(0).q().drain(0).reset()


def cond_judge(k, r):
    d = r.data.get(0, b'')
    try:
        rs, left = parse_responses(d, r.eof.get(0), [k[2]])
    except Bad as e:
        return '%s: %s' % (e, short(d))
    if len(rs) != 1 or rs[0].status != 200:
        return 'got %s' % short(d)
    n = [x.strip() for x in (rs[0].one('X-N') or '').split(',')]
    l = [x.strip() for x in (rs[0].one('X-L') or '').split(',')]
    if len(n) < 20:
        return 'only %d native conditions were true: %s' % (len(n), short(d, 300))
    if n != l:
        cs = [x for x in conds() if usable(x)]
        x = sorted(set(n) ^ set(l), key=lambda v: int(v or 0))
        return 'condition %s is %s as native and %s as Lua condition' % (cs[int(x[0] or 0)][1], x[0] in n, x[0] in l)
    return None


# ---------------------------------------------------------------- headers and environment
HOPS = '''
actions = function(vr)
 local h = vr.req.headers["X-Where"] == "env" and vr.env or vr.resp.headers
 local env = vr.req.headers["X-Where"] == "env"
 for op, k, v in vr.req.headers["X-Ops"]:gmatch("(%w+)%.(%w+)%.(%w*)") do
  if op == "set" then h:set(k, v)
  elseif op == "assign" then h[k] = v
  elseif op == "nil" then h[k] = nil
  elseif op == "append" then h:append(k, v)
  elseif op == "insert" then h:insert(k, v)
  elseif op == "unset" then h:unset(k)
  elseif op == "weak" then h:weak_set(k, v)
  elseif op == "clear" then h:clear()
  else error("op " .. op) end
 end
 local out = ""
 for _, k in ipairs({"KA", "ka", "KB", "KC"}) do
  out = out .. "[" .. tostring(h:get(k)) .. "]" .. "[" .. tostring(h[k]) .. "]"
  if not env then for a, b in h:list(k) do out = out .. a .. "=" .. b .. ";" end end
 end
 out = out .. "|"
 local all = {}
 for a, b in h:pairs() do all[#all + 1] = a .. "=" .. b .. ";" end
 if env then table.sort(all) end
 out = out .. table.concat(all)
 vr:handle_direct()
 vr.resp.status = 200
 vr.out:add(out)
end
'''


def hops_want(where, ops):
    if where == 'env':
        e = {}
        for op, k, v in ops:
            if op in ('set', 'assign'):
                e[k] = v
            elif op in ('nil', 'unset'):
                e.pop(k, None)
            elif op == 'weak':
                e.setdefault(k, v)
            elif op == 'clear':
                e.clear()
        out = ''
        for k in ('KA', 'ka', 'KB', 'KC'):
            out += '[%s][%s]' % (e.get(k, 'nil'), e.get(k, 'nil'))
        return out + '|' + ''.join(sorted('%s=%s;' % x for x in e.items())), []
    h = []
    for op, k, v in ops:
        m = [i for i, x in enumerate(h) if x[0].lower() == k.lower()]
        if op in ('set', 'assign', 'nil', 'unset'):
            h = [x for x in h if x[0].lower() != k.lower()]
            if op in ('set', 'assign'):
                h.append((k, v))
        elif op == 'append' and m:
            h[m[-1]] = (h[m[-1]][0], h[m[-1]][1] + ', ' + v)
        elif op in ('append', 'insert'):
            h.append((k, v))
        elif op == 'clear':
            h = []
    out = ''
    for k in ('KA', 'ka', 'KB', 'KC'):
        v = ''
        for x in h:
            if x[0].lower() == k.lower():
                v += (', ' if v else '') + x[1]
        out += '[%s][%s]' % (v, v) + ''.join('%s=%s;' % x for x in h if x[0].lower() == k.lower())
    return out + '|' + ''.join('%s=%s;' % x for x in h), h


def hops_cases(th):
    hset = [(o, k, v) for o in ('set', 'append', 'insert') for k, v in (('KA', '1'), ('ka', '2'), ('KB', '3'), ('KA', ''))] + [('assign', 'KA', '4'), ('nil', 'ka', ''), ('unset', 'KA', ''), ('unset', 'KB', ''), ('clear', 'x', '')]
    eset = [(o, k, v) for o in ('set', 'weak') for k, v in (('KA', '1'), ('ka', '2'), ('KB', '3'), ('KA', ''))] + [('assign', 'KA', '4'), ('nil', 'ka', ''), ('unset', 'KA', ''), ('unset', 'KB', ''), ('clear', 'x', '')]

    def gen():
        for where, ops in (('resp', hset), ('env', eset)):
            for n in range(0, 5 if th else 4):
                for seq in itertools.product(ops, repeat=n):
                    if n == 4 and seq[0][0] in ('unset', 'nil', 'clear'):
                        continue
                    yield (where, seq), Script().connect(0).send(0, req('GET', '/', [('X-Where', where), ('X-Ops', ','.join('.'.join(o) for o in seq) or '-')])).q().drain(0).reset()
    return gen


def hops_judge(key, r):
    where, seq = key
    want, h = hops_want(where, seq)
    d = r.data.get(0, b'')
    try:
        rs, left = parse_responses(d, r.eof.get(0), ['GET'])
    except Bad as e:
        return '%s: %s' % (e, short(d))
    if len(rs) != 1 or rs[0].status != 200 or rs[0].body != want.encode():
        return 'expected %r, got %s' % (want, short(d, 400))
    got = [(k, v) for k, v in rs[0].headers if k.lower() in ('ka', 'kb')]
    if got != [(x[0], x[1].strip()) for x in h]:
        return 'response headers %r instead of %r' % (got, h)
    return None


# ---------------------------------------------------------------- files
def file_cfg(wd):
    t = os.path.join(wd, 't')
    os.makedirs(t, exist_ok=True)
    for n in (0, 1, 5):
        with open(os.path.join(t, str(n)), 'w') as f:
            f.write('ABCDE'[:n])
    d = put(wd, {'file': '''
actions = function(vr)
 vr:handle_direct()
 vr.resp.status = 200
 vr.out:add("<")
 local a = {}
 for w in vr.req.headers["X-A"]:gmatch("[-%%d]+") do a[#a + 1] = tonumber(w) end
 local n = a[1]
 local ok
 if #a == 1 then ok = pcall(vr.out.add_file, vr.out, "%(t)s/" .. n)
 elseif #a == 2 then ok = pcall(vr.out.add_file, vr.out, "%(t)s/" .. n, a[2])
 else ok = pcall(vr.out.add_file, vr.out, "%(t)s/" .. n, a[2], a[3]) end
 if not ok then vr.out:add("E") end
 vr.out:add(">")
end
''' % {'t': t}})
    return conf('lua.handler "%s/file.lua";' % d, ['mod_lua'])


def file_cases():
    for n in (0, 1, 5):
        yield (n,), n
        for a in range(-1, n + 3):
            yield (n, a), n
            for b in range(-1, n + 3):
                yield (n, a, b), n


def file_gen():
    for k, n in file_cases():
        yield k, Script().connect(0).send(0, req('GET', '/', [('X-A', ' '.join(map(str, k)))])).q().drain(0).info(0).reset()


def file_judge(k, r):
    n = k[0]
    s = k[1] if len(k) > 1 else 0
    l = k[2] if len(k) > 2 else n - s
    ok = 0 <= s <= n and 0 <= l <= n - s
    want = ('<' + ('ABCDE'[:n][s:s + l] if ok else 'E') + '>').encode()
    d = r.data.get(0, b'')
    rs, left = parse_responses(d, r.eof.get(0), ['GET'])
    if len(rs) != 1 or rs[0].body != want:
        return 'file of %d bytes, add_file%r: expected %r, got %s' % (n, k[1:], want, short(d))
    return None


# ---------------------------------------------------------------- filters and body schedules
FILT = {
    'pass': 'o:steal_all(i); o.is_closed = i.is_closed',
    'wrap': 'if not self.s then self.s = true; o:add("<") end; o:steal_all(i); if i.is_closed and not o.is_closed then o:add(">"); o.is_closed = true end',
    'drop': 'i:skip_all(); if i.is_closed and not o.is_closed then o:add("gone"); o.is_closed = true end',
    'early': 'i:skip_all(); if not o.is_closed then o:add("early"); o.is_closed = true end; i.is_closed = true',
    'count': 'if not i.is_closed then return lighty.HANDLER_WAIT_FOR_EVENT end; if not o.is_closed then o:add("["); o:steal_all(i); o:add("]"); o.is_closed = true end',
}
FWANT = {
    'pass': lambda b: b, 'wrap': lambda b: b'<' + b + b'>', 'drop': lambda b: b'gone', 'early': lambda b: b'early', 'count': lambda b: b'[' + b + b']',
}


def filt_cfg(wd):
    s = {}
    b = ''
    for k, v in FILT.items():
        for w in ('in', 'out'):
            s['%s_%s' % (w, k)] = '''
local F = {}
F.__index = F
function F:new(vr) if _G.new == nil then _G.new = 0; _G.fin = 0 end; _G.new = _G.new + 1; local o = {}; setmetatable(o, self); return o end
function F:handle(vr, o, i) if i == nil then o.is_closed = true; return lighty.HANDLER_GO_ON end; %s end
function F:finished() _G.fin = _G.fin + 1 end
actions = lighty.filter_%s(F)
''' % (v, w)
    s['state'] = 'actions = function(vr) vr:handle_direct(); vr.resp.status = 200; vr.out:add((_G.new or 0) .. "/" .. (_G.fin or 0)) end'
    d = put(wd, s)
    b += 'if req.path == "/state" { lua.handler "%s/state.lua"; } else {\n' % d
    for k in FILT:
        for w in ('in', 'out'):
            b += ' if req.header["X-%s"] == "%s" { lua.handler "%s/%s_%s.lua"; }\n' % (w, k, d, w, k)
    b += ' if req.path == "/p" { proxy "unix:/p"; } else { respond "%s"; }\n}' % BODY.decode()
    return conf(b, ['mod_lua', 'mod_proxy'])


BODY = b'abcdefg'


def cuts(b, n):
    for k in range(0, n):
        for pos in itertools.combinations(range(1, len(b)), k):
            p = (0,) + pos + (len(b),)
            yield [b[p[i]:p[i + 1]] for i in range(len(p) - 1)]


def filt_cases(th):
    def gen():
        for fo in [None] + list(FILT):
            yield ('local', fo, None, None, None, None)
            for framing in ('cl', 'chunked', 'close'):
                for parts in cuts(BODY, 4 if th else 3):
                    yield ('resp', fo, framing, tuple(parts), None, None)
                    if fo and len(parts) > 1:
                        for at in range(len(parts)):
                            yield ('resp', fo, framing, tuple(parts), 'abort', at)
        for fi in FILT:
            if fi == 'early':
                continue
            for framing in ('cl', 'chunked'):
                for parts in cuts(BODY, 4 if th else 3):
                    yield ('req', fi, framing, tuple(parts), None, None)
                    if len(parts) > 1:
                        for at in range(len(parts)):
                            yield ('req', fi, framing, tuple(parts), 'abort', at)
        for fi in ('pass', 'wrap', 'count'):
            for fo in FILT:
                for parts in cuts(BODY, 2):
                    yield ('both', (fi, fo), 'cl', tuple(parts), None, None)
    def scripts():
        for k in gen():
            yield k, filt_script(k)
    return scripts


def filt_script(key):
    kind, f, framing, parts, ab, at = key
    sc = Script().connect(0)
    if kind == 'local':
        sc.send(0, req('GET', '/l', [('X-out', f)] if f else [])).q().drain(0)
    elif kind == 'resp':
        sc.send(0, req('GET', '/p', [('X-out', f)] if f else [])).q().drain(64)
        h = b'HTTP/1.1 200 OK\r\n'
        h += {'cl': b'Content-Length: %d\r\n' % len(BODY), 'chunked': b'Transfer-Encoding: chunked\r\n', 'close': b''}[framing]
        sc.send(64, h + b'\r\n').q()
        for i, p in enumerate(parts):
            if ab and i == at:
                sc.close(0).q()
            sc.send(64, b'%x\r\n%s\r\n' % (len(p), p) if framing == 'chunked' else p).q().drain(0)
        if framing == 'chunked':
            sc.send(64, b'0\r\n\r\n').q()
        sc.close(64).q().drain(0)
    else:
        fi, fo = f if kind == 'both' else (f, None)
        hd = [('X-in', fi)] + ([('X-out', fo)] if fo else [])
        sc.send(0, req('POST', '/p', hd + [('Content-Length', str(len(BODY)))] if framing == 'cl' else hd + [('Transfer-Encoding', 'chunked')])).q()
        for i, p in enumerate(parts):
            if ab and i == at:
                sc.close(0).q()
                break
            sc.send(0, p if framing == 'cl' else b'%x\r\n%s\r\n' % (len(p), p)).q().drain(64)
        else:
            if framing == 'chunked':
                sc.send(0, b'0\r\n\r\n').q()
            sc.drain(64).send(64, b'HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nxyz').q().drain(0).close(64).q().drain(0)
    if ab:
        sc.close(64).q()
    sc.connect(1, port=40001).send(1, req('GET', '/state', [('Connection', 'close')])).q().drain(1)
    return sc.reset()


def dechunk(h, b):
    if b'chunked' not in h.lower():
        return b
    o = b''
    while b:
        n, c, rest = b.partition(b'\r\n')
        n = int(n, 16)
        o += rest[:n]
        b = rest[n + 2:]
        if n == 0:
            break
    return o


def filt_judge(key, r):
    kind, f, framing, parts, ab, at = key
    if r.leak != [0]:
        return '%r sockets stay open' % r.leak
    st = r.data.get(1, b'').partition(b'\r\n\r\n')[2]
    m = re.match(rb'^(\d+)/(\d+)$', st)
    if not m:
        return 'state page: %s' % short(r.data.get(1, b''))
    if m.group(1) != m.group(2):
        return '%s filters were created, but %s finished although no request is left' % (m.group(1).decode(), m.group(2).decode())
    if ab:
        return None
    fi, fo = f if kind == 'both' else (f, None) if kind == 'req' else (None, f)
    if kind in ('req', 'both'):
        d = r.data.get(64, b'')
        h, s, b = d.partition(b'\r\n\r\n')
        try:
            got = dechunk(h, b)
        except ValueError:
            return 'the backend got a broken body: %s' % short(d, 300)
        if got != FWANT[fi](BODY):
            return 'in filter %s: the backend got the body %r instead of %r' % (fi, got, FWANT[fi](BODY))
    want = BODY if kind in ('local', 'resp') else b'xyz'
    if fo:
        want = FWANT[fo](want)
    d = r.data.get(0, b'')
    try:
        rs, left = parse_responses(d, r.eof.get(0), ['GET'])
    except Bad as e:
        return 'broken response: %s: %s' % (e, short(d))
    if len(rs) != 1 or rs[0].status != 200 or rs[0].body != want or not rs[0].complete:
        return 'out filter %s: expected the body %r, got %s' % (fo, want, short(d, 300))
    return None


# ---------------------------------------------------------------- reloading
T0 = 1700000000


def ttl_cfg(wd):
    d = put(wd, {'v': 'actions = 1'})
    return conf('if req.path == "/v" { lua.handler "%s/v.lua", ["ttl" => 5]; }\nif req.path == "/w" { lua.handler "%s/w.lua"; }' % (d, d), ['mod_lua'])


def ttl_drive(sim, hist, wd):
    """hist over: r request, e edit (new version), b broken edit, s 1 s, l 4 s, L 20 s"""
    p = os.path.join(wd, 'lua', 'v.lua')
    t = sim.run(Script().now().reset()).time
    t = t[-1] if isinstance(t, (list, tuple)) else t
    v = 0

    def write(ok):
        with open(p + '.n', 'w') as f:
            f.write('actions = function(vr) vr:handle_direct(); vr.resp.status = 200; vr.out:add("v%d") end' % v if ok else 'broken(')
        os.utime(p + '.n', (int(t), int(t)))
        os.rename(p + '.n', p)
    # start: version 0, loaded for sure
    write(True)
    sim.run(Script().advance(40.0).reset())
    t += 40.0
    write(True)
    r = sim.run(Script().advance(40.0).connect(0).send(0, req('GET', '/v')).q().drain(0).now().reset())
    t += 40.0
    if not r.data.get(0, b'').endswith(b'v0'):
        return 'the first request got %s' % short(r.data.get(0, b'')), None
    vers = [(t - 40.0, 0, True)]
    for i, c in enumerate(hist):
        if c in 'eb':
            v += 1
            write(c == 'e')
            vers.append((t, v, c == 'e'))
        elif c in 'slL':
            dt = {'s': 1.0, 'l': 4.0, 'L': 20.0}[c]
            sim.run(Script().advance(dt).q().reset())
            t += dt
        else:
            r = sim.run(Script().connect(0).send(0, req('GET', '/v')).q().drain(0).reset())
            d = r.data.get(0, b'')
            got = d.partition(b'\r\n\r\n')[2]
            # every version that was the current one at some time in the last 17 s (ttl 5 s + stat cache 10 s + rounding) is allowed
            ok = set()
            for j, (tv, n, good) in enumerate(vers):
                end = vers[j + 1][0] if j + 1 < len(vers) else t + 1
                if end >= t - 17.0:
                    ok.add(b'v%d' % n if good else b'')
            if got not in ok:
                return 'step %d of %s: got %r, possible versions %r' % (i, hist, got or d, sorted(ok)), None
    return None, hist


def ttl_cases(th):
    def gen():
        for n in range(1, 7 if th else 6):
            for h in itertools.product('rebslL', repeat=n - 1):
                h = ''.join(h) + 'r'
                if not set(h) & set('eb') or not set(h) & set('slL') or re.search('ee|bb|eb|be|ss|rr', h):
                    continue
                yield h
    return gen


# ---------------------------------------------------------------- values
ECHO = '''
local function ser(v)
 if type(v) == "table" then local o = "(" for i = 1, #v do o = o .. ser(v[i]) .. ";" end return o .. ")" end
 return type(v):sub(1, 1) .. tostring(v)
end
actions = {
 ["my.echo"] = function(...)
  local o = ""
  for i = 1, select("#", ...) do o = o .. ser(select(i, ...)) .. "," end
  return function(vr) vr:handle_direct(); vr.resp.status = 200; vr.out:add(o) end
 end,
 ["my.keys"] = function(v)
  local s = ser(v.a) .. ser(v["b"]) .. ser(v["zz"]) .. ser(v[nil]) .. ser(v[1] ~= nil)
  return function(vr) vr:handle_direct(); vr.resp.status = 200; vr.out:add(s) end
 end,
}
'''


def ser(v):
    if isinstance(v, (tuple, list)):
        return '(' + ''.join(ser(x) + ';' for x in v) + ')'
    if isinstance(v, bool):
        return 'b' + ('true' if v else 'false')
    if isinstance(v, int):
        return 'n%d' % v
    if v is None:
        return 'nnil'
    return 's' + v


def lit(v, lua):
    if isinstance(v, tuple):
        return ('{%s}' if lua else '(%s,)') % ','.join(lit(x, lua) for x in v)
    if isinstance(v, bool):
        return 'true' if v else 'false'
    if isinstance(v, int):
        return str(v)
    return '"%s"' % v.replace('"', '\\"')


ATOMS = [True, False, 0, 7, 2147483648, '', 'a', 'x"y']


def values(th):
    out = list(ATOMS)
    flat = [t for n in (1, 2) for t in itertools.product(ATOMS, repeat=n)]
    out += flat
    out += [(a, b) for a in flat[:20] for b in ATOMS[:4]] + [(b, a) for a in flat[:20] for b in ATOMS[:4]] + [(a, b) for a in flat for b in (flat if th else flat[:6])]
    out += [((((a,),),),) for a in ATOMS]
    out += [tuple(range(n)) for n in (3, 19, 20, 21, 39, 40, 41, 100, 1000, 3900)]
    for n in (10, 19, 20, 39, 40, 100, 180):
        v = 1
        for i in range(n):
            v = (v,)
        out.append(v)
    return out


KEYS = ['a', 'b', None]


def kvs():
    for n in (1, 2, 3):
        for ks in itertools.product(KEYS, repeat=n):
            yield [(k, i + 1) for i, k in enumerate(ks)]


def values_cfg(th, lua):
    def c(wd):
        d = put(wd, {'echo': ECHO})
        b, src = '', 'local l = {}\n'
        for i, v in enumerate(values(th)):
            if lua:
                src += 'l["/%d"] = action.my.echo(%s)\n' % (i, lit(v, True))
            else:
                b += 'if req.path == "/%d" { my.echo %s; }\n' % (i, lit(v, False))
        for i, kv in enumerate(kvs()):
            if not lua:
                b += 'if req.path == "/k%d" { my.keys [%s]; }\n' % (i, ', '.join('%s => %d' % ('"%s"' % k if k else 'default', v) for k, v in kv))
        if lua:
            put(wd, {'vals': src + 'actions = function(vr) local a = l[vr.req.uri.path]; if a then vr:enter_action(a) end end\n'})
            b = 'include_lua "%s/vals.lua";\n' % d
        return conf(b, ['mod_lua'], setup='lua.plugin "%s/echo.lua";' % d)
    return c


def values_cases(th, lua):
    def gen():
        for i, v in enumerate(values(th)):
            yield ('v', i, lit(v, lua)[:80]), Script().connect(0).send(0, req('GET', '/%d' % i)).q().drain(0).reset()
        if not lua:
            for i, kv in enumerate(kvs()):
                yield ('k', i, kv), Script().connect(0).send(0, req('GET', '/k%d' % i)).q().drain(0).reset()
    return gen


def values_judge(th, lua):
    vals, kv = values(th), list(kvs())

    def j(key, r):
        kind, i, _ = key
        if kind == 'v':
            v = vals[i]
            want = ''.join(ser(x) + ',' for x in v) if isinstance(v, tuple) and not lua else ser(v) + ','
        else:
            m = dict((k, v) for k, v in kv[i])
            want = ser(m.get('a')) + ser(m.get('b')) + 'nnil' + ser(m.get(None)) + 'btrue'
        rs, left = parse_responses(r.data.get(0, b''), r.eof.get(0), ['GET'])
        if len(rs) != 1 or rs[0].body != want.encode():
            return 'expected %s, got %s' % (want[:200], short(r.data.get(0, b''), 300))
        return None
    return j


# ---------------------------------------------------------------- attributes
ATTR = [('req.uri.path', '%{req.path}', True), ('req.uri.query', '%{req.query}', True), ('req.uri.host', '%{req.host}', True), ('req.uri.scheme', '%{req.scheme}', False),
        ('phys.path', '%{phys.path}', True), ('phys.doc_root', '%{phys.docroot}', True), ('phys.pathinfo', '%{phys.pathinfo}', True),
        ('req.http_method', '%{req.method}', False), ('con.remote', '%{req.remoteip}', False), ('con["local"]', '%{req.localip}', False),
        ('req.uri.raw_path', '%{req.raw_path}', True), ('req.content_length', '%{req.length}', False)]
WR = [None] + [i for i, a in enumerate(ATTR) if a[2]]
WV = ['/w', 'v w', 'a%41', '']


def attr_cfg(wd):
    doc = os.path.join(wd, 'doc')
    os.makedirs(doc, exist_ok=True)
    src = 'actions = function(vr)\n local w, v = vr.req.headers["X-W"], vr.req.headers["X-V"]\n'
    for i, (l, n, w) in enumerate(ATTR):
        if w:
            src += ' if w == "%d" then vr.%s = v end\n' % (i, l)
    src += ' local o = ""\n'
    for l, n, w in ATTR:
        src += ' o = o .. tostring(vr.%s) .. "|"\n' % l
    src += ' vr.env["L"] = o\n if vr.req.http_version ~= vr.req.headers["X-Ver"] then vr.env["L"] = "version" end\nend\n'
    d = put(wd, {'attr': src})
    return conf('docroot "%s";\nlua.handler "%s/attr.lua";\nrespond "%s\\n%%{req.environment[L]}";' % (doc, d, ''.join(n + '|' for l, n, w in ATTR)), ['mod_lua'])


def attr_cases():
    for path in ('/', '/a', '/a/b%20c', '/%61?q=1', '/f?', '/nope?q'):
        for host in ('h', 'x.h'):
            for m, hd, body in (('GET', [], b''), ('POST', [('Content-Length', '3')], b'abc')):
                for ver in ('HTTP/1.1', 'HTTP/1.0'):
                    for w in WR:
                        for v in WV if w is not None else [None]:
                            k = (path, host, m, ver, w, v)
                            h = hd + [('X-Ver', ver)] + ([('X-W', str(w)), ('X-V', v)] if w is not None else [])
                            yield k, Script().connect(0).send(0, req(m, path, h, body, host=host, version=ver[5:])).q().drain(0).q().drain(0).reset()


def attr_judge(k, r):
    path, host, m, ver, w, v = k
    d = r.data.get(0, b'')
    rs, left = parse_responses(d, r.eof.get(0), [m])
    if len(rs) != 1 or rs[0].status != 200:
        return 'got %s' % short(d)
    n, s, l = rs[0].body.partition(b'\n')
    if n != l:
        return 'the main configuration sees %r, Lua %r' % (n, l)
    if w is not None and n.split(b'|')[w] != v.encode():
        return '%s was set to %r, but is %r' % (ATTR[w][0], v, n.split(b'|')[w])
    return None


def run(ctx):
    th = ctx.thorough
    ctx.rules.append('a script that fails (or a method called without its object) costs at most its own request; every later request to any handler is answered as if nothing had happened')
    names = list(FAULTY) + ['perr']
    seqs = [(a, b) + tuple(PROBE) for a in names for b in (names if th else ['g1', 'g3', 'syntax', 'rt', 'filfin', 'condip'])] + [tuple(PROBE)]
    ctx.explore('faulty scripts', faulty_cfg, lambda: ((s, faulty_script(s)) for s in seqs), faulty_judge)
    n = 20000 if th else 9000
    ctx.drive('long histories', faulty_cfg, lambda: [(k, n) for k in LONG], long_drive)
    ctx.rules.append('globals live per handler and request, REQ per request: concurrent requests that wait for the file system never see each other')
    for name, srv in (('lua.handler', False), ('include_lua', True)):
        ctx.explore('state of concurrent requests: ' + name, iso_cfg(srv), iso_cases(2, 4 if th else 3), iso_judge)
        if th:
            ctx.explore('state of three concurrent requests: ' + name, iso_cfg(srv), iso_cases(3, 3), iso_judge)
    ctx.explore('state of successive requests', keep_cfg, keep_cases(th), keep_judge)
    ctx.rules.append('a Lua condition is true exactly if the same condition of the main configuration is')
    for k in ('include_lua', 'lua.handler'):
        ctx.explore('conditions: ' + k, cond_cfg(k), cond_cases, cond_judge)
    ctx.rules.append('headers and environment behave as documented for every sequence of operations')
    ctx.explore('headers and environment', lambda wd: conf('lua.handler "%s/hops.lua";' % put(wd, {'hops': HOPS}), ['mod_lua']), hops_cases(th), hops_judge)
    for lua in (False, True):
        ctx.explore('values: ' + ('from Lua' if lua else 'from the main configuration'), values_cfg(th, lua), values_cases(th, lua), values_judge(th, lua))
    ctx.explore('attributes', attr_cfg, attr_cases, attr_judge)
    ctx.explore('add_file', file_cfg, file_gen, file_judge)
    ctx.rules.append('a value passed to a Lua plugin arrives unchanged; attributes read and write what the main configuration sees')
    ctx.rules.append('filters see and produce exactly the body for every way it arrives, and each is finished exactly once')
    ctx.explore('filters', filt_cfg, filt_cases(th), filt_judge)
    ctx.rules.append('lua.handler with a ttl never serves a version older than ttl + stat cache')
    ctx.drive('reloading', ttl_cfg, ttl_cases(th), ttl_drive)
