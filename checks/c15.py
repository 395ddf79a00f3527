"""C15: limits on concurrent requests and request rates (mod_limit)"""
import itertools
from h import *

# client connections: 0, 1 share an IPv4 address; 2 has an address close to it, 3 and 4 are IPv6 addresses (3 has the bytes of 0's address as prefix)
PEERS = ['10.0.0.1', '10.0.0.1', '10.0.0.2', '0a00:0001::1', '0a00:0001::2']


def peer(host, c):
    # more than one request of an address has to remain: connections 0 to 2 share it
    return PEERS[0] if host in ('ip2', 'ip3') and c < 3 else PEERS[c]


# host -> (actions, scopes); a scope is ('all' | 'ip', limit, answer when reached)
CON = {
    'con1': ('limit.con 1;', [('all', 1, 503)]),
    'con2': ('limit.con 2;', [('all', 2, 503)]),
    'con3': ('limit.con 3;', [('all', 3, 503)]),
    'ip1': ('limit.con_ip 1;', [('ip', 1, 503)]),
    'ip2': ('limit.con_ip 2;', [('ip', 2, 503)]),
    'ip3': ('limit.con_ip 3;', [('ip', 3, 503)]),
    'both': ('limit.con 2; limit.con_ip 1;', [('all', 2, 503), ('ip', 1, 503)]),
    'both2': ('limit.con_ip 1; limit.con 2;', [('ip', 1, 503), ('all', 2, 503)]),
    'act': ('limit.con 1 => { respond 200 => "busy"; };', [('all', 1, 200)]),
    'actip': ('limit.con_ip 1 => { respond 404; };', [('ip', 1, 404)]),
    'actgo': ('limit.con_ip 1 => { env.set "L" => "1"; };', [('ip', 1, None)]),      # only notes it
}


def con_config(wd):
    l = []
    for i, (h, (a, s)) in enumerate(CON.items()):
        l.append('%sif req.host == "%s" { %s }' % ('else ' if i else '', h, a))
    l.append('scgi "unix:/b";')
    return conf('\n'.join(l), ['mod_limit', 'mod_scgi'])


OPS = [(o, c) for o in 'OFAE' for c in range(4)]


def con_seqs(depth, nconn):
    """op sequences that make sense: O on an idle connection, F/A/E on an active one, also A on an idle open one"""
    def go(seq, act, seen):
        if seq:
            yield seq
        if len(seq) == depth:
            return
        for c in range(nconn):
            if c not in act:
                yield from go(seq + (('O', c),), act | {c}, seen)
            else:
                for o in 'FAE':
                    yield from go(seq + ((o, c),), act - {c}, seen)
    # symmetry: connection 1 is only used after 0 (same address)
    for s in go((), frozenset(), None):
        first = [c for o, c in s if o == 'O']
        if 1 in first and (0 not in first or first.index(1) < first.index(0)):
            continue
        yield s


def con_model(host, seq):
    """-> list of (op, connection, granted backend number or None, status expected now or None)"""
    scopes = CON[host][1]
    active = {}
    nb = 0
    out = []
    for o, c in seq:
        if o == 'O':
            st = None
            held = []
            for kind, lim, ans in scopes:
                n = sum(1 for d, (b, h) in active.items() if kind in h and (kind == 'all' or peer(host, d) == peer(host, c)))
                if n >= lim:
                    st = ans if ans is not None else st
                    if ans is not None:
                        break
                else:
                    held.append(kind)
            if st is None:
                active[c] = (nb, held)
                out.append((o, c, nb, None))
                nb += 1
            else:
                out.append((o, c, None, st))
        else:
            if c in active:
                b = active.pop(c)[0]
                out.append((o, c, b, {'F': 200, 'A': None, 'E': 'err'}[o]))
            else:
                out.append((o, c, None, None))       # nothing running
    # what is still running is released at the end: everything must be available again
    return out


def con_cases(th):
    for host in CON:
        for s in con_seqs(6 if th else 5, 4 if th else 3):
            if len(s) < 2:
                continue
            if host not in ('ip1', 'ip2', 'both', 'con2') and len(s) > (5 if th else 4):
                continue
            ops = con_model(host, s)
            sc = Script()
            slot = {}
            ns = 0
            exp = {}
            for o, c, b, st in ops:
                if o == 'O':
                    if c not in slot:
                        slot[c] = ns
                        exp[ns] = []
                        sc.connect(ns, peer=peer(host, c))
                        ns += 1
                    sc.send(slot[c], req(host=host)).q()
                    if st is not None:
                        exp[slot[c]].append(st)
                elif o == 'F':
                    if b is None:
                        continue
                    sc.send(64 + b, b'Status: 200\r\n\r\ndone').close(64 + b).q()
                    exp[slot[c]].append(200)
                elif o == 'E':
                    if b is None:
                        continue
                    sc.close(64 + b).q()
                    exp[slot[c]].append('err')
                    # the connection may or may not survive: do not use it again
                    sc.drain(slot[c]).close(slot[c]).q()
                    del slot[c]
                elif o == 'A':
                    if c in slot:
                        sc.drain(slot[c]).close(slot[c]).q()
                        del slot[c]
            for c, k in slot.items():
                sc.drain(k).close(k).q()
            # all requests are gone: the full limit is available again
            lim = {'all': None, 'ip': None}
            for kind, n, ans in CON[host][1]:
                lim[kind] = n
            nb = sum(1 for o in ops if o[0] == 'O' and o[2] is not None)
            n = min(x for x in (lim['all'], lim['ip']) if x is not None)
            fs = []
            for i in range(n):
                sc.connect(ns, peer=PEERS[0]).send(ns, req(host=host)).q()
                exp[ns] = []
                fs.append(ns)
                ns += 1
            sc.drain(fs[-1])
            yield (host, s, tuple(sorted((k, tuple(v)) for k, v in exp.items())), nb + n), sc.reset(5)


def con_judge(key, r):
    host, s, exp, nb = key
    if len(r.connects) != nb:
        return '%d requests reached the backend, %d may run by the limit: %s' % (len(r.connects), nb, [(k, d[:40]) for k, d in sorted(r.data.items())])
    for k, want in exp:
        rs, err = bodies(r, k, ['GET'] * len(want))
        got = [x.status for x in rs[0]] if not err else None
        if got is None or len(got) > len(want):
            return 'connection %d: %s' % (k, err or got)
        for i, w in enumerate(want):
            if w == 'err':
                if i < len(got) and got[i] < 500:
                    return 'connection %d: %r expected %r' % (k, got, want)
            elif i >= len(got) or got[i] != w:
                return 'connection %d: %r expected %r' % (k, got, want)
    return None


# ---------------------------------------------------------------- requests per second
RATE = {
    'r1': ('limit.req 1;', 'all', 1), 'r2': ('limit.req 2;', 'all', 2), 'r3': ('limit.req 3 => { respond 503; };', 'all', 3),
    'i1': ('limit.req_ip 1;', 'ip', 1), 'i2': ('limit.req_ip 2;', 'ip', 2), 'i3': ('limit.req_ip 3 => { respond 503; };', 'ip', 3),
}


def rate_config(wd):
    l = []
    for i, (h, (a, k, n)) in enumerate(RATE.items()):
        l.append('%sif req.host == "%s" { %s }' % ('else ' if i else '', h, a))
    l.append('respond 200 => "ok";')
    return conf('\n'.join(l), ['mod_limit'])


DTS = [0.0, 0.4, 0.99, 1.05, 2.1]


def rate_seqs(th):
    """arrivals: (time since the previous one, peer, number of requests at that moment)"""
    ev = [(dt, p, n) for dt in DTS for p in (0, 2, 3) for n in (1, 2, 4)]
    small = [(dt, p, n) for dt in (DTS if th else DTS[::2] + DTS[3:4]) for p in (0, 3) for n in (1, 3)]
    for start in (0.0, 0.5, 0.95):
        for a in ev:
            for b in ev:
                yield start, ((0.0,) + a[1:], b)
        for t in itertools.product(small, repeat=3):
            yield start, ((0.0, 0, 1),) + t
        if th:
            for t in itertools.product([e for e in small if e[0] == 0], small, small, small):
                yield start, t


def rate_cases(th):
    for host in RATE:
        for start, seq in rate_seqs(th):
            sc = Script().advance(5 + start).now()
            for i, (dt, p, n) in enumerate(seq):
                if dt:
                    sc.advance(dt)
                sc.connect(i, peer=PEERS[p]).send(i, req(host=host) * n).q().drain(i)
            yield (host, start, seq), sc.reset(5)


def edge(t):
    """counting may be aligned to full seconds"""
    return not 0.03 < t % 1.0 < 0.97


def rate_judge(key, r):
    host, start, seq = key
    _, kind, lim = RATE[host]
    t = 0.0
    ev = []
    for i, (dt, p, n) in enumerate(seq):
        t += dt
        rs, err = bodies(r, i, ['GET'] * n)
        if err or len(rs[0]) != n:
            return err or 'connection %d: %d responses of %d' % (i, len(rs[0]), n)
        for x in rs[0]:
            if x.status not in (200, 503):
                return 'status %d' % x.status
            ev.append((t, p, x.status == 200))
    for a, (t, p, ok) in enumerate(ev):
        same = [e for e in ev[:a] if kind == 'all' or PEERS[e[1]] == PEERS[p]]
        recent = [e for e in same if t - e[0] <= 2.05]
        if not ok and len(recent) < lim:
            return 'request %d refused although only %d of %d requests were made in the last two seconds: %r' % (a, len(recent), lim, ev)
        if ok:
            if not edge(r.time + t) and sum(1 for e in same if e[2] and t - e[0] < 0.001) >= lim:
                return 'more than %d requests granted at once: %r' % (lim, ev)
            if sum(1 for e in same if e[2] and t - e[0] < 0.999) >= 2 * lim:
                return 'more than twice the limit %d granted within a second: %r' % (lim, ev)
    if all(dt == 0 for dt, p, n in seq[1:]) and not edge(r.time):
        # everything at one moment: exactly the limit
        for p in {PEERS[e[1]] for e in ev} if kind == 'ip' else {None}:
            l = [e for e in ev if p is None or PEERS[e[1]] == p]
            if sum(1 for e in l if e[2]) != min(lim, len(l)):
                return '%d of %d simultaneous requests granted, limit %d' % (sum(1 for e in l if e[2]), len(l), lim)
    return None


def run(ctx):
    ctx.explore('concurrent requests', con_config, lambda: con_cases(ctx.thorough), con_judge, batch=16)
    ctx.explore('requests per second', rate_config, lambda: rate_cases(ctx.thorough), rate_judge, batch=16)
