"""TLS client driving a simulated connection step by step"""
import os, ssl
from sim import Script
import vbuild

DIR = os.path.join(vbuild.VERIF, 'tls')
V = {'1.2': ssl.TLSVersion.TLSv1_2, '1.3': ssl.TLSVersion.TLSv1_3}
_ctx = {}


def context(version=None, cert=None, alpn=None, ciphers=None, noticket=False):
    key = (version, cert, alpn, ciphers, noticket)
    if key not in _ctx:
        c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
        c.check_hostname = False
        c.verify_mode = ssl.CERT_NONE
        if version:
            c.minimum_version = c.maximum_version = V[version]
        if cert:
            c.load_cert_chain(os.path.join(DIR, cert + '.pem'))
        if alpn:
            c.set_alpn_protocols(list(alpn))
        if ciphers:
            c.set_ciphers(ciphers)
        if noticket:
            c.options |= ssl.OP_NO_TICKET
        _ctx[key] = c
    return _ctx[key]


class Client:
    """tr(pos, data) -> list of segments to send (pos: offset in what this client sends)"""

    def __init__(self, sim, k=0, listener=0, sni=None, tr=None, context=context(), session=None, port=40000, peer='10.0.0.1', pre=None):
        self.sim, self.k, self.tr = sim, k, tr
        self.inb, self.outb = ssl.MemoryBIO(), ssl.MemoryBIO()
        self.o = context.wrap_bio(self.inb, self.outb, server_side=False, server_hostname=sni, session=session)
        self.pos = 0
        self.plain = b''       # decrypted
        self.wire = b''        # as received
        self.sent = []         # flights as sent
        self.eof = self.rst = False
        self.notify = False    # close_notify received
        self.err = None
        self.up = False
        self.other = []        # results of all runs
        sc = Script().connect(k, listener=listener, port=port, peer=peer)
        if pre:
            pre(sc)
        self.step(sc)

    # -- wire
    def step(self, sc):
        sc.q().drain(self.k)
        r = self.sim.run(sc.raw())
        self.other.append(r)
        d = r.data.get(self.k, b'')
        self.wire += d
        if d:
            self.inb.write(d)
        if r.eof.get(self.k) and not self.eof:
            self.eof = True
            self.inb.write_eof()
        if r.rst.get(self.k):
            self.rst = True
        return r

    def flush(self):
        """send what the TLS engine produced; reads what comes back"""
        d = self.outb.read()
        if not d:
            return False
        segs = self.tr(self.pos, d) if self.tr else [d]
        self.pos += len(d)
        self.sent.append(d)
        for s in segs:
            sc = Script()
            if s:
                sc.send(self.k, s)
            self.step(sc)
        return True

    def op(self, f, *a):
        try:
            return f(*a)
        except ssl.SSLWantReadError:
            return None
        except ssl.SSLZeroReturnError:
            self.notify = True
        except (ssl.SSLError, OSError) as e:
            self.err = getattr(e, 'reason', None) or type(e).__name__
        return None

    def handshake(self, rounds=12):
        for _ in range(rounds):
            self.op(self.do)
            moved = self.flush()
            if self.up or self.err:
                break
            if not moved:
                break
        return self.up

    def do(self):
        self.o.do_handshake()
        self.up = True

    def read(self):
        while not self.err and not self.notify:
            d = self.op(self.o.read, 65536)
            if not d:
                if d == b'':
                    self.notify = True
                break
            self.plain += d
        self.flush()

    def send(self, data, read=True):
        self.op(self.o.write, data)
        self.flush()
        if read:
            self.read()

    def records(self, chunks):
        """several TLS records in one flight"""
        for c in chunks:
            self.op(self.o.write, c)
        self.flush()
        self.read()

    def wait(self, n=1):
        for _ in range(n):
            self.step(Script())
            self.read()

    def bye(self):
        """close_notify"""
        self.op(self.o.unwrap)
        self.flush()
        self.read()

    def cert(self):
        """DER of the server certificate"""
        return self.o.getpeercert(True)


def cut(*points):
    """segments at absolute positions of the client stream"""
    def tr(pos, d):
        p = [x - pos for x in points if pos < x < pos + len(d)]
        return [d[a:b] for a, b in zip([0] + p, p + [len(d)])]
    return tr


def every(n):
    return lambda pos, d: [d[i:i + n] for i in range(0, len(d), n)]


def der(name):
    t = open(os.path.join(DIR, name + '.pem')).read()
    i = t.index('-----BEGIN CERT')
    return ssl.PEM_cert_to_DER_cert(t[i:t.index('-----END CERTIFICATE-----') + 25])
