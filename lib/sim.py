"""Driver for the lisim environment: runs the real lighttpd2-worker and executes scripts."""
import os, signal, socket, struct, subprocess, sys, tempfile, shutil, time, glob
import vbuild

U = 0x7fffffff
EAGAIN, EPIPE, ECONNRESET, EINTR, EINVAL, ETIMEDOUT, ECONNREFUSED, EIO, ENOSPC, EMFILE = 11, 32, 104, 4, 22, 110, 111, 5, 28, 24


class SimDied(Exception):
    def __init__(self, msg, rc=None, log=''):
        Exception.__init__(self, msg + ('\n' + log[-1500:] if log else ''))
        self.rc = rc
        self.log = log


class Script:
    """builder of one execution"""
    __slots__ = ('b', 'desc')

    def __init__(self):
        self.b = []
        self.desc = []

    def connect(self, k=0, peer='10.0.0.1', port=40000, listener=0):
        a = peer.encode()
        self.b.append(b'C' + bytes((k, listener, len(a))) + a + struct.pack('<I', port))
        return self

    def send(self, k, data):
        if isinstance(data, str):
            data = data.encode('latin-1')
        self.b.append(b'S' + bytes((k,)) + struct.pack('<I', len(data)) + data)
        return self

    def q(self):
        self.b.append(b'Q'); return self

    def shut(self, k):
        self.b.append(b'H' + bytes((k,))); return self

    def close(self, k):
        self.b.append(b'X' + bytes((k,))); return self

    def drain(self, k):
        self.b.append(b'D' + bytes((k,))); return self

    def info(self, k):
        self.b.append(b'I' + bytes((k,))); return self

    def advance(self, dt):
        self.b.append(b'T' + struct.pack('<d', dt)); return self

    def plan(self, k, which, entries):
        self.b.append(b'P' + bytes((k,)) + which.encode() + bytes((len(entries),)) + b''.join(struct.pack('<i', e) for e in entries)); return self

    def plan_left(self, k, which):
        self.b.append(b'p' + bytes((k,)) + which.encode()); return self

    def connplan(self, entries):
        return self.plan(255, 'c', entries)

    def connmode(self, addr, v):
        a = addr.encode()
        self.b.append(b'M' + bytes((len(a),)) + a + struct.pack('<i', v)); return self

    def complete(self, k, ok=True):
        self.b.append(b'O' + bytes((k, 0 if ok else 1))); return self

    def accept_error(self, err, listener=0):
        self.b.append(b'A' + bytes((listener,)) + struct.pack('<i', err)); return self

    def fs(self, mode, n, prefix):
        p = prefix.encode()
        self.b.append(b'K' + mode.encode() + struct.pack('<i', n) + bytes((len(p),)) + p); return self

    def fsops(self):
        self.b.append(b'k'); return self

    def logplan(self, entries):
        return self.plan(254, 'l', entries)

    def logwait(self):
        """let the log thread finish; Result.logged has what it wrote to files"""
        self.b.append(b'L'); return self

    def task(self, k=0):
        """run the k-th pending task of the thread pool (255: all, 254: none, only report); Result.tasks has how many were pending"""
        self.b.append(b'U' + bytes((k,))); return self

    def fsop(self, kind, path, other=''):
        """w(rite) u(nlink) d(mkdir) r(mdir) m(ove) t(runcate to the size other)"""
        a = path.encode(); b = other.encode() if isinstance(other, str) else other
        self.b.append(b'F' + kind.encode() + bytes((len(a), len(b))) + a + b); return self

    def now(self):
        self.b.append(b't'); return self

    def sig(self, s):
        self.b.append(b'G' + bytes((s,))); return self

    def reset(self, wait=0.0):
        """close all harness ends, let the server notice, then free the slots"""
        self.b.append(b'ZQ')
        if wait:
            self.b.append(b'T' + struct.pack('<d', wait))
            self.b.append(b'Q')
        self.b.append(b'z')
        return self

    def raw(self):
        return b''.join(self.b)


class Result:
    __slots__ = ('data', 'eof', 'rst', 'connects', 'info', 'leak', 'ev', 'planleft', 'sendfail', 'fsops', 'fstrace', 'time', 'steps', 'marks', 'log', 'exited', 'logged', 'tasks')

    def __init__(self, raw):
        self.data = {}
        self.eof = {}
        self.rst = {}
        self.connects = []
        self.info = {}
        self.leak = []
        self.planleft = {}
        self.sendfail = []
        self.fsops = None
        self.fstrace = []
        self.time = None
        self.marks = []      # now() calls: (number of steps before it, time)
        self.exited = None   # time at which the server process ended
        self.log = []        # (type, slot, data) of everything, in order
        self.logged = {}     # basename of log file -> bytes written
        self.tasks = []      # number of pending tasks at each task()
        self.steps = []      # drains in order: (slot, data, eof)
        p = 0
        n = len(raw)
        while p < n:
            t, k, l = raw[p], raw[p + 1], struct.unpack_from('<I', raw, p + 2)[0]
            d = raw[p + 6:p + 6 + l]
            p += 6 + l
            self.log.append((chr(t), k, d))
            if t == 0x64:  # d
                self.data[k] = self.data.get(k, b'') + d
                self.steps.append((k, d))
            elif t == 0x65:
                self.eof[k] = True
                self.steps.append((k, None))
            elif t == 0x72:
                self.rst[k] = True
            elif t == 0x63:
                self.connects.append((k, d.decode('latin-1')))
            elif t == 0x69:
                self.info[k] = tuple(d)
            elif t == 0x78:
                self.exited = struct.unpack('<d', d)[0]
            elif t == 0x75:
                self.tasks.append(struct.unpack('<i', d)[0])
            elif t == 0x7a:
                self.leak.append(struct.unpack('<i', d)[0])
            elif t == 0x70:
                self.planleft[k] = struct.unpack('<i', d)[0]
            elif t == 0x6c:
                q = 0
                while q < l:
                    a = struct.unpack_from('<I', d, q)[0]
                    nm = d[q + 4:q + 4 + a].decode('latin-1').rsplit('/', 1)[-1]
                    q += 4 + a
                    a = struct.unpack_from('<I', d, q)[0]
                    self.logged[nm] = self.logged.get(nm, b'') + d[q + 4:q + 4 + a]
                    q += 4 + a
            elif t == 0x73:
                self.sendfail.append((k, struct.unpack('<i', d)[0]))
            elif t == 0x6b:
                self.fsops = struct.unpack('<i', d)[0]
            elif t == 0x66:
                self.fstrace.append(d.decode('latin-1'))
            elif t == 0x74:
                self.time = struct.unpack('<d', d)[0]
                self.marks.append((len(self.steps), self.time))


class Sim:
    """one real worker process under the scripted environment"""

    def __init__(self, config, workdir, bdir=None, timeout=60, env=None, realtime=None, lua=False):
        self.bdir = bdir or vbuild.build('asan')
        self.workdir = workdir
        os.makedirs(workdir, exist_ok=True)
        self.conf = os.path.join(workdir, 'sim-%d-%x.conf' % (os.getpid(), id(self) & 0xffffff))
        with open(self.conf, 'w') as f:
            f.write(config)
        self.timeout = timeout
        a, b = socket.socketpair()
        self.s = a
        a.settimeout(timeout)
        self.logpath = self.conf + '.log'
        self.log = open(self.logpath, 'wb')
        e = {'PATH': '/usr/sbin:/usr/bin:/sbin:/bin', 'LANG': 'C.UTF-8', 'TZ': 'UTC', 'HOME': workdir}
        if env:
            e.update(env)
        asan = subprocess.run(['gcc', '-print-file-name=libasan.so'], stdout=subprocess.PIPE).stdout.decode().strip() if not getattr(Sim, '_asan', None) else Sim._asan
        Sim._asan = asan = os.path.realpath(asan)
        e['LD_PRELOAD'] = asan + ':' + vbuild.lisim()
        e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=86:detect_odr_violation=0:allocator_may_return_null=1'
        e['LISIM_FD'] = str(b.fileno())
        if realtime:
            e['LISIM_TIME'] = repr(float(realtime))
        e['LUA_PATH'] = os.path.join(vbuild.REPO, 'contrib') + '/?.lua'
        os.set_inheritable(b.fileno(), True)
        cmd = [os.path.join(self.bdir, 'src', 'main', 'lighttpd2-worker'), '-m', os.path.join(self.bdir, 'src', 'modules'), '-c', self.conf]
        if lua:
            cmd.append('-l')
        self.p = subprocess.Popen(cmd, env=e, stdout=self.log, stderr=self.log, stdin=subprocess.DEVNULL, pass_fds=[b.fileno()], cwd=workdir, start_new_session=True)
        b.close()
        self.history = []
        r = self._recv()
        if not r.startswith(b'!'):
            raise SimDied('bad greeting')

    def logtext(self):
        try:
            with open(self.logpath, 'rb') as f:
                return f.read()[-20000:].decode('latin-1')
        except OSError:
            return ''

    def _recvn(self, n):
        buf = bytearray()
        while len(buf) < n:
            try:
                d = self.s.recv(n - len(buf))
            except socket.timeout:
                self.kill()
                raise SimDied('timeout: server did not become quiescent', 'timeout', self.logtext())
            except ConnectionResetError:
                d = b''
            if not d:
                try:
                    rc = self.p.wait(10)
                except subprocess.TimeoutExpired:
                    self.p.kill(); rc = self.p.wait()
                raise SimDied('server died rc=%s' % rc, rc, self.logtext())
            buf += d
        return bytes(buf)

    def _recv(self):
        l = struct.unpack('<I', self._recvn(4))[0]
        return self._recvn(l)

    def run_raw(self, raw):
        self.history.append(raw)
        try:
            self.s.sendall(struct.pack('<I', len(raw)) + raw)
        except (BrokenPipeError, ConnectionResetError):
            pass
        return self._recv()

    def run(self, script):
        r = Result(self.run_raw(script.raw() if isinstance(script, Script) else script))
        if r.exited is not None:
            try:
                rc = self.p.wait(20)
            except subprocess.TimeoutExpired:
                self.p.kill(); rc = self.p.wait()
            if rc != 0:
                raise SimDied('server died rc=%s' % rc, rc, self.logtext())
        return r

    def run_many(self, scripts):
        """pipelined execution"""
        raws = [s.raw() if isinstance(s, Script) else s for s in scripts]
        res = []
        i = 0
        out = 0
        W = 32
        while len(res) < len(raws):
            while i < len(raws) and i - len(res) < W:
                self.history.append(raws[i])
                try:
                    self.s.sendall(struct.pack('<I', len(raws[i])) + raws[i])
                except (BrokenPipeError, ConnectionResetError):
                    pass
                i += 1
            res.append(Result(self._recv()))
        return res

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            self.p.wait(10)
        except Exception:
            pass

    def close(self):
        self.s.close()
        try:
            self.p.wait(5)
        except subprocess.TimeoutExpired:
            self.kill()
        self.kill()
        self.log.close()
        for f in (self.conf, self.logpath):
            try:
                os.unlink(f)
            except OSError:
                pass
