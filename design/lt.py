"""demo helper: runs the built worker on a loopback port in a scratch directory"""
import os, shutil, socket, subprocess, sys, tempfile, threading, time

REPO = os.getcwd()
for b in ('_build', 'build'):
    BIN = os.path.join(REPO, b, 'src/main/lighttpd2-worker')
    MOD = os.path.join(REPO, b, 'src/modules')
    if os.path.exists(BIN):
        break


class Server:
    def __init__(self, body, modules=(), setup='', files=(), env=None):
        self.dir = tempfile.mkdtemp(prefix='demo-')
        os.chmod(self.dir, 0o755)
        for n, d in dict(files).items():
            p = os.path.join(self.dir, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(d)
        s = socket.socket(); s.bind(('127.0.0.1', 0)); self.port = s.getsockname()[1]; s.close()
        ml = 'module_load [%s];' % ', '.join('"%s"' % m for m in modules) if modules else ''
        conf = 'setup { %s listen "127.0.0.1:%d"; %s }\n%s\n' % (ml, self.port, setup.replace('@D', self.dir), body.replace('@D', self.dir))
        cf = os.path.join(self.dir, 'lighttpd.conf')
        with open(cf, 'w') as f:
            f.write(conf)
        self.log = open(os.path.join(self.dir, 'log'), 'wb')
        e = dict(os.environ); e.update(env or {})
        self.p = subprocess.Popen([BIN, '-m', MOD, '-c', cf], stdout=self.log, stderr=self.log, cwd=self.dir, env=e)
        for _ in range(100):
            try:
                socket.create_connection(('127.0.0.1', self.port), 1).close()
                return
            except OSError:
                if self.p.poll() is not None:
                    break
                time.sleep(0.05)
        self.log.flush()
        print(open(os.path.join(self.dir, 'log')).read())
        self.close()
        raise SystemExit('server did not start')

    def conn(self, src=None):
        return socket.create_connection(('127.0.0.1', self.port), 5, (src, 0) if src else None)

    def raw(self, *parts, wait=0.3, gap=0.05, src=None):
        """send the parts, return everything received until eof or silence"""
        c = self.conn(src)
        for i, p in enumerate(parts):
            if i:
                time.sleep(gap)
            try:
                c.sendall(p)
            except OSError:
                break
        return self.rest(c, wait)

    def rest(self, c, wait=0.3):
        c.settimeout(wait)
        out = b''
        try:
            while True:
                d = c.recv(65536)
                if not d:
                    break
                out += d
        except OSError:
            pass
        c.close()
        return out

    def alive(self):
        return self.p.poll() is None

    def close(self):
        self.p.kill(); self.p.wait(); self.log.close()
        shutil.rmtree(self.dir, ignore_errors=True)


class Backend:
    """unix socket backend: handler(conn) runs in a thread per connection"""
    def __init__(self, path, handler):
        self.s = socket.socket(socket.AF_UNIX); self.s.bind(path); self.s.listen(16)
        self.h = handler
        threading.Thread(target=self.loop, daemon=True).start()

    def loop(self):
        while True:
            try:
                c, _ = self.s.accept()
            except OSError:
                return
            threading.Thread(target=self.run, args=(c,), daemon=True).start()

    def run(self, c):
        try:
            self.h(c)
        except Exception:
            pass
        try:
            c.close()
        except OSError:
            pass


def body(resp):
    return resp.partition(b'\r\n\r\n')[2]


def status(resp):
    try:
        return int(resp.split(b' ', 2)[1])
    except (IndexError, ValueError):
        return 0


def need(cond, msg):
    if not cond:
        print('FAIL: ' + msg)
        os._exit(1)
