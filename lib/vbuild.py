"""Builds of /repo used by the checks, keyed by the content of the tree.

The build directory name contains a hash over every source file, so a build
is reused only for byte-identical sources; any change leads to a new build.
"""
import fcntl, hashlib, os, shutil, subprocess, sys, time

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, 'build')

CONFIGS = {
    # name: (meson options, c_args)
    'asan': (['-Db_sanitize=address', '-Db_lundef=false'], '-O1 -g -fno-omit-frame-pointer'),
    # for the controlled scheduler (harness/conc.c): every glib atomic becomes a real function call and every memory
    # access calls __tsan_*, which the harness provides (libtsan itself is not linked)
    'sched': (['-Db_lundef=false', '-Dc_link_args=-fno-sanitize=thread'], '-O1 -g -fno-omit-frame-pointer -U__GCC_HAVE_SYNC_COMPARE_AND_SWAP_4 -fsanitize=thread'),
}
# only these targets are needed (and linkable without libtsan)
TARGETS = {'sched': ['src/common/liblighttpd2-common-2.0.0.so', 'src/main/liblighttpd2-shared-2.0.0.so']}


class BuildError(Exception):
    pass


def tree_hash(repo=REPO):
    h = hashlib.sha256()
    files = []
    for top in ('src', 'include', 'meson.build', 'meson_options.txt', 'contrib', 'doc/meson.build', 'tests/meson.build'):
        p = os.path.join(repo, top)
        if os.path.isfile(p):
            files.append(p)
        for d, ds, fs in os.walk(p):
            ds.sort()
            for f in fs:
                files.append(os.path.join(d, f))
    for f in sorted(files):
        if not os.path.isfile(f):
            continue
        h.update(os.path.relpath(f, repo).encode() + b'\0')
        with open(f, 'rb') as fd:
            data = fd.read()
        h.update(str(len(data)).encode() + b'\0' + data)
    return h.hexdigest()[:20]


def _env():
    e = dict(os.environ)
    e.update(CC='gcc', PATH='/usr/sbin:/usr/bin:/sbin:/bin', LANG='C.UTF-8', PYTHONDONTWRITEBYTECODE='1', CCACHE_DISABLE='1')
    for k in ('CFLAGS', 'LDFLAGS', 'CPPFLAGS', 'LD_PRELOAD', 'DESTDIR'):
        e.pop(k, None)
    return e


def build(cfg='asan', repo=REPO, quiet=True):
    """returns the build directory for the current tree"""
    os.makedirs(BUILD, exist_ok=True)
    opts, cargs = CONFIGS[cfg]
    cfgh = hashlib.sha256(repr((opts, cargs, repo)).encode()).hexdigest()[:6]
    key = '%s-%s-%s' % (cfg, tree_hash(repo), cfgh)
    bdir = os.path.join(BUILD, key)
    marker = os.path.join(bdir, '.verif-complete')
    lock = open(os.path.join(BUILD, '.lock-' + cfg), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(marker):
            os.utime(marker)
            return bdir
        # keep the disk small: drop all but the newest two builds of this config
        old = sorted((d for d in os.listdir(BUILD) if d.startswith(cfg + '-')),
                     key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
        for d in old[:-2]:
            shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        shutil.rmtree(bdir, ignore_errors=True)
        log = []
        for cmd in (['meson', 'setup', bdir, repo, '--buildtype=plain', '--wrap-mode=nodownload', '-Dwerror=false',
                     '-Dc_args=' + cargs] + opts,
                    ['ninja', '-C', bdir] + TARGETS.get(cfg, [])):
            r = subprocess.run(cmd, env=_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            log.append(r.stdout.decode('utf-8', 'replace'))
            if r.returncode != 0:
                sys.stderr.write(log[-1][-4000:])
                raise BuildError('%s failed' % cmd[0])
        open(marker, 'w').close()
        return bdir
    finally:
        lock.close()


def cc(out, sources, cflags=(), ldflags=(), deps=(), cfg=None, force=False):
    """compile harness sources; cached by content of inputs + flags (+ tree hash when it uses /repo headers)"""
    os.makedirs(os.path.join(BUILD, 'bin'), exist_ok=True)
    h = hashlib.sha256()
    for f in list(sources) + list(deps):
        with open(f, 'rb') as fd:
            h.update(fd.read() + b'\0')
    h.update(repr((cflags, ldflags, cfg)).encode())
    if cfg:
        h.update(tree_hash().encode())
    name = os.path.join(BUILD, 'bin', '%s-%s' % (out, h.hexdigest()[:16]))
    lock = open(os.path.join(BUILD, '.lock-bin-' + out), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(name) and not force:
            return name
        for f in os.listdir(os.path.join(BUILD, 'bin')):
            if f.startswith(out + '-') and len(f) == len(out) + 17:
                p = os.path.join(BUILD, 'bin', f)
                if time.time() - os.path.getmtime(p) > 6 * 3600:
                    os.unlink(p)
        tmp = name + '.tmp%d' % os.getpid()
        cmd = ['gcc'] + list(cflags) + ['-o', tmp] + list(sources) + list(ldflags)
        r = subprocess.run(cmd, env=_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            sys.stderr.write(r.stdout.decode('utf-8', 'replace')[-4000:])
            raise BuildError('compiling %s failed' % out)
        os.rename(tmp, name)
        return name
    finally:
        lock.close()


def pkg(*names):
    r = subprocess.run(['pkg-config', '--cflags', '--libs'] + list(names), stdout=subprocess.PIPE, check=True)
    return r.stdout.decode().split()


def harness(out, sources, cfg='asan', extra=(), deps=(), angel=False):
    """link a C harness against the libraries built from the current tree"""
    b = build(cfg)
    fl = ['-std=gnu99', '-D_GNU_SOURCE', '-DHAVE_CONFIG_H', '-D_FILE_OFFSET_BITS=64', '-g', '-fno-omit-frame-pointer', '-w',
          '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(b, 'include'), '-I' + b, '-I' + os.path.join(VERIF, 'harness')]
    if cfg == 'sched':
        fl = [f for f in fl if 'FILE_OFFSET' not in f] + ['-O1', '-U_FORTIFY_SOURCE', '-rdynamic']
    else:
        fl += CONFIGS[cfg][1].split()
    if cfg == 'asan':
        fl += ['-fsanitize=address']
    main = os.path.join(b, 'src', 'main'); common = os.path.join(b, 'src', 'common'); ang = os.path.join(b, 'src', 'angel')
    ld = list(extra) + ['-L' + main, '-L' + common, '-L' + ang]
    if angel:
        ld += ['-llighttpd2-sharedangel-2.0.0']
    else:
        ld += ['-llighttpd2-shared-2.0.0']
    ld += ['-llighttpd2-common-2.0.0', '-Wl,-rpath,' + main + ':' + common + ':' + ang]
    ld += pkg('glib-2.0', 'gthread-2.0', 'gmodule-2.0') + ['-lev', '-lm', '-ldl', '-lpthread']
    try:
        ld += pkg('lua5.1')
    except subprocess.CalledProcessError:
        pass
    return cc(out, sources, fl, ld, deps, cfg)


def lisim():
    return cc('lisim.so', [os.path.join(VERIF, 'sim', 'lisim.c')], ['-O2', '-g', '-Wall', '-shared', '-fPIC'], ['-Wl,--no-as-needed', '-lasan', '-ldl', '-lpthread'])


if __name__ == '__main__':
    for c in sys.argv[1:] or ['asan', 'sched']:
        t = time.time()
        print(build(c), '%.1fs' % (time.time() - t))
    print(lisim())
