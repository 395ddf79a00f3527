"""C22: work handed between threads (harness/conc.c: stateless exploration of all schedules with a bounded number of preemptions)"""
import vbuild

HEAVY_FETCH = (21, 23)
BACKEND = [0, 16, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 256, 272, 288, 512, 528, 544, 560, 768, 784, 1, 17, 33, 2, 18, 34, 20, 36, 24]


def tasks(th):
    L = []                         # (weight, args)

    def add(sc, v, b, shards=1, w=1):
        for s in range(shards):
            L.append((w, (sc, v, b, s, shards)))
    for v in range(20):
        add('job', v, 3 if th else 2)
    for v in range(28):
        add('tasklet', v, 3 if th else 2, 4 if th else 1, 2)
    for v in range(8):
        add('mempool', v, 3 if th else 2, 4 if th else 1)
    for v in range(16):
        add('throttle', v, 4 if th else 3)
    for v in range(32):
        if v in HEAVY_FETCH:
            add('fetch', v, 2 if th else 1, 16 if th else 1, 9)
        elif v in (3, 7, 19, 29, 31):
            add('fetch', v, 2, 8, 8)
        else:
            add('fetch', v, 3 if th and not v & 1 else 2, 4 if th else 1, 6)
    for v in range(64):
        n = v & 3
        if n == 3:
            continue
        two = v & 32
        if n < 2:
            add('collect', v, 3 if th else 2, 4 if th else 1, 2)
            if not v & 12:
                add('shutdown', v, 3 if th else 2, 4 if th else 1, 2)
        else:
            add('collect', v, 2 if th else 1, 8 if th else 1, 9)
            if not v & 12:
                if two:
                    add('shutdown', v, 2 if th else 1, 16 if th else 1, 9)
                else:
                    add('shutdown', v, 2, 8, 9)
    for v in BACKEND:
        light = v & 0x30 in (0, 0x30) and not v & 64
        add('backend', v + 1024, 2 if th or light and v in (0, 48, 128) else 1, 8 if th or v in (80, 96) else 1, 7)
    for v in (0, 48, 128):         # the pool is used for the first time
        add('backend', v, 1, 1, 5)
    L.sort(key=lambda x: -x[0])
    return [a for w, a in L]


def run(ctx):
    exe = vbuild.harness('conc', ['harness/conc.c'], cfg='sched')
    by = {}
    for a in tasks(ctx.thorough):
        by.setdefault(a[0], []).append(a)
    for sc in ('fetch', 'shutdown', 'collect', 'backend', 'tasklet', 'mempool', 'job', 'throttle'):
        ctx.cexplore(sc, exe, by[sc])
