"""C09: byte queues: every byte exactly once, in order, with exact accounting"""
import os
import vbuild


def run(ctx):
    exe = vbuild.harness('cq', [os.path.join(vbuild.VERIF, 'harness', 'cq.c')])
    env = {'CQDIR': ctx.tmp, 'ASAN_OPTIONS': 'detect_leaks=1:abort_on_error=0'}
    d = (4, 5, 4) if ctx.thorough else (3, 4, 3)
    P = 64 if ctx.thorough else 16
    ctx.rules.append('operation sequences on two queues (31 operations on each, both orders) compared with byte strings after every operation')
    ctx.cexplore('all operations', exe, [(d[0], 0, 0, p, P) for p in range(P)], env=env)
    ctx.cexplore('core operations, deeper', exe, [(d[1], 1, 0, p, P) for p in range(P)], env=env)
    ctx.cexplore('repeated splits of one chunk', exe, [(d[1] + (1 if ctx.thorough else 0), 3, 0, p, P) for p in range(P)], env=env)
    ctx.cexplore('interrupted, short and failing file reads', exe, [(d[2], 2, f, p, P // 8) for f in range(1, 9) for p in range(P // 8)], env=env)
