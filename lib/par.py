"""Runs proof tasks in forked processes, each with its own time limit; a task that dies or overruns is reported as undecided."""
import multiprocessing, time, traceback, os
def _main(conn, fn, args):
    try: r = ('ok', fn(*args))
    except BaseException as e: r = ('exc', (type(e).__name__, str(e), traceback.format_exc()[-2500:]))
    try: conn.send(r)
    except Exception as e: conn.send(('exc', ('send', str(e), '')))
    conn.close(); os._exit(0)
def par(tasks, limit, n=None):
    """tasks: [(name, fn, args)] -> {name: ('ok', result) | ('exc', (type, text, trace)) | ('timeout', None)}"""
    n = n or min(8, os.cpu_count() or 4); ctx = multiprocessing.get_context('fork'); todo = list(tasks); live = {}; out = {}
    while todo or live:
        while todo and len(live) < n:
            name, fn, args = todo.pop(0); a, b = ctx.Pipe(False); p = ctx.Process(target=_main, args=(b, fn, args)); p.start(); b.close(); live[name] = (p, a, time.time() + limit)
        for name in list(live):
            p, a, t = live[name]; done = False
            try:
                if a.poll(0.02): out[name] = a.recv(); done = True
                elif not p.is_alive() and not a.poll(0): out[name] = ('exc', ('died', 'the proof process ended (exit %s)' % p.exitcode, '')); done = True
                elif time.time() > t: out[name] = ('timeout', None); done = True
            except EOFError: out[name] = ('exc', ('died', 'the proof process ended', '')); done = True
            if done:
                p.kill(); p.join(); a.close(); del live[name]
    return out
