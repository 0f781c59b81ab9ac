"""Forked workers (the analysis is CPU bound Python)."""
import multiprocessing as mp
import os
import sys
import threading
import traceback

WORKERS = int(os.environ.get("VERIF_JOBS", "8"))


def pmap(f, items, workers=None):
    """[f(x) for x in items] in forked children; an exception becomes ('exc', text)"""
    items = list(items)
    w = min(workers or WORKERS, len(items))
    if w <= 1:
        return [safe(f, x) for x in items]
    ctx = mp.get_context("fork")
    nxt = ctx.Value("i", 0)
    procs = []
    pipes = []

    def child(wr):
        threading.stack_size(1024 * 1024 * 1024)

        def go():
            sys.setrecursionlimit(60000)
            while True:
                with nxt.get_lock():
                    i = nxt.value
                    nxt.value += 1
                if i >= len(items):
                    break
                wr.send((i, safe(f, items[i])))
            wr.send(None)
        t = threading.Thread(target=go)
        t.start()
        t.join()
        wr.close()
        sys.stdout.flush()
        os._exit(0)
    for _ in range(w):
        rd, wr = ctx.Pipe(False)
        p = ctx.Process(target=child, args=(wr,))
        p.start()
        wr.close()
        procs.append(p)
        pipes.append(rd)
    res = [("exc", "worker died")] * len(items)
    from multiprocessing.connection import wait
    live = list(pipes)
    while live:
        for c in wait(live):
            try:
                m = c.recv()
            except EOFError:
                m = None
            if m is None:
                live.remove(c)
            else:
                res[m[0]] = m[1]
    for p in procs:
        p.join()
    return res


def safe(f, x):
    if os.environ.get("VERIF_TIME"):
        import time
        t = time.time()
        try:
            return ("ok", f(x))
        except Exception as e:
            return ("exc", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:]))
        finally:
            print("item %.2f s" % (time.time() - t), str(x)[-150:], flush=True)
    try:
        return ("ok", f(x))
    except Exception as e:
        return ("exc", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:]))
