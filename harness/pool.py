"""Run cases against the code under test in worker processes.

A worker that hangs, dies or exhausts memory is an observation about the case it was
running, never an error of the check.
"""
import multiprocessing as mp, os, resource, signal, sys, time, traceback

class CaseTimeout(BaseException):
    pass

def _alarm(*a):
    raise CaseTimeout()

def _worker(fn, conn, mem):
    import warnings
    warnings.simplefilter("ignore")
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1); os.dup2(dn, 2)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    except Exception:
        pass
    signal.signal(signal.SIGALRM, _alarm)
    while True:
        try:
            msg = conn.recv()
        except EOFError:
            return
        if msg is None:
            return
        i, case, tmo = msg
        try:
            signal.setitimer(signal.ITIMER_REAL, tmo)
            try:
                r = fn(case)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except CaseTimeout:
            r = "no answer within %ss" % tmo
        except MemoryError:
            r = "memory exhausted"
        except BaseException as e:
            r = "unexpected %s: %s" % (type(e).__name__, str(e)[:300]) + "\n" + \
                traceback.format_exc()[-1500:]
        try:
            conn.send((i, r))
        except Exception as e:
            conn.send((i, "unserialisable observation %r" % (e,)))

class _W(object):
    def __init__(self, ctx, fn, mem):
        self.conn, child = ctx.Pipe()
        self.p = ctx.Process(target=_worker, args=(fn, child, mem), daemon=True)
        self.p.start()
        child.close()
        self.busy = None

def run(fn, cases, timeout=20.0, procs=None, mem=6 << 30, stop_after=None, deadline=None):
    """[result-of-fn or message] per case; None/'' means the case agreed."""
    procs = procs or min(8, os.cpu_count() or 2, max(1, len(cases)))
    ctx = mp.get_context("fork")
    results = [None] * len(cases)
    done = 0
    ws = [_W(ctx, fn, mem) for _ in range(procs)]
    nxt = 0
    bad = 0
    n_to = 0
    ran = set()
    try:
        while done < len(cases):
            for k, w in enumerate(ws):
                if w.busy is None and nxt < len(cases) and \
                        not (stop_after and bad >= stop_after):
                    w.busy = (nxt, time.time())
                    # after many hangs, spend less on each further one
                    w.conn.send((nxt, cases[nxt], timeout if n_to < 8 else min(timeout, 3.0)))
                    nxt += 1
            if all(w.busy is None for w in ws):
                break
            mp.connection.wait([w.conn for w in ws if w.busy is not None] +
                               [w.p.sentinel for w in ws if w.busy is not None], timeout=1.0)
            for k, w in enumerate(ws):
                if w.busy is None:
                    continue
                i, t0 = w.busy
                got = None
                try:
                    if w.conn.poll():
                        got = w.conn.recv()
                except (EOFError, OSError):
                    got = (i, "worker died (crash)")
                if got is None and not w.p.is_alive():
                    got = (i, "worker died (crash, exit %s)" % w.p.exitcode)
                if got is None and time.time() - t0 > timeout + 15:
                    w.p.kill()
                    got = (i, "no answer within %ss (killed)" % timeout)
                if got is not None:
                    results[i] = got[1]
                    ran.add(i)
                    if isinstance(got[1], str) and got[1]:
                        bad += 1
                        if str(got[1]).startswith("no answer"):
                            n_to += 1
                    done += 1
                    w.busy = None
                    if not w.p.is_alive() or "killed" in str(got[1]) or "died" in str(got[1]):
                        try:
                            w.p.kill()
                        except Exception:
                            pass
                        ws[k] = _W(ctx, fn, mem)
    finally:
        for w in ws:
            try:
                w.p.kill()
            except Exception:
                pass
    return results, len(ran)
