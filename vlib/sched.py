"""Exhaustive exploration of thread interleavings of the real code (stateless model checking).

Every line of the traced source files is a scheduling point.  One execution starts with the library
loaded anew (fresh state); a controller lets exactly one thread run between two scheduling points.  All
schedules with at most `bound` preemptions are enumerated by depth-first search over the choices.
A thread that does not reach its next scheduling point in time is taken to wait for a lock, and
another thread runs; such an execution is still a real one, so timing cannot cause a false alarm.
"""
import io
import json
import logging
import os
import queue
import sys
import threading
import traceback


def isolated(func, cwd):
    """Run func() in its own directory with a fresh copy of the logging library and fresh loggers.

    Returns (value, console output).  The library is executed anew, so no state of an earlier
    execution is left, whatever the library calls it.
    """
    os.makedirs(cwd, exist_ok=True)
    old_cwd, old_home = os.getcwd(), os.environ.get('HOME')
    old_streams = sys.stdout, sys.stderr
    known = dict(logging.root.manager.loggerDict)
    handlers = list(logging.root.handlers)
    console = io.StringIO()
    for name in [n for n in sys.modules if n.startswith('qiskit.ignis.logging')]:
        del sys.modules[name]
    logging.setLoggerClass(logging.Logger)
    sys.stdout = sys.stderr = console
    os.chdir(cwd)
    os.environ['HOME'] = cwd
    try:
        value = json.loads(json.dumps(func()))
    finally:
        os.chdir(old_cwd)
        if old_home is None:
            del os.environ['HOME']
        else:
            os.environ['HOME'] = old_home
        sys.stdout, sys.stderr = old_streams
        logging.setLoggerClass(logging.Logger)
        logging.root.handlers[:] = handlers
        for name, logger in list(logging.root.manager.loggerDict.items()):
            if name not in known:
                del logging.root.manager.loggerDict[name]
        for ref in list(logging._handlerList):
            handler = ref()
            if isinstance(handler, logging.FileHandler):
                handler.close()
    return value, console.getvalue()


def execute(bodies, prefix, traced):
    """Run the thread bodies under the schedule prefix, then without preemption.

    Returns (trace, errors): trace = [(candidates, chosen, previous still runnable)].
    """
    events = queue.Queue()
    count = len(bodies)
    gates = [threading.Semaphore(0) for _ in range(count)]
    errors = []
    stop = [False]

    def worker(tid):
        def pause():
            if not stop[0]:
                events.put((tid, 'yield'))
                gates[tid].acquire()

        def local(_frame, event, _arg):
            if event == 'line':
                pause()
            return local

        def tracer(frame, _event, _arg):
            return local if frame.f_code.co_filename.startswith(traced) else None
        pause()
        sys.settrace(tracer)
        try:
            bodies[tid]()
        except BaseException:  # pylint: disable=broad-except
            errors.append(traceback.format_exc())
        finally:
            sys.settrace(None)
            events.put((tid, 'done'))

    threads = [threading.Thread(target=worker, args=(i,), daemon=True) for i in range(count)]
    for thr in threads:
        thr.start()
    ready, done = set(), set()
    while len(ready) < count:
        ready.add(events.get()[0])
    trace = []
    current = None
    while len(done) < count:
        if not ready:
            try:
                tid, what = events.get(timeout=60)
            except queue.Empty:
                errors.append('deadlock')
                break
            (done if what == 'done' else ready).add(tid)
            continue
        cand = sorted(ready)
        if len(trace) < len(prefix) and prefix[len(trace)] in ready:
            pick = prefix[len(trace)]
        elif current in ready:
            pick = current
        else:
            pick = cand[0]
        trace.append((cand, pick, current if current in ready else None))
        ready.discard(pick)
        current = pick
        gates[pick].release()
        try:
            while True:
                tid, what = events.get(timeout=0.02)
                (done if what == 'done' else ready).add(tid)
                if tid == pick:
                    break
        except queue.Empty:
            pass
    return trace, errors


def explore(once, bound, part=0, parts=1):
    """Enumerate schedules with at most `bound` preemptions.

    once(prefix) runs an execution and returns its trace; yields nothing, returns the number of
    executions.  part/parts: explore the share of the schedules whose first deviation from the
    default schedule is at a step congruent to part.
    """
    runs = 0
    stack = [([], 0)]
    while stack:
        prefix, cost = stack.pop()
        trace = once(prefix)
        runs += 1
        for step in range(len(prefix), len(trace)):
            if not prefix and step % parts != part:
                continue
            cand, pick, prev = trace[step]
            for alt in cand:
                if alt == pick:
                    continue
                extra = 1 if prev is not None and alt != prev else 0
                if cost + extra <= bound:
                    stack.append(([t[1] for t in trace[:step]] + [alt], cost + extra))
    return runs
