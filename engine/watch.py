"""A time and memory budget: an analysis step that does not get anywhere ends as "cannot be decided" instead of hanging the check."""
import ctypes
import os
import sys
import threading
import time
import core

STEP_S = float(os.environ.get("MN_STEP_S", "60"))      # of processor time for one function on one set of operands
TOTAL_S = float(os.environ.get("MN_TOTAL_S", "690"))    # for the whole check, after which it reports what it has
RSS = 14 << 30
_mark = [time.process_time()]


class OutOfBudget(core.TooBig):
    pass


def mark():
    _mark[0] = time.process_time()        # the compiler's runs do not count


def rss():
    try:
        with open("/proc/self/statm") as f:
            return int(f.read().split()[1]) * os.sysconf("SC_PAGE_SIZE")
    except OSError:
        return 0


def guard(tid, done, last_resort):
    """watch thread tid until done is set; last_resort() ends the check"""
    t0 = time.time()
    fired = 0
    mark()
    while not done.wait(2):
        if time.time() - t0 > TOTAL_S or rss() > 1.5 * RSS:
            last_resort()
        if time.process_time() - _mark[0] > STEP_S or (rss() > RSS and fired < 3):
            fired += 1
            mark()
            if os.environ.get("MN_DEV_TRACE"):
                import traceback
                st = traceback.extract_stack(sys._current_frames()[tid])
                sys.stderr.write("".join(traceback.format_list(st[:30] + st[-25:])))
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(tid), ctypes.py_object(OutOfBudget))


def start(last_resort):
    done = threading.Event()
    threading.Thread(target=guard, args=(threading.get_ident(), done, last_resort), daemon=True).start()
    return done
