"""Notices code which does not come back (without using the solver)"""

import signal

from . import engine as E


LIMIT = 30    # seconds of processor time in Python code without any query
LIMIT_PATH = 240    # the same, with queries, for a single path


class Watchdog:

    def __init__(self, eng):
        self.eng = eng
        self.last = None
        self.n = self.n_path = 0

    def start(self):
        """To be called again in a forked process (timers are not kept)"""
        signal.signal(signal.SIGVTALRM, self._tick)
        signal.setitimer(signal.ITIMER_VIRTUAL, 1, 1)

    def stop(self):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)

    def _tick(self, signum, frame):
        # time spent in one query counts as (at most) one tick
        st = self.eng.stats
        now = id(st), st.paths, st.queries, st.checks
        if self.last is None or now[:2] != self.last[:2]:
            self.n = self.n_path = 0
        elif now != self.last:
            self.n = 0
        self.last = now
        self.n += 1
        self.n_path += 1
        if self.n > LIMIT or self.n_path > LIMIT_PATH:
            raise self.eng._err(E.Hang('code does not end'))
