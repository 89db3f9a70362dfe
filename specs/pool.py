"""Model of multiprocessing.Pool (analysed, never executed)."""


def run_all(f, xs):
    raise NotImplementedError


class Pool:
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
        self.processes = processes

    def map(self, func, iterable, chunksize=None):
        return run_all(func, list(iterable))

    def imap(self, func, iterable, chunksize=None):
        return run_all(func, list(iterable))

    def starmap(self, func, iterable, chunksize=None):
        return run_all(lambda x: func(*x), list(iterable))

    def close(self):
        return None

    def join(self):
        return None

    def terminate(self):
        return None
