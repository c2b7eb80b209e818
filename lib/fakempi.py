"""Communicators for monitoring the distributed code without an MPI launcher.

Every rank is a thread.  A collective is a rendezvous: the last rank to arrive checks that
all ranks entered the *same* operation with compatible buffers and then performs it, so a
rank that skips, repeats or reorders a collective is seen (as a mismatch or as a deadlock),
and the sequence every rank performed is kept for the offline check.  The order in which
ranks proceed is perturbed by seeded sleeps.
"""
import random
import threading
import time

import numpy as np


class Op(object):
    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return self.name


SUM = Op("SUM", lambda xs: sum(xs[1:], xs[0]))
MAX = Op("MAX", lambda xs: np.maximum.reduce(xs))
MIN = Op("MIN", lambda xs: np.minimum.reduce(xs))


class _Const(object):
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


IN_PLACE, DOUBLE, COMPLEX16, INT, LONG = map(_Const, ["IN_PLACE", "DOUBLE", "COMPLEX16", "INT", "LONG"])
COMM_NULL = None


class MPIError(Exception):
    """What an MPI library would answer with an error (or undefined behaviour)."""


class Deadlock(Exception):
    pass


def _buf(spec):
    """(flat view, number of elements) of a mpi4py buffer specification."""
    count = None
    if isinstance(spec, (list, tuple)):
        arr = spec[0]
        for x in spec[1:]:
            if isinstance(x, (int, np.integer)) and not isinstance(x, bool):
                count = int(x)
            elif isinstance(x, (tuple, list)):
                raise MPIError("displacements are not supported here")
            elif not isinstance(x, (_Const, str)):
                raise MPIError("a count is an integer, not %r" % (x,))
    else:
        arr = spec
    if not isinstance(arr, np.ndarray):
        raise MPIError("not a buffer: %r" % (arr,))
    if not (arr.flags.c_contiguous or arr.flags.f_contiguous):
        raise MPIError("buffer is not contiguous")
    flat = arr.reshape(-1, order="A") if arr.flags.c_contiguous else arr.T.reshape(-1)
    if not np.shares_memory(flat, arr) and arr.size:
        raise MPIError("buffer is not contiguous")
    return flat, arr.size, count


class World(object):
    def __init__(self, size, seed=0, jitter=0., timeout=60.):
        self.size, self.timeout, self.jitter = size, timeout, jitter
        self.lock = threading.Condition()
        self.gen = 0
        self.slots = {}
        self.error = None
        self.result = None
        self.log = [[] for _ in range(size)]
        self.arrivals = []               # order in which the ranks reached the collectives
        self.rngs = [random.Random("%s/%s" % (seed, r)) for r in range(size)]

    def rendezvous(self, rank, name, payload, combine):
        if self.jitter:
            time.sleep(self.rngs[rank].random() * self.jitter)
        with self.lock:
            if self.error:
                raise self.error
            self.log[rank].append(name)
            self.arrivals.append(rank)
            self.slots[rank] = (name, payload)
            gen = self.gen
            if len(self.slots) == self.size:
                try:
                    names = {self.slots[r][0] for r in range(self.size)}
                    if len(names) != 1:
                        raise MPIError("ranks entered different collectives: %s"
                                       % {r: self.slots[r][0] for r in range(self.size)})
                    self.result = combine([self.slots[r][1] for r in range(self.size)])
                except Exception as e:
                    self.error = e
                self.slots = {}
                self.gen += 1
                self.lock.notify_all()
            else:
                end = time.time() + self.timeout
                while self.gen == gen and not self.error:
                    left = end - time.time()
                    if left <= 0:
                        self.error = Deadlock("rank %d waits in %s, present: %s" % (rank, name, sorted(self.slots)))
                        self.lock.notify_all()
                        break
                    self.lock.wait(left)
            if self.error:
                raise self.error
            return self.result[rank]

    def leave(self, rank):
        """Called when a rank finishes: nobody may be waiting for it."""
        with self.lock:
            self.log[rank].append("exit")
            if self.slots and not self.error and rank not in self.slots:
                self.error = Deadlock("rank %d ended while ranks %s wait in %s"
                                      % (rank, sorted(self.slots), sorted({s[0] for s in self.slots.values()})))
                self.lock.notify_all()


class Comm(object):
    def __init__(self, world=None, rank=0):
        self.world, self._rank = world or World(1), rank

    rank = property(lambda s: s._rank)
    size = property(lambda s: s.world.size)

    def Get_rank(self):
        return self._rank

    def Get_size(self):
        return self.world.size

    def _go(self, name, payload, combine):
        return self.world.rendezvous(self._rank, name, payload, combine)

    def Barrier(self):
        self._go("Barrier", None, lambda p: [None] * len(p))

    barrier = Barrier

    def Alltoall(self, send, recv):
        P = self.size
        sb, sn, sc = _buf(send)
        rb, rn, rc = _buf(recv)
        # mpi4py: a count given in a buffer specification is what goes to one rank.
        sc = sn // P if sc is None else sc
        rc = rn // P if rc is None else rc
        if sc * P > sn or rc * P > rn:
            raise MPIError("Alltoall: message exceeds the buffer (%d x %d > %d or %d x %d > %d)" % (sc, P, sn, rc, P, rn))
        if sb.dtype != rb.dtype:
            raise MPIError("Alltoall: types differ")
        src = sb[:sc * P].copy()

        def combine(p):
            if len({x[1] for x in p} | {x[2] for x in p}) != 1:
                raise MPIError("Alltoall: message sizes differ between ranks")
            return [np.concatenate([p[q][0][r * p[q][1]:(r + 1) * p[q][1]] for q in range(P)]) for r in range(P)]
        rb[:rc * P] = self._go("Alltoall", (src, sc, rc), combine)

    def Allgather(self, send, recv):
        P = self.size
        sb, sn, sc = _buf(send)
        rb, rn, rc = _buf(recv)
        sc = sn if sc is None else sc
        rc = rn // P if rc is None else rc
        if sc > sn or rc * P > rn:
            raise MPIError("Allgather: message exceeds the buffer")
        if sb.dtype != rb.dtype:
            raise MPIError("Allgather: types differ")

        def combine(p):
            if len({x[1] for x in p} | {x[2] for x in p}) != 1:
                raise MPIError("Allgather: message sizes differ between ranks")
            r = np.concatenate([x[0] for x in p])
            return [r] * len(p)
        rb[:rc * P] = self._go("Allgather", (sb[:sc].copy(), sc, rc), combine)

    def Allreduce(self, send, recv, op=SUM):
        rb, rn, rc = _buf(recv)
        if send is IN_PLACE:
            sb, sn, sc = rb, rn, rc
        else:
            sb, sn, sc = _buf(send)
        sc = sn if sc is None else sc
        rc = rn if rc is None else rc
        if sc > sn or rc > rn or sc != rc:
            raise MPIError("Allreduce: buffer sizes")
        if sb.dtype != rb.dtype:
            raise MPIError("Allreduce: types differ")

        def combine(p):
            if len({x.size for x in p}) != 1:
                raise MPIError("Allreduce: message sizes differ between ranks")
            r = op.f(p)
            return [r] * len(p)
        rb[:rc] = self._go("Allreduce/%s" % op, sb[:sc].copy(), combine)

    def Reduce(self, send, recv, op=SUM, root=0):
        sb, sn, sc = _buf(send) if send is not IN_PLACE else _buf(recv)
        r = self._go("Reduce/%s/%d" % (op, root), sb.copy(), lambda p: [op.f(p)] * len(p))
        if self._rank == root:
            _buf(recv)[0][:] = r

    def Bcast(self, buf, root=0):
        b, n, c = _buf(buf)
        b[:] = self._go("Bcast/%d" % root, b.copy(), lambda p: [p[root]] * len(p))

    def allreduce(self, x, op=SUM):
        return self._go("allreduce/%s" % op, x, lambda p: [op.f(p)] * len(p))

    def allgather(self, x):
        return self._go("allgather", x, lambda p: [list(p)] * len(p))

    def bcast(self, x, root=0):
        return self._go("bcast/%d" % root, x, lambda p: [p[root]] * len(p))

    def reduce(self, x, op=SUM, root=0):
        r = self._go("reduce/%s/%d" % (op, root), x, lambda p: [op.f(p)] * len(p))
        return r if self._rank == root else None

    def gather(self, x, root=0):
        r = self._go("gather/%d" % root, x, lambda p: [list(p)] * len(p))
        return r if self._rank == root else None


Intracomm = Comm
COMM_WORLD = Comm()
COMM_SELF = Comm()


def run(size, fn, seed=0, jitter=0., timeout=60.):
    """Run fn(comm) on every rank. Returns (list of results, list of exceptions, world)."""
    world = World(size, seed, jitter, timeout)
    res, exc = [None] * size, [None] * size

    def go(r):
        try:
            res[r] = fn(Comm(world, r))
        except BaseException as e:  # noqa: B902
            exc[r] = e
        finally:
            world.leave(r)
    ts = [threading.Thread(target=go, args=(r,)) for r in range(size)]
    order = list(range(size))
    random.Random("%s/start" % seed).shuffle(order)
    for r in order:
        ts[r].daemon = True
        ts[r].start()
    for t in ts:
        t.join(timeout + 30)
        if t.is_alive():
            raise Deadlock("a rank did not finish")
    return res, exc, world
