"""The part of mpi4py.MPI that yade uses, over the simulated network.  Objects are pickled as mpi4py does (protocol and buffer limits included)."""
import ctypes, pickle
from ysimlib import L
u64, vp = ctypes.c_uint64, ctypes.c_void_p
L.ysim_mpi_send.argtypes = [ctypes.c_char_p, u64, ctypes.c_int, ctypes.c_int]
L.ysim_mpi_isend.argtypes = [ctypes.c_char_p, u64, ctypes.c_int, ctypes.c_int]
L.ysim_mpi_isend.restype = vp
L.ysim_mpi_irecv.argtypes = [vp, u64, ctypes.c_int, ctypes.c_int]
L.ysim_mpi_irecv.restype = vp
L.ysim_mpi_wait.argtypes = [vp]
L.ysim_mpi_wait.restype = u64
L.ysim_mpi_test.argtypes = [vp]
L.ysim_mpi_data.argtypes = [vp]
L.ysim_mpi_data.restype = vp
L.ysim_mpi_free.argtypes = [vp]
ANY_SOURCE = ANY_TAG = -1
COLL = 1 << 20  # tags of collectives
DOUBLE, INT, LONG = 'd', 'i', 'l'
SUM = lambda a, b: a + b
MAX = lambda a, b: a if a >= b else b
MIN = lambda a, b: a if a <= b else b
LOR = lambda a, b: a or b
LAND = lambda a, b: a and b


class Exception(RuntimeError):
    pass


def _dump(o):
    return pickle.dumps(o, protocol=pickle.HIGHEST_PROTOCOL)


class Request(object):
    def __init__(self, q, cap=None, send=False):
        self.q, self.cap, self.send, self.done, self.val = q, cap, send, False, None

    def wait(self, status=None):
        if self.done:
            return self.val
        n = L.ysim_mpi_wait(self.q)
        if not self.send:
            if self.cap is not None and n > self.cap:
                raise Exception('MPI_ERR_TRUNCATE: message truncated (%d bytes, buffer of %d)' % (n, self.cap))
            self.val = pickle.loads(ctypes.string_at(L.ysim_mpi_data(self.q), n))
        L.ysim_mpi_free(self.q)
        self.done = True
        return self.val
    Wait = wait

    def test(self, status=None):
        if self.done or L.ysim_mpi_test(self.q):
            return (True, self.wait())
        return (False, None)

    @staticmethod
    def waitall(l, statuses=None):
        return [r.wait() for r in l]
    Waitall = waitall


class Comm(object):
    def Get_rank(self):
        return L.ysim_mpi_rank()

    def Get_size(self):
        return L.ysim_mpi_size()
    rank = property(Get_rank)
    size = property(Get_size)

    def send(self, obj, dest, tag=0):
        b = _dump(obj)
        L.ysim_mpi_send(b, len(b), dest, tag)
    ssend = bsend = send

    def isend(self, obj, dest, tag=0):
        b = _dump(obj)
        return Request(L.ysim_mpi_isend(b, len(b), dest, tag), send=True)

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        return Request(L.ysim_mpi_irecv(None, 0, source, tag)).wait()

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        cap = 1 << 15 if buf is None else buf if isinstance(buf, int) else len(buf)
        return Request(L.ysim_mpi_irecv(None, 0, source, tag), cap)

    def bcast(self, obj=None, root=0):
        r, n = self.rank, self.size
        if r == root:
            for k in range(n):
                if k != root:
                    self.send(obj, k, COLL)
            return obj
        return self.recv(source=root, tag=COLL)

    def gather(self, obj, root=0):
        r, n = self.rank, self.size
        if r == root:
            return [obj if k == root else self.recv(source=k, tag=COLL + 1) for k in range(n)]
        self.send(obj, root, COLL + 1)

    def scatter(self, obj=None, root=0):
        r, n = self.rank, self.size
        if r == root:
            for k in range(n):
                if k != root:
                    self.send(obj[k], k, COLL + 2)
            return obj[root]
        return self.recv(source=root, tag=COLL + 2)

    def allgather(self, obj):
        return self.bcast(self.gather(obj, 0), 0)

    def reduce(self, obj, op=SUM, root=0):
        l = self.gather(obj, root)
        if l is not None:
            v = l[0]
            for x in l[1:]:
                v = op(v, x)
            return v

    def allreduce(self, obj, op=SUM):
        return self.bcast(self.reduce(obj, op, 0), 0)

    def barrier(self):
        self.allgather(None)
    Barrier = barrier

    # buffers (numpy)
    def Send(self, buf, dest, tag=0):
        a = buf[0] if isinstance(buf, (list, tuple)) else buf
        self.send(a, dest, tag)

    def Recv(self, buf, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        a = buf[0] if isinstance(buf, (list, tuple)) else buf
        v = self.recv(source=source, tag=tag)
        if v.size > a.size:
            raise Exception('MPI_ERR_TRUNCATE: message truncated')
        a.flat[:v.size] = v.flat

    def Gather(self, s, r, root=0):
        l = self.gather(s, root)
        if l is not None:
            k = 0
            for x in l:
                for y in x.flat:
                    r.flat[k] = y
                    k += 1

    def Gatherv(self, s, r, root=0):
        data, n = s[0], int(s[1])
        if n > data.size:
            raise Exception('Gatherv: send count %d exceeds the buffer (%d)' % (n, data.size))
        l = self.gather(data.flat[:n].copy() if n else data.flat[:0].copy(), root)
        if l is not None:
            buf, counts, dspl = r[0], r[1], r[2]
            for k, x in enumerate(l):
                if x.size > counts[k]:
                    raise Exception('MPI_ERR_TRUNCATE: Gatherv got %d values from rank %d, expected %d' % (x.size, k, counts[k]))
                buf[dspl[k]:dspl[k] + x.size] = x
    # aliases
    Bcast = None


COMM_WORLD = Comm()


def Finalize():
    pass
