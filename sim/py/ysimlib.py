"""ctypes bindings of libysim (PyDLL: called with the GIL held)."""
import ctypes, os
B = os.environ['YSIM_BUILD']
L = ctypes.PyDLL(B + '/libysim.so')
u64, dbl, i64, u32, vp = ctypes.c_uint64, ctypes.c_double, ctypes.c_int64, ctypes.c_uint32, ctypes.c_void_p
KINDS = ['mem', 'sync', 'pick', 'wake', 'clock', 'io', 'user', 'spurious']
IOF = {1: 'open_fail', 2: 'write_enospc', 3: 'write_eio', 4: 'write_short', 5: 'read_eio', 6: 'read_short', 7: 'close_eio', 8: 'fsync_eio', 9: 'eintr', 10: 'read_eof'}
NET0 = 32  # fault slots of the simulated network (mpisim.c)
MAXREC = 400000


class Rec(ctypes.Structure):
    _fields_ = [('kind', u32), ('val', ctypes.c_int32), ('idx', u64)]


class Shared(ctypes.Structure):
    _fields_ = [(n, u64) for n in 'hash switches syncs mems steps simns mutexblocks deadlock livelock hang'.split()] + \
        [('cnt', u64 * 8), ('faults', u64 * 64)] + \
        [(n, u64) for n in 'preempt_mem preempt_sync conflicts parallel_regions chunks threads_created spurious clockjumps stallpicks'.split()] + \
        [('memerr', u64), ('memerr_msg', ctypes.c_char * 512), ('nrec', u64), ('rec_overflow', u64), ('msg', ctypes.c_char * 4096), ('rec', Rec * MAXREC)]


L.ysim_shared_new.restype = vp
L.ysim_shared_clear.argtypes = [vp]
L.ysim_start.argtypes = [vp, u64]
L.ysim_policy.argtypes = [dbl] * 7
L.ysim_serve.restype = u64
L.ysim_limits.argtypes = [u64, u64]
L.ysim_replay.argtypes = [ctypes.POINTER(Rec), u64]
L.ysim_io.argtypes = [ctypes.c_char_p, dbl, u32, u64, i64]
L.ysim_io_faults.restype = u64
L.ysim_crash_after.argtypes = [i64]
L.ysim_now.restype = u64
L.ysim_realtime_ns.restype = i64
L.ysim_advance.argtypes = [i64]
L.ysim_clock_jump.argtypes = [i64]
L.ysim_choose.argtypes = [ctypes.c_int, dbl]
L.ysim_hash_mix.argtypes = [u64]
L.ysim_disk_left.restype = i64


def new_shared():
    p = L.ysim_shared_new()
    return p, Shared.from_address(p)
