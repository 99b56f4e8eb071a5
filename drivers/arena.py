"""Memory with unreadable pages on both sides, to place operands at chosen addresses."""
import ctypes, mmap
import numpy as np
_libc = ctypes.CDLL(None, use_errno=True)
_libc.mmap.restype = ctypes.c_void_p
_libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
_libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
PAGE = 4096
GUARD = 16 * PAGE


class Arena:
    def __init__(self, size):
        size = (size + PAGE - 1) // PAGE * PAGE
        total = size + 2 * GUARD
        p = _libc.mmap(None, total, mmap.PROT_READ | mmap.PROT_WRITE, mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS, -1, 0)
        if p in (None, ctypes.c_void_p(-1).value):
            raise MemoryError
        _libc.mprotect(p, GUARD, 0)
        _libc.mprotect(p + GUARD + size, GUARD, 0)
        self.addr, self.size = p + GUARD, size
        self.buf = np.frombuffer((ctypes.c_ubyte * size).from_address(self.addr), dtype=np.uint8)

    def view(self, dtype, n, start, stride):
        """n items of dtype, the first at byte start, stride bytes apart"""
        return np.ndarray((n,), dtype, self.buf, start, (stride,)) if n else np.ndarray((0,), dtype)
