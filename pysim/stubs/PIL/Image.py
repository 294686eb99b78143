"""stand-in for Pillow: a picture format of our own in place of JPEG (marker, height, width, channels, samples); pictures are read when needed"""
import builtins, os, struct
import numpy as np
NEAREST = NONE = 0
LANCZOS = ANTIALIAS = 1
BILINEAR = LINEAR = 2
BICUBIC = CUBIC = 3
BOX, HAMMING = 4, 5
class Resampling: NEAREST, LANCZOS, BILINEAR, BICUBIC, BOX, HAMMING = 0, 1, 2, 3, 4, 5
EXT = {'.jpg', '.jpeg', '.jpe', '.jfif', '.png', '.bmp', '.ppm', '.pgm'}

def encode(a): return b'\xff\xd8' + struct.pack('<3I', *(a.shape if a.ndim == 3 else a.shape + (1,))) + np.ascontiguousarray(a).tobytes() + b'\xff\xd9'
def decode(b):
    """-> array, or None if it is not a complete picture"""
    if len(b) < 14 or b[:2] != b'\xff\xd8': return None
    h, w, c = struct.unpack('<3I', b[2:14])
    if not (0 < h < 5000 and 0 < w < 5000 and c in (1, 3)) or len(b) != 16 + h * w * c or b[-2:] != b'\xff\xd9': return None
    return np.frombuffer(b[14:-2], np.uint8).reshape((h, w, c) if c > 1 else (h, w))
def lanczos(a, size):
    """not Lanczos, but every sample of the result depends on the whole neighbourhood and on the filter"""
    w, h = size; H, W = a.shape[:2]
    def grid(n, N): return [(i * N // n, max(i * N // n + 1, -(-(i + 1) * N // n))) for i in range(n)]
    o = np.zeros((h, w) + a.shape[2:], np.uint8)
    for i, (y0, y1) in enumerate(grid(h, H)):
        for j, (x0, x1) in enumerate(grid(w, W)): o[i, j] = a[y0:y1, x0:x1].reshape((-1,) + a.shape[2:]).astype(np.uint32).sum(axis=0) // ((y1 - y0) * (x1 - x0))
    return o

class Image:
    format = None
    def __init__(self, a=None, fp=None, size=None, mode='RGB', own=False): self._a = a; self._fp = fp; self._own = own; self.size = size or (a.shape[1], a.shape[0]); self.mode = mode; self.filename = ''; self.info = {}
    width = property(lambda s: s.size[0])
    height = property(lambda s: s.size[1])
    def load(self):
        if self._a is None:
            if self._fp is None: raise ValueError('Operation on closed image')
            self._fp.seek(0); b = self._fp.read(); a = decode(b)
            if self._own: self._fp.close()
            self._fp = None
            if a is None: raise OSError('image file is truncated')
            self._a = a
        return self
    def _new(self, a): return Image(np.ascontiguousarray(a), mode=self.mode)
    def copy(self): self.load(); return self._new(self._a)
    def convert(self, mode=None, **k):
        self.load(); a = self._a
        if mode in (None, self.mode): return self.copy()
        if mode == 'L': i = Image(a.astype(np.uint32).sum(axis=2).astype(np.uint8) // 3, mode='L')
        elif mode == 'RGB': i = Image(np.stack([a] * 3, axis=2), mode='RGB')
        else: raise ValueError('conversion not supported')
        return i
    def crop(self, box=None):
        self.load()
        if box is None: return self.copy()
        x0, y0, x1, y1 = (int(round(v)) for v in box); x1 = max(x0, x1); y1 = max(y0, y1); a = self._a; o = np.zeros((y1 - y0, x1 - x0) + a.shape[2:], np.uint8)
        X0, Y0, X1, Y1 = max(x0, 0), max(y0, 0), min(x1, a.shape[1]), min(y1, a.shape[0])
        if X1 > X0 and Y1 > Y0: o[Y0 - y0:Y1 - y0, X0 - x0:X1 - x0] = a[Y0:Y1, X0:X1]
        return self._new(o)
    def resize(self, size, resample=NEAREST, box=None, reducing_gap=None):
        size = tuple(int(v) for v in size)
        if len(size) != 2 or min(size) < 1: raise ValueError('height and width must be > 0')
        if box is not None: return self.crop(box).resize(size, resample)
        self.load()
        if size == self.size: return self.copy()
        if resample == LANCZOS: return self._new(lanczos(self._a, size))
        ys = [i * self._a.shape[0] // size[1] for i in range(size[1])]; xs = [j * self._a.shape[1] // size[0] for j in range(size[0])]
        return self._new(self._a[ys][:, xs])
    def save(self, fp, format=None, **params):
        self.load(); own = not hasattr(fp, 'write')
        if own and format is None and os.path.splitext(os.fspath(fp))[1].lower() not in EXT: raise ValueError('unknown file extension: ' + os.path.splitext(os.fspath(fp))[1])
        if min(self.size) < 1: raise SystemError('tile cannot extend outside image')
        b = encode(self._a); h = builtins.open(fp, 'w+b') if own else fp
        try:
            for i in range(0, len(b), 4096): h.write(b[i:i + 4096])
            if hasattr(h, 'flush'): h.flush()
        finally:
            if own: h.close()
    def close(self):
        if self._fp is not None and self._own: self._fp.close()
        self._fp = None
    def verify(self): self.load()
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
def open(fp, mode='r', formats=None):
    if mode != 'r': raise ValueError('bad mode %r' % mode)
    own = not hasattr(fp, 'read'); h = builtins.open(fp, 'rb') if own else fp
    try:
        h.seek(0); b = h.read(14)
        if len(b) < 14 or b[:2] != b'\xff\xd8': raise OSError('cannot identify image file %r' % (fp,))
        H, W, c = struct.unpack('<3I', b[2:14])
        if not (0 < H < 5000 and 0 < W < 5000 and c in (1, 3)): raise OSError('cannot identify image file %r' % (fp,))
    except BaseException:
        if own: h.close()
        raise
    i = Image(None, h, (W, H), 'L' if c == 1 else 'RGB', own); i.format = 'JPEG'; i.filename = fp if own else ''; return i
def fromarray(a, mode=None): return Image(np.array(a, np.uint8), mode='L' if np.ndim(a) == 2 else 'RGB')
def new(mode, size, color=0): return Image(np.zeros((size[1], size[0]) + (() if mode == 'L' else (3,)), np.uint8) + np.uint8(color), mode=mode)
