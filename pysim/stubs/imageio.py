"""stand-in for imageio: PGM, and a picture format of our own in place of JPEG (marker, height, width, channels, samples)"""
import struct
import numpy as np
def imread(p, *a, **k):
    with open(p, 'rb') as f: b = f.read()
    if b.startswith(b'P5'):
        v = b.split(None, 4)[:4]; w, h = int(v[1]), int(v[2]); d = b[len(b) - w * h:]; return np.frombuffer(d, np.uint8).reshape(h, w)
    if b.startswith(b'\xff\xd8'):
        h, w, c = struct.unpack('<3I', b[2:14]); return np.frombuffer(b[14:14 + h * w * c], np.uint8).reshape((h, w, c) if c > 1 else (h, w))
    raise ValueError('unknown picture format')
class v2: imread = staticmethod(imread)
class v3: imread = staticmethod(imread)
import sys
sys.modules[__name__ + '.v2'], sys.modules[__name__ + '.v3'] = v2, v3
