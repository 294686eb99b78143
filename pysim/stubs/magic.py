"""stand-in for python-magic"""
def from_buffer(b, mime=False):
    for m, t, d in ((b'RIFF', 'audio/x-wav', 'RIFF data'), (b'\xff\xd8', 'image/jpeg', 'JPEG image data'), (b'P5', 'image/x-portable-greymap', 'Netpbm image data'), (b'\x89PNG', 'image/png', 'PNG image data')):
        if b.startswith(m): return t if mime else d
    return 'text/plain' if mime else 'ASCII text'
def from_file(p, mime=False):
    with open(p, 'rb') as f: return from_buffer(f.read(64), mime)
class Magic:
    def __init__(self, mime=False, **k): self.mime = mime
    def from_file(self, p): return from_file(p, self.mime)
