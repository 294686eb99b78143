__version__ = '6.1.0'
class UnidentifiedImageError(OSError): pass
from . import Image
