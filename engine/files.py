"""Files with symbolic content (subclasses of the io base classes)."""
import io


class SText(io.TextIOBase):
    def __init__(self, content, seekable=True):
        self.c = content
        self.p = 0
        self._seek = seekable

    def read(self, n=-1):
        e = len(self.c) if n is None or n < 0 else min(len(self.c), self.p + n)
        r = self.c[self.p:e]
        self.p = e
        return r

    def seekable(self):
        return self._seek

    def readable(self):
        return True

    def tell(self):
        if not self._seek:
            raise io.UnsupportedOperation('tell')
        return self.p

    def seek(self, pos, whence=0):
        if not self._seek:
            raise io.UnsupportedOperation('seek')
        if whence == 0:
            self.p = pos
        elif whence == 1:
            self.p += pos
        else:
            self.p = len(self.c) + pos
        return self.p


class SRaw(io.RawIOBase):
    def __init__(self, content, seekable=True):
        self.c = content
        self.p = 0
        self._seek = seekable
    read = SText.read
    seekable = SText.seekable
    readable = SText.readable
    tell = SText.tell
    seek = SText.seek

    def readall(self):
        return self.read()
