class BytesIO(object):
    def __init__(self, initial_bytes=''):
        self.buf = str(initial_bytes)
        self.pos = 0
        self.closed = False

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()
        return False

    def __iter__(self):
        return self

    def next(self):
        line = self.readline()
        if not line:
            raise StopIteration
        return line

    def _check(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')

    def close(self):
        self.closed = True

    def flush(self):
        self._check()

    def readable(self):
        return True

    def writable(self):
        return True

    def seekable(self):
        return True

    def tell(self):
        self._check()
        return self.pos

    def seek(self, pos, whence=0):
        self._check()
        if whence == 1:
            pos += self.pos
        elif whence == 2:
            pos += len(self.buf)
        self.pos = max(0, pos)
        return self.pos

    def read(self, n=-1):
        self._check()
        if n is None or n < 0:
            end = len(self.buf)
        else:
            end = min(self.pos + n, len(self.buf))
        out = self.buf[self.pos:end]
        self.pos = max(self.pos, end)
        return out

    read1 = read

    def readline(self, limit=-1):
        self._check()
        i = self.buf.find('\n', self.pos)
        end = len(self.buf) if i < 0 else i + 1
        if limit is not None and 0 <= limit < end - self.pos:
            end = self.pos + limit
        out = self.buf[self.pos:end]
        self.pos = end
        return out

    def readlines(self, hint=None):
        return list(self)

    def write(self, b):
        self._check()
        if isinstance(b, unicode):
            raise TypeError("'unicode' does not have the buffer interface")
        if hasattr(b, 'tostring'):
            s = b.tostring()
        else:
            s = str(b)
        if not s:
            return 0
        if self.pos > len(self.buf):
            self.buf += '\0' * (self.pos - len(self.buf))
        self.buf = self.buf[:self.pos] + s + self.buf[self.pos + len(s):]
        self.pos += len(s)
        return len(s)

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def truncate(self, size=None):
        if size is None:
            size = self.pos
        self.buf = self.buf[:size]
        return size

    def getvalue(self):
        return self.buf
