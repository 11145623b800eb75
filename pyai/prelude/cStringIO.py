class StringIO(object):
    def __init__(self, buf=''):
        self.buf = buf
        self.pos = 0
        self.closed = False

    def __iter__(self):
        return self

    def next(self):
        line = self.readline()
        if not line:
            raise StopIteration
        return line

    def _check(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')

    def close(self):
        self.closed = True

    def flush(self):
        self._check()

    def isatty(self):
        return False

    def tell(self):
        self._check()
        return self.pos

    def seek(self, pos, mode=0):
        self._check()
        if mode == 1:
            pos += self.pos
        elif mode == 2:
            pos += len(self.buf)
        self.pos = max(0, pos)

    def read(self, n=-1):
        self._check()
        if n is None or n < 0:
            end = len(self.buf)
        else:
            end = min(self.pos + n, len(self.buf))
        out = self.buf[self.pos:end]
        self.pos = max(self.pos, end)
        return out

    def readline(self, length=None):
        self._check()
        i = self.buf.find('\n', self.pos)
        end = len(self.buf) if i < 0 else i + 1
        if length is not None and length >= 0 and self.pos + length < end:
            end = self.pos + length
        out = self.buf[self.pos:end]
        self.pos = end
        return out

    def readlines(self):
        return list(self)

    def write(self, s):
        self._check()
        if not s:
            return
        if not isinstance(s, basestring):
            s = str(s)
        if self.pos > len(self.buf):
            self.buf += '\0' * (self.pos - len(self.buf))
        self.buf = self.buf[:self.pos] + s + self.buf[self.pos + len(s):]
        self.pos += len(s)

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def truncate(self, size=None):
        if size is None:
            size = self.pos
        self.buf = self.buf[:size]

    def getvalue(self):
        return self.buf
