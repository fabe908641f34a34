"""Fake sockets: the network as the contracts see it."""


class StreamSocket:
    """a connection from which `data` can be read, in pieces of any size; then the end of the stream, or the
    connection fails"""

    def __init__(self, g, data, fails=False):
        self.g = g
        self.data = data
        self.fails = fails
        self.pos = 0

    def settimeout(self, t):
        pass

    def __str__(self):
        return 'a connection'

    def recv(self, n):
        left = len(self.data) - self.pos
        if left <= 0 or n <= 0:
            if self.fails and n > 0:
                raise ConnectionResetError('connection reset')
            return b''
        k = 1
        if n > 1 and left > 1:
            k = self.g.draw(1, min(n, left))
        p = self.pos
        self.pos = p + k
        return self.data[p:p + k]


class SinkSocket:
    """a connection that accepts any part of what it is given; `n` bytes of `expected` were accepted, and `ok` tells
    whether everything handed to it so far was the right part of `expected`"""

    def __init__(self, g, expected, whole=False, fails=False):
        self.g = g
        self.whole = whole
        self.fails = fails
        self.expected = expected
        self.n = 0
        self.ok = True

    def __str__(self):
        return 'a connection'

    def send(self, data):
        if self.fails and self.g.draw(0, 3) == 0:
            raise ConnectionResetError('connection reset')
        k = self.g.draw(1, len(data)) if len(data) > 1 and not self.whole else len(data)
        if not (data[:k] == self.expected[self.n:self.n + k]):
            self.ok = False
        self.n = self.n + k
        return k
