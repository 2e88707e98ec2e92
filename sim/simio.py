"""Simulated byte streams: short reads, non-seekable pipes, I/O errors,
truncation, text or binary view. Every read is a yield point."""
import errno
import io

from .core import Violation


class SimRaw(io.RawIOBase):
    """plan: {'seek': bool, 'short': [ints], 'eio': n-th read or None}"""

    def __init__(self, data, plan, ctx, on_read=None):
        super().__init__()
        self.data, self.pos, self.ctx = data, 0, ctx
        self.can_seek = bool(plan.get('seek', True))
        self.short = list(plan.get('short') or ())
        if self.can_seek and plan.get('kind') == 'raw':
            # reads of a regular file only end early at its end
            self.short = []
        self.eio = plan.get('eio')
        self.nread = 0
        self.eof = 0
        self.on_read = on_read

    def readable(self):
        return True

    def seekable(self):
        return self.can_seek

    def _noseek(self):
        if not self.can_seek:
            raise io.UnsupportedOperation('underlying stream is not seekable')

    def tell(self):
        self._noseek()
        return self.pos

    def seek(self, off, whence=0):
        self._noseek()
        self.pos = {0: 0, 1: self.pos, 2: len(self.data)}[whence] + off
        return self.pos

    def readinto(self, b):
        if self.on_read:
            self.on_read()
        self.nread += 1
        self.ctx.steps += 1
        if self.eio is not None and self.nread >= self.eio:
            self.ctx.fault('EIO-read')
            raise OSError(errno.EIO, 'simulated I/O error')
        n = len(b)
        if self.short:
            s = self.short[self.nread % len(self.short)]
            if s and s < n:
                n = s
                self.ctx.probe('short-reads')
        chunk = self.data[self.pos:self.pos + n]
        self.pos += len(chunk)
        b[:len(chunk)] = chunk
        if not chunk:
            self.eof += 1
            if self.eof > 2000:
                raise Violation('hang', 'endless reading at end of file')
        return len(chunk)


def open_stream(data, plan, ctx, on_read=None):
    """plan['kind']: text, buffered or raw; plan['skip']: the text before the
    data, which somebody has read already."""
    skip = plan.get('skip') or ''
    data = skip.encode('utf-8') + data
    raw = SimRaw(data, plan, ctx, on_read)
    kind = plan.get('kind', 'text')
    if kind == 'raw':
        fd = raw
    else:
        fd = io.BufferedReader(raw, max(1, plan.get('buf', 8192)))
        if kind != 'buffered':
            fd = io.TextIOWrapper(fd, encoding='utf-8')
    left = len(skip if kind == 'text' else skip.encode('utf-8'))
    while left > 0:
        left -= len(fd.read(left))
    return fd


def gen_stream_plan(rng, seek=None, kinds=('text', 'buffered', 'raw')):
    p = {'seek': rng.random() < 0.5 if seek is None else seek,
        'kind': rng.choice(kinds), 'buf': rng.choice([1, 7, 64, 512, 8192])}
    m = rng.randrange(3)
    if m == 1:
        p['short'] = [rng.randrange(1, 8) for _ in range(4)]
    elif m == 2:
        p['short'] = [rng.choice([1, 3, 17, 100, 1000, 0]) for _ in range(5)]
    return p
