"""A simulated disk and process environment.

An in-memory file system with a crash model stands in for builtins.open,
io.open and the functions of the os module while a program runs. Everything
below ROOT (and every relative path: the simulated working directory is inside
ROOT) lives in memory; nothing the code under test does can reach the real
disk. Real absolute paths can be read (interpreter, library), never written.

Crash model
- kill: the process dies between two operations. What it passed to the kernel
  stays, what it still buffered is lost.
- power: in addition, directory operations since the last directory sync
  survive only up to a point in their order, and data of a file not synced
  since its last change may be missing, cut off or zeroed.
"""
import builtins
import errno
import io
import os
import stat as statmod

from .core import HarnessError, SimCrash, Violation

ROOT = '/simroot'
CWD = ROOT + '/work'


class Inode:
    __slots__ = ('data', 'synced', 'dirty', 'mode', 'isdir', 'ino',
        'pipe')

    def __init__(self, ino, isdir=False, mode=None):
        self.data = bytearray()
        self.synced = b''
        self.dirty = False
        self.isdir = isdir
        self.mode = mode if mode is not None else (0o755 if isdir else 0o644)
        self.ino = ino
        self.pipe = None              # list of read sizes: a named pipe


class Disk:
    """Contents of the simulated disk; survives simulated processes."""

    def __init__(self):
        self.n = 1000
        self.nodes = {}
        for d in (ROOT, CWD, ROOT + '/tmp', ROOT + '/out'):
            self.nodes[d] = self.inode(True)
        self.durable = dict(self.nodes)
        self.pending = []             # directory operations not synced yet

    def inode(self, isdir=False, mode=None):
        self.n += 1
        return Inode(self.n, isdir, mode)

    def put(self, path, data, pipe=None):
        """Set-up by the harness: present and durable. pipe: the path is a
        named pipe whose reads return at most these numbers of bytes."""
        if isinstance(data, str):
            data = data.encode('utf-8')
        path = full(path)
        n = self.inode()
        n.data = bytearray(data)
        n.synced = bytes(data)
        n.pipe = pipe
        self.nodes[path] = self.durable[path] = n

    def get(self, path):
        n = self.nodes.get(full(path))
        return None if n is None or n.isdir else bytes(n.data)

    def files(self, prefix=CWD):
        return {p: bytes(n.data) for p, n in sorted(self.nodes.items())
            if not n.isdir and p.startswith(prefix + '/')}

    def sync_all(self):
        for n in self.nodes.values():
            n.synced, n.dirty = bytes(n.data), False
        self.durable = dict(self.nodes)
        self.pending = []

    def _op(self, op):
        self.pending.append(op)

    @staticmethod
    def _apply(nodes, op):
        k = op[0]
        if k == 'link':
            nodes[op[1]] = op[2]
        elif k == 'unlink':
            nodes.pop(op[1], None)
        elif k == 'rename':
            n = nodes.pop(op[1], None)
            if n is not None:
                nodes[op[2]] = n

    def power_loss(self, pick):
        """pick(n, what) decides what had reached the platter."""
        keep = pick(len(self.pending) + 1, 'dirops')
        nodes = dict(self.durable)
        for op in self.pending[:keep]:
            self._apply(nodes, op)
        for n in sorted(set(nodes.values()), key=lambda n: n.ino):
            if n.isdir or not n.dirty:
                continue
            live = bytes(n.data)
            m = pick(5, 'data')
            if m == 0:
                n.data = bytearray(n.synced)
            elif m == 1:
                n.data = bytearray()
            elif m == 2:
                n.data = bytearray(live[:pick(len(live) + 1, 'cut')])
            elif m == 3:
                cut = pick(len(live) + 1, 'zero')
                n.data = bytearray(live[:cut] + bytes(len(live) - cut))
        self.nodes = nodes
        self.sync_all()


def full(path):
    path = os.fspath(path)
    if isinstance(path, bytes):
        path = path.decode('utf-8', 'surrogateescape')
    if not path.startswith('/'):
        path = CWD + '/' + path
    return os.path.normpath(path)


class Proc:
    """One simulated process: fault plan, open files, life status.

    faults: list of [op number, kind]; kinds: kill, power, ENOSPC, EIO, EACCES,
    short (a short write), fsyncfail.
    """

    def __init__(self, disk, ctx, faults=(), capacity=None):
        self.disk, self.ctx = disk, ctx
        self.faults = {int(a): b for a, b in faults}
        self.capacity = capacity      # bytes the disk still takes
        self.nop = 0
        self.dead = None
        self.cwd = CWD
        self.fds = {}
        self.nextfd = 700
        self.trace = []
        self.injected = []

    # one operation = one yield point where a fault may strike
    def op(self, name, path='', kinds=()):
        if self.dead:
            raise SimCrash(self.dead)
        self.nop += 1
        self.ctx.steps += 1
        self.trace.append((name, path))
        f = self.faults.get(self.nop)
        if f is None:
            return None
        if f in ('kill', 'power'):
            self.dead = f
            self.ctx.fault('crash-' + f)
            self.ctx.log('crash', f, 'at', self.nop, name)
            self.injected.append(f)
            raise SimCrash(f)
        if f in kinds:
            self.ctx.fault(f)
            self.ctx.log('fault', f, 'at', self.nop, name)
            self.injected.append(f)
            if f == 'short':
                return f
            raise OSError(getattr(errno, f if f != 'fsyncfail' else 'EIO'),
                'simulated ' + f, path or None)
        return None

    def path(self, p):
        if isinstance(p, int):
            return p
        p = os.fspath(p)
        if isinstance(p, bytes):
            p = p.decode('utf-8', 'surrogateescape')
        if not p.startswith('/'):
            p = self.cwd + '/' + p
        return os.path.normpath(p)

    @staticmethod
    def mine(p):
        return p == ROOT or p.startswith(ROOT + '/')

    def node(self, p):
        return self.disk.nodes.get(p)

    def need_parent(self, p):
        d = self.node(os.path.dirname(p))
        if d is None:
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory',
                p)
        if not d.isdir:
            raise NotADirectoryError(errno.ENOTDIR, 'Not a directory', p)


class RawFile(io.RawIOBase):
    def __init__(self, proc, node, path, readable, writable, append, name=None):
        super().__init__()
        self.proc, self.node_, self.path = proc, node, path
        self.r, self.w, self.a = readable, writable, append
        self.pos = len(node.data) if append else 0
        self.name = name if name is not None else path
        self.fd = proc.nextfd
        proc.nextfd += 1
        proc.fds[self.fd] = self
        self.mode = 'rb+' if readable and writable else 'wb' if writable \
            else 'rb'

    def readable(self):
        return self.r

    def writable(self):
        return self.w

    def seekable(self):
        return self.node_.pipe is None

    def _noseek(self):
        if self.node_.pipe is not None:
            raise io.UnsupportedOperation('underlying stream is not seekable')

    def fileno(self):
        return self.fd

    def isatty(self):
        return False

    def tell(self):
        self._noseek()
        return self.pos

    def seek(self, off, whence=0):
        self._noseek()
        self.pos = {0: 0, 1: self.pos, 2: len(self.node_.data)}[whence] + off
        return self.pos

    def readinto(self, b):
        if not self.r:
            raise io.UnsupportedOperation('not readable')
        self.proc.op('read', self.path, ('EIO',))
        n = len(b)
        if self.node_.pipe:
            self.nread = getattr(self, 'nread', -1) + 1
            n = min(n, max(1, self.node_.pipe[self.nread %
                len(self.node_.pipe)]))
        c = self.node_.data[self.pos:self.pos + n]
        b[:len(c)] = c
        self.pos += len(c)
        return len(c)

    def write(self, b):
        if not self.w:
            raise io.UnsupportedOperation('not writable')
        b = bytes(b)
        if self.proc.dead:
            return len(b)               # a dead process writes nothing
        f = self.proc.op('write', self.path, ('ENOSPC', 'EIO', 'short'))
        if f == 'short' and len(b) > 1:
            b = b[:len(b) // 2]
        cap = self.proc.capacity
        if cap is not None:
            if cap <= 0:
                self.proc.ctx.fault('disk-full')
                self.proc.injected.append('disk-full')
                raise OSError(errno.ENOSPC, 'simulated full disk', self.path)
            b = b[:cap]
            self.proc.capacity -= len(b)
        d = self.node_.data
        if self.a:
            self.pos = len(d)
        if len(d) < self.pos:
            d.extend(bytes(self.pos - len(d)))
        d[self.pos:self.pos + len(b)] = b
        self.pos += len(b)
        self.node_.dirty = True
        return len(b)

    def truncate(self, size=None):
        size = self.pos if size is None else size
        if self.proc.dead:
            return size
        self.proc.op('truncate', self.path, ('EIO',))
        d = self.node_.data
        if size < len(d):
            del d[size:]
        else:
            d.extend(bytes(size - len(d)))
        self.node_.dirty = True
        return size

    def sync(self):
        self.proc.op('fsync', self.path, ('fsyncfail', 'EIO', 'ENOSPC'))
        self.node_.synced = bytes(self.node_.data)
        self.node_.dirty = False

    def close(self):
        if not self.closed:
            self.proc.fds.pop(self.fd, None)
        super().close()


class DirFd:
    def __init__(self, path):
        self.path = path


class FS:
    """The patched functions for one process."""

    def __init__(self, proc):
        self.p = proc
        self.saved = []
        self.real = {}

    # ------------------------------------------------------------- open
    def _open_raw(self, path, r, w, create, excl, trunc, append, mode=0o666,
            name=None):
        p = self.p
        p.op('open-w' if w else 'open', path, ('ENOSPC', 'EIO', 'EACCES') if w
            else ('EIO', 'EACCES'))
        n = p.node(path)
        if n is None:
            if not create:
                raise FileNotFoundError(errno.ENOENT,
                    'No such file or directory', path)
            p.need_parent(path)
            n = p.disk.inode(mode=mode & ~0o022)
            p.disk.nodes[path] = n
            p.disk._op(('link', path, n))
        elif n.isdir:
            if w or create:
                raise IsADirectoryError(errno.EISDIR, 'Is a directory', path)
            raise IsADirectoryError(errno.EISDIR, 'Is a directory', path)
        elif excl:
            raise FileExistsError(errno.EEXIST, 'File exists', path)
        elif trunc:
            if n.data:
                n.dirty = True
            n.data = bytearray()
        return RawFile(p, n, path, r, w, append, name)

    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None,
            newline=None, closefd=True, opener=None):
        if isinstance(file, int):
            raw = self.p.fds.get(file)
            if raw is None:
                if file in (0, 1, 2):
                    return self.real['open'](file, mode, buffering, encoding,
                        errors, newline, closefd)
                raise OSError(errno.EBADF, 'Bad file descriptor')
            return self._wrap(raw, mode, buffering, encoding, errors, newline)
        path = self.p.path(file)
        if not self.p.mine(path):
            if any(c in mode for c in 'wax+') and path != os.devnull:
                raise HarnessError('write to a real path: %s' % path)
            return self.real['open'](file, mode, buffering, encoding, errors,
                newline, closefd, opener)
        base = mode.replace('b', '').replace('t', '')
        kind = [c for c in base if c in 'rwax']
        if len(kind) != 1 or 'b' in mode and (encoding or errors or newline):
            raise ValueError('invalid mode: %r' % mode)
        plus = '+' in base
        k = kind[0]
        if opener is not None:
            flags = {'r': os.O_RDONLY, 'w': os.O_WRONLY | os.O_CREAT |
                os.O_TRUNC, 'a': os.O_WRONLY | os.O_CREAT | os.O_APPEND,
                'x': os.O_WRONLY | os.O_CREAT | os.O_EXCL}[k]
            if plus:
                flags = flags & ~(os.O_WRONLY | os.O_RDONLY) | os.O_RDWR
            raw = self.p.fds[opener(file, flags)]
        else:
            raw = self._open_raw(path, k == 'r' or plus, k != 'r' or plus,
                k in 'wax', k == 'x', k == 'w', k == 'a', name=file)
        return self._wrap(raw, mode, buffering, encoding, errors, newline)

    def _wrap(self, raw, mode, buffering, encoding, errors, newline):
        if buffering == 0:
            return raw
        size = buffering if buffering > 1 else 8192
        if raw.r and raw.w:
            buf = io.BufferedRandom(raw, size)
        elif raw.w:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if 'b' in mode:
            return buf
        t = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline,
            line_buffering=buffering == 1)
        t.mode = mode
        return t

    # ------------------------------------------------------------- os
    def os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        fp = self.p.path(path)
        if not self.p.mine(fp):
            if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT) and \
                    fp != os.devnull:
                raise HarnessError('os.open for writing: %s' % path)
            return self.real['os.open'](path, flags, mode)
        n = self.p.node(fp)
        if n is not None and n.isdir:
            fd = self.p.nextfd
            self.p.nextfd += 1
            self.p.fds[fd] = DirFd(fp)
            return fd
        acc = flags & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
        raw = self._open_raw(fp, acc in (os.O_RDONLY, os.O_RDWR),
            acc in (os.O_WRONLY, os.O_RDWR), bool(flags & os.O_CREAT),
            bool(flags & os.O_EXCL), bool(flags & os.O_TRUNC),
            bool(flags & os.O_APPEND), mode)
        return raw.fd

    def _fd(self, fd):
        return self.p.fds.get(fd)

    def os_close(self, fd):
        f = self._fd(fd)
        if f is None:
            return self.real['os.close'](fd)
        if isinstance(f, DirFd):
            del self.p.fds[fd]
        else:
            f.close()

    def os_write(self, fd, data):
        f = self._fd(fd)
        if f is None:
            return self.real['os.write'](fd, data)
        return f.write(data)

    def os_read(self, fd, n):
        f = self._fd(fd)
        if f is None:
            return self.real['os.read'](fd, n)
        b = bytearray(n)
        k = f.readinto(b)
        return bytes(b[:k])

    def os_fsync(self, fd):
        if hasattr(fd, 'fileno'):
            fd = fd.fileno()
        f = self._fd(fd)
        if f is None:
            return self.real['os.fsync'](fd)
        if isinstance(f, DirFd):
            self.p.op('fsync', f.path, ('fsyncfail', 'EIO'))
            d = self.p.disk
            for op in d.pending:
                d._apply(d.durable, op)
            d.pending = []
        else:
            f.sync()

    def os_ftruncate(self, fd, n):
        self._fd(fd).truncate(n)

    def os_truncate(self, path, n):
        raw = self._open_raw(self.p.path(path), False, True, False, False,
            False, False)
        raw.truncate(n)
        raw.close()

    def os_rename(self, a, b, **kw):
        a, b = self.p.path(a), self.p.path(b)
        if not (self.p.mine(a) and self.p.mine(b)):
            raise HarnessError('rename of real path')
        self.p.op('rename', b, ('EIO', 'ENOSPC', 'EACCES'))
        n = self.p.node(a)
        if n is None:
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory',
                a)
        self.p.need_parent(b)
        d = self.p.disk
        del d.nodes[a]
        if n.isdir:
            for q in [q for q in d.nodes if q.startswith(a + '/')]:
                d.nodes[b + q[len(a):]] = d.nodes.pop(q)
        d.nodes[b] = n
        d._op(('rename', a, b))

    def os_remove(self, path, **kw):
        fp = self.p.path(path)
        if not self.p.mine(fp):
            raise HarnessError('remove of real path %s' % fp)
        self.p.op('unlink', fp, ('EIO', 'EACCES'))
        if self.p.node(fp) is None:
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory',
                fp)
        if self.p.node(fp).isdir:
            raise IsADirectoryError(errno.EISDIR, 'Is a directory', fp)
        del self.p.disk.nodes[fp]
        self.p.disk._op(('unlink', fp))

    def os_mkdir(self, path, mode=0o777, **kw):
        fp = self.p.path(path)
        if not self.p.mine(fp):
            raise HarnessError('mkdir of real path %s' % fp)
        self.p.op('mkdir', fp, ('EIO', 'ENOSPC', 'EACCES'))
        if self.p.node(fp) is not None:
            raise FileExistsError(errno.EEXIST, 'File exists', fp)
        self.p.need_parent(fp)
        n = self.p.disk.inode(True)
        self.p.disk.nodes[fp] = n
        self.p.disk._op(('link', fp, n))

    def os_rmdir(self, path, **kw):
        fp = self.p.path(path)
        if not self.p.mine(fp):
            raise HarnessError('rmdir of real path %s' % fp)
        self.p.op('rmdir', fp, ('EIO',))
        if any(q.startswith(fp + '/') for q in self.p.disk.nodes):
            raise OSError(errno.ENOTEMPTY, 'Directory not empty', fp)
        del self.p.disk.nodes[fp]
        self.p.disk._op(('unlink', fp))

    def os_link(self, a, b, **kw):
        a, b = self.p.path(a), self.p.path(b)
        self.p.op('link', b, ('EIO', 'ENOSPC', 'EACCES'))
        n = self.p.node(a)
        if n is None:
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory',
                a)
        if self.p.node(b) is not None:
            raise FileExistsError(errno.EEXIST, 'File exists', b)
        self.p.disk.nodes[b] = n
        self.p.disk._op(('link', b, n))

    def os_listdir(self, path='.'):
        fp = self.p.path(path)
        if not self.p.mine(fp):
            return self.real['os.listdir'](path)
        self.p.op('listdir', fp)
        if self.p.node(fp) is None:
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory',
                fp)
        return sorted(q[len(fp) + 1:] for q in self.p.disk.nodes
            if q.startswith(fp + '/') and '/' not in q[len(fp) + 1:])

    def _stat(self, path, key, *a, **kw):
        if isinstance(path, int):
            f = self._fd(path)
            if f is None:
                return self.real[key](path, *a, **kw)
            n = f.node_ if isinstance(f, RawFile) else self.p.node(f.path)
        else:
            fp = self.p.path(path)
            if not self.p.mine(fp):
                return self.real[key](path, *a, **kw)
            if self.p.dead:
                raise SimCrash(self.p.dead)
            n = self.p.node(fp)
            if n is None:
                raise FileNotFoundError(errno.ENOENT,
                    'No such file or directory', fp)
        m = (statmod.S_IFDIR if n.isdir else statmod.S_IFREG) | n.mode
        return os.stat_result((m, n.ino, 1, 1, 0, 0, len(n.data), 0, 0, 0))

    def os_stat(self, path, *, dir_fd=None, follow_symlinks=True):
        return self._stat(path, 'os.stat')

    def os_lstat(self, path, *, dir_fd=None):
        return self._stat(path, 'os.lstat')

    def os_fstat(self, fd):
        return self._stat(fd, 'os.fstat')

    def os_access(self, path, mode, **kw):
        fp = self.p.path(path)
        if not self.p.mine(fp):
            return self.real['os.access'](path, mode, **kw)
        return self.p.node(fp) is not None

    def os_readlink(self, path, **kw):
        fp = self.p.path(path)
        if not self.p.mine(fp):
            return self.real['os.readlink'](path)
        raise OSError(errno.EINVAL, 'Invalid argument', path)

    def os_chmod(self, path, mode, **kw):
        if isinstance(path, int):
            self._fd(path).node_.mode = mode & 0o7777
            return
        fp = self.p.path(path)
        if not self.p.mine(fp):
            raise HarnessError('chmod of real path %s' % fp)
        self.p.op('chmod', fp, ('EIO',))
        self.p.node(fp).mode = mode & 0o7777

    def os_chdir(self, path):
        fp = self.p.path(path)
        n = self.p.node(fp)
        if n is None:
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory',
                fp)
        if not n.isdir:
            raise NotADirectoryError(errno.ENOTDIR, 'Not a directory', fp)
        self.p.cwd = fp

    def os_utime(self, *a, **kw):
        pass

    def os_chown(self, *a, **kw):
        pass

    def os_getcwd(self):
        return self.p.cwd

    def os_getpid(self):
        return 4711

    def os_fdopen(self, fd, mode='r', buffering=-1, encoding=None, *a, **kw):
        return self.open(fd, mode, buffering, encoding, *a, **kw)

    def os_sync(self):
        self.p.op('sync')
        self.p.disk.sync_all()

    def denied(self, name):
        def f(*a, **kw):
            raise HarnessError('os.%s is not simulated' % name)
        return f

    def __enter__(self):
        self.real = {'open': builtins.open, 'os.open': os.open,
            'os.close': os.close, 'os.write': os.write, 'os.read': os.read,
            'os.fsync': os.fsync, 'os.listdir': os.listdir,
            'os.stat': os.stat, 'os.lstat': os.lstat, 'os.fstat': os.fstat,
            'os.access': os.access, 'os.readlink': os.readlink}
        osf = {}
        for a in dir(self):
            if a.startswith('os_'):
                osf[a[3:]] = getattr(self, a)
        osf['replace'] = self.os_rename
        osf['unlink'] = self.os_remove
        osf['fdatasync'] = self.os_fsync
        osf['fchmod'] = self.os_chmod
        for n in ('symlink', 'scandir', 'system', 'fork', 'execv', 'execve',
                'kill', 'posix_spawn', 'removexattr', 'sendfile', 'mkfifo'):
            osf[n] = self.denied(n)
        for k, v in osf.items():
            if hasattr(os, k):
                self.saved.append((os, k, getattr(os, k)))
                setattr(os, k, v)
        # shutil asks which functions support descriptors
        self._sets = []
        for o in (builtins, io):
            self.saved.append((o, 'open', o.open))
            o.open = self.open
        import tempfile
        self.saved.append((tempfile, 'tempdir', tempfile.tempdir))
        tempfile.tempdir = ROOT + '/tmp'
        self.saved.append((tempfile, '_name_sequence',
            tempfile._name_sequence))
        tempfile._name_sequence = iter('sim%05d' % i for i in range(99999))
        return self

    def __exit__(self, *a):
        for o, k, v in reversed(self.saved):
            setattr(o, k, v)
        self.saved = []
        return False
