"""File objects that record, fail, tear and delay."""
import errno
import io


class Injected(OSError):
    pass


class Rec(io.BytesIO):
    """In-memory file. trace: list of (kind, position, payload) for every
    operation; fault: callable(kind, index of the operation) -> None, True
    (raise), an exception to raise, or a number of bytes to let through before raising."""

    def __init__(self, initial=b'', fault=None, delay=None):
        io.BytesIO.__init__(self, initial)
        self.initial = bytes(initial)
        self.trace = []
        self.fault, self.delay = fault, delay
        self.raised = 0
        self.on = True

    def _op(self, kind, payload, partial=None):
        if not self.on:
            return
        if self.delay:
            self.delay(kind)
        i = len(self.trace)
        f = self.fault(kind, i) if self.fault else None
        if f is None or f is False:
            self.trace.append((kind, io.BytesIO.tell(self), payload))
            return
        self.raised += 1
        if isinstance(f, BaseException):
            raise f
        if f is not True and partial is not None:
            part = partial(f)
            self.trace.append((kind, io.BytesIO.tell(self) - len(part), part))
        raise Injected(errno.EIO if kind == 'read' else errno.ENOSPC, 'injected ' + kind)

    def write(self, b):
        b = bytes(b)

        def part(n):
            io.BytesIO.write(self, b[:n])
            return b[:n]
        self._op('write', b, part)
        return io.BytesIO.write(self, b)

    def writelines(self, lines):
        for b in lines:
            self.write(b)

    def read(self, size=-1):
        self._op('read', size)
        return io.BytesIO.read(self, size)

    def read1(self, size=-1):
        return self.read(size)

    def readinto(self, b):
        self._op('read', len(b))
        return io.BytesIO.readinto(self, b)

    def seek(self, pos, whence=0):
        self._op('seek', (pos, whence))
        return io.BytesIO.seek(self, pos, whence)

    def tell(self):
        self._op('tell', None)
        return io.BytesIO.tell(self)

    def truncate(self, size=None):
        n = io.BytesIO.tell(self) if size is None else size
        self._op('truncate', n)
        return io.BytesIO.truncate(self, size)

    def flush(self):
        self._op('flush', None)

    def writes(self):
        return [t for t in self.trace if t[0] in ('write', 'truncate')]


def apply(img, w, n=None):
    """The file after one more (or the first n bytes of it) recorded write."""
    kind, pos, b = w
    if kind == 'truncate':
        return img[:b] + b'\0' * (b - len(img))
    if n is not None:
        b = b[:n]
    if not b:
        return img
    if pos > len(img):
        img += b'\0' * (pos - len(img))
    return img[:pos] + b + img[pos + len(b):]


def error(rng):
    """An error of some kind that a file operation may raise."""
    return rng.choice([
        lambda: BlockingIOError(errno.EAGAIN, 'injected'),
        lambda: InterruptedError(errno.EINTR, 'injected'),
        lambda: TimeoutError(errno.ETIMEDOUT, 'injected'),
        lambda: PermissionError(errno.EACCES, 'injected'),
        lambda: BrokenPipeError(errno.EPIPE, 'injected'),
        lambda: ConnectionResetError(errno.ECONNRESET, 'injected'),
        lambda: FileNotFoundError(errno.ENOENT, 'injected'),
        lambda: IsADirectoryError(errno.EISDIR, 'injected'),
        lambda: OSError(errno.EDQUOT, 'injected'), lambda: OSError(errno.ESTALE, 'injected'),
        lambda: OSError(errno.EFBIG, 'injected'), lambda: OSError('injected'),
        lambda: OSError(0, 'injected'), lambda: ValueError('injected'),
        lambda: EOFError('injected'), lambda: MemoryError('injected'),
        lambda: RuntimeError('injected'), lambda: KeyboardInterrupt('injected')])()


def at(indices, amount=True):
    """Fault at the operations of the given overall numbers."""
    indices = set(indices)
    return lambda kind, i: amount if i in indices else None


def nth(kinds, n, amount=True):
    """Fault at the n-th operation of these kinds and at all later ones."""
    seen = [0]

    def f(kind, i):
        if kind not in kinds:
            return None
        seen[0] += 1
        return amount if seen[0] > n else None
    return f


def once(kinds, n, amount=True):
    seen = [0]

    def f(kind, i):
        if kind not in kinds:
            return None
        seen[0] += 1
        return amount if seen[0] == n + 1 else None
    return f


class Extents(object):
    """A file of many gigabytes that keeps each distinct long write once.

    Overwritten parts are cut out; equal long writes share their memory."""

    SHARE = 2 ** 16

    def __init__(self, size_hint=0):
        self.ext = []           # [position, bytes] in order, not overlapping
        self.pos = 0
        self.pool = {}
        self.nwrites = 0

    def _find(self, pos):
        """Index of the first extent that ends behind pos."""
        lo, hi = 0, len(self.ext)
        while lo < hi:
            mid = (lo + hi) // 2
            if self.ext[mid][0] + len(self.ext[mid][1]) <= pos:
                lo = mid + 1
            else:
                hi = mid
        return lo

    def size(self):
        return self.ext[-1][0] + len(self.ext[-1][1]) if self.ext else 0

    def write(self, b):
        b = bytes(b)
        self.nwrites += 1
        if not b:
            return 0
        if len(b) >= self.SHARE:
            key = (len(b), hash(b[:64]), hash(b[-64:]))
            for old in self.pool.setdefault(key, []):
                if old == b:
                    b = old
                    break
            else:
                self.pool[key].append(b)
        start, end = self.pos, self.pos + len(b)
        i = self._find(start)
        j, keep = i, []
        while j < len(self.ext) and self.ext[j][0] < end:
            p, x = self.ext[j]
            if p < start:
                keep.append([p, x[:start - p]])
            if p + len(x) > end:
                keep.append([end, x[end - p:]])
            j += 1
        k = [e for e in keep if e[0] < start] + [[start, b]] + [e for e in keep if e[0] >= end]
        self.ext[i:j] = k
        self.pos = end
        return len(b)

    def read(self, size=-1):
        if size is None or size < 0:
            size = max(0, self.size() - self.pos)
        parts, left = [], size
        i = self._find(self.pos)
        while left > 0 and i < len(self.ext):
            p, x = self.ext[i]
            if p > self.pos:            # a hole reads as zeros
                n = min(left, p - self.pos)
                parts.append(bytes(n))
            else:
                a = self.pos - p
                n = min(left, len(x) - a)
                parts.append(x if n == len(x) else x[a:a + n])
                i += 1
            self.pos += n
            left -= n
        return parts[0] if len(parts) == 1 else b''.join(parts)

    def readinto(self, b):
        r = self.read(len(b))
        b[:len(r)] = r
        return len(r)

    def seek(self, pos, whence=0):
        pos += (0, self.pos, self.size())[whence]
        if pos < 0:
            raise ValueError('negative seek position')
        self.pos = pos
        return pos

    def tell(self):
        return self.pos

    def truncate(self, size=None):
        size = self.pos if size is None else size
        i = self._find(size)
        for p, x in self.ext[i:]:
            if p < size:
                self.ext[i:] = [[p, x[:size - p]]]
                return size
        del self.ext[i:]
        return size

    def flush(self):
        pass

    def close(self):
        pass

    def readable(self):
        return True

    writable = seekable = readable


class Repeat(object):
    """A source of n bytes: the given blocks over and over, the last one cut."""

    def __init__(self, blocks, n):
        self.blocks, self.n, self.pos = blocks, n, 0
        self.block = len(blocks[0])
        self.largest = 0

    def at(self, pos, size):
        size = max(0, min(size, self.n - pos))
        parts = []
        while size > 0:
            i, a = divmod(pos, self.block)
            x = self.blocks[i % len(self.blocks)]
            m = min(size, self.block - a)
            parts.append(x if m == self.block else x[a:a + m])
            pos += m
            size -= m
        return parts[0] if len(parts) == 1 else b''.join(parts)

    def read(self, size=-1):
        if size is None or size < 0:
            size = self.n - self.pos
        self.largest = max(self.largest, size)
        r = self.at(self.pos, size)
        self.pos += len(r)
        return r

    def tell(self):
        return self.pos

    def seek(self, pos, whence=0):
        self.pos = pos + (0, self.pos, self.n)[whence]
        return self.pos


class Compare(object):
    """A sink that compares what it is given with a Repeat and keeps nothing."""

    def __init__(self, source):
        self.source, self.pos, self.bad = source, 0, None

    def write(self, b):
        if self.bad is None and (b != self.source.at(self.pos, len(b))):
            self.bad = self.pos
        self.pos += len(b)
        return len(b)

    def tell(self):
        return self.pos

    def flush(self):
        pass
