"""
Runs pygcode-norm / pygcode-crop, real code, on simulated files and standard streams.

The script sees ordinary text streams; underneath, raw I/O is a simulated device
which reads and writes in pieces, is interrupted, and fails, as planned:

  plan = {
    'via': 'file' | 'stdin',
    'rbuf': n, 'wbuf': n, 'line_buffering': bool,      buffer sizes
    'reads': [n, ...], 'writes': [n, ...],             sizes of raw transfers (cyclic)
    'eintr_r': [i, ...], 'eintr_w': [i, ...],          raw transfers interrupted by a signal
    'rfail': [byte, errno], 'wfail': [byte, errno, times],   failure once that many bytes are through
    'flush_fail': errno,                               the device fails when closed / synced at the end
    'open_fail': errno,
  }
"""
import builtins
import errno
import io
import os
import sys

from . import env

PATH = '/simulated/program.nc'


class Device(object):
    """what happened to a simulated device"""
    def __init__(self):
        self.calls = 0
        self.failed = 0
        self.short = 0
        self.eintr = 0


class RawIn(io.RawIOBase):
    def __init__(self, data, plan, dev):
        io.RawIOBase.__init__(self)
        self.data = data
        self.at = 0
        self.dev = dev
        self.sizes = plan.get('reads') or [1 << 20]
        self.eintr = set(plan.get('eintr_r') or ())
        self.fail = plan.get('rfail')

    def readable(self):
        return True

    def readinto(self, b):
        i = self.dev.calls
        self.dev.calls += 1
        if i in self.eintr:
            self.dev.eintr += 1
            raise InterruptedError(errno.EINTR, 'Interrupted system call')
        n = min(len(b), max(1, self.sizes[i % len(self.sizes)]), len(self.data) - self.at)
        if self.fail is not None:
            if self.at >= self.fail[0]:
                self.dev.failed += 1
                raise OSError(self.fail[1], os.strerror(self.fail[1]))
            n = min(n, self.fail[0] - self.at)
        if n < min(len(b), len(self.data) - self.at):
            self.dev.short += 1
        b[:n] = self.data[self.at:self.at + n]
        self.at += n
        return n


class RawOut(io.RawIOBase):
    def __init__(self, plan, dev):
        io.RawIOBase.__init__(self)
        self.data = bytearray()
        self.dev = dev
        self.sizes = plan.get('writes') or [1 << 20]
        self.eintr = set(plan.get('eintr_w') or ())
        self.fail = plan.get('wfail')
        self.left = self.fail[2] if self.fail else 0

    def writable(self):
        return True

    def write(self, b):
        i = self.dev.calls
        self.dev.calls += 1
        if i in self.eintr:
            self.dev.eintr += 1
            raise InterruptedError(errno.EINTR, 'Interrupted system call')
        b = bytes(b)
        n = min(len(b), max(1, self.sizes[i % len(self.sizes)]))
        if self.fail is not None and self.left:
            if len(self.data) >= self.fail[0]:
                self.left -= 1
                self.dev.failed += 1
                raise OSError(self.fail[1], os.strerror(self.fail[1]))
            n = min(n, self.fail[0] - len(self.data))
        if n < len(b):
            self.dev.short += 1
        self.data += b[:n]
        return n


class HardExit(BaseException):
    """os._exit() was called: nothing after it counts"""


class Result(object):
    def __init__(self):
        self.out = b''
        self.err = ''
        self.status = None
        self.raised = None          # name of the exception that ended the script
        self.touched = []           # attempts to alter the input, or write elsewhere
        self.reader = Device()
        self.writer = Device()
        self.pending = None

    @property
    def text(self):
        return self.out.decode('utf-8', 'surrogateescape')

    @property
    def lines(self):
        t = self.text
        if not t:
            return []
        return (t[:-1] if t.endswith('\n') else t).split('\n')


def run(name, args, text, plan=None):
    """
    Run a script; its input is named by '@' in args.  text: str or bytes
    """
    plan = plan or {}
    data = text if isinstance(text, bytes) else text.encode('utf-8', 'surrogatepass')
    res = Result()
    via = plan.get('via', 'file')
    argv = [name] + [(PATH if via == 'file' else '-') if a == '@' else a for a in args]

    real_open = builtins.open
    real_os_open = os.open
    raw_out = RawOut(plan, res.writer)
    wbuf = max(1, plan.get('wbuf') or 8192)
    rbuf = max(1, plan.get('rbuf') or 8192)
    out_buffer = io.BufferedWriter(raw_out, wbuf)
    stdout = io.TextIOWrapper(out_buffer, encoding='utf-8', errors='strict', newline='\n',
                              line_buffering=bool(plan.get('line_buffering')))
    stderr = io.StringIO()
    stdin_data = data if via == 'stdin' else b''
    stdin = io.TextIOWrapper(io.BufferedReader(RawIn(stdin_data, plan, res.reader), rbuf), encoding='utf-8',
                             errors='strict', newline='\n')

    def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if isinstance(file, (str, bytes, os.PathLike)):
            path = os.fsdecode(file)
        else:
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if set(mode) & set('wax+'):
            res.touched.append('open(%r, %r)' % (path, mode))
            if path == PATH or path.startswith('/simulated/'):
                raise OSError(errno.EROFS, os.strerror(errno.EROFS), path)
            raise OSError(errno.EACCES, os.strerror(errno.EACCES), path)
        if path == PATH and via == 'file':
            if plan.get('open_fail'):
                res.reader.failed += 1
                raise OSError(plan['open_fail'], os.strerror(plan['open_fail']), path)
            buf = io.BufferedReader(RawIn(data, plan, res.reader), rbuf)
            if 'b' in mode:
                return buf
            return io.TextIOWrapper(buf, encoding=encoding or 'utf-8', errors=errors, newline=newline)
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)

    def sim_os_open(path, flags, *largs, **kw):
        p = os.fsdecode(path) if isinstance(path, (str, bytes, os.PathLike)) else ''
        if p.startswith('/simulated/') or flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
            res.touched.append('os.open(%r, %d)' % (p, flags))
            raise OSError(errno.EROFS, os.strerror(errno.EROFS), p)
        return real_os_open(path, flags, *largs, **kw)

    def forbid(fname):
        def refuse(*largs, **kw):
            res.touched.append('%s%r' % (fname, largs))
            raise OSError(errno.EROFS, os.strerror(errno.EROFS))
        return refuse

    gone = []

    def sim_exit(code):
        if not gone:
            gone.extend([code & 0xff, bytes(raw_out.data)])
        raise HardExit()

    removers = ('remove', 'unlink', 'rename', 'replace', 'truncate', 'rmdir', 'link', 'symlink', 'chmod', 'mkdir')
    saved_os = dict((f, getattr(os, f)) for f in removers + ('_exit',))
    saved = (sys.argv, sys.stdin, sys.stdout, sys.stderr)
    status = 0
    try:
        builtins.open = sim_open
        io.open = sim_open
        os.open = sim_os_open
        for f in removers:
            setattr(os, f, forbid('os.' + f))
        os._exit = sim_exit
        (sys.argv, sys.stdin, sys.stdout, sys.stderr) = (argv, stdin, stdout, stderr)
        try:
            exec(env.SCRIPT_CODE[name], {
                '__name__': '__main__', '__file__': os.path.join('/simulated', name),
                '__builtins__': builtins, '__doc__': None, '__package__': None, '__spec__': None,
            })
        except SystemExit as e:
            if e.code is None:
                status = 0
            elif isinstance(e.code, int):
                status = e.code & 0xff
            else:
                stderr.write(str(e.code))
                status = 1
            res.raised = 'SystemExit'
        except HardExit:
            res.raised = 'os._exit'
        except KeyboardInterrupt:
            status = 130
            res.raised = 'KeyboardInterrupt'
        except Exception as e:
            status = 1
            res.raised = type(e).__name__
            stderr.write('%s: %s' % (type(e).__name__, e))
        # the interpreter exits: it flushes what is left (whatever sys.stdout now is)
        for stream in (sys.stdout, stdout):
            try:
                if stream is not None and not stream.closed:
                    stream.flush()
            except (OSError, ValueError) as e:
                status = 120
                stderr.write('flush: %s' % e)
    finally:
        builtins.open = real_open
        io.open = real_open
        os.open = real_os_open
        for (f, v) in saved_os.items():
            setattr(os, f, v)
        (sys.argv, sys.stdin, sys.stdout, sys.stderr) = saved
    res.out = bytes(raw_out.data)
    if gone:
        (status, res.out) = gone
    raw_out.fail = None     # the rest is discarded, quietly
    raw_out.eintr = set()
    res.err = stderr.getvalue()
    res.status = status
    return res


def random_plan(rng, nbytes, faults=False):
    """how input and output are delivered (without failures)"""
    plan = {'via': rng.choice(['file', 'stdin'])}
    if rng.random() < 0.7:
        plan['rbuf'] = rng.choice([1, 2, 7, 64, 512, 8192])
    if rng.random() < 0.7:
        plan['wbuf'] = rng.choice([1, 3, 16, 100, 512, 8192])
    plan['line_buffering'] = rng.random() < 0.2
    if rng.random() < 0.7:
        plan['reads'] = [rng.choice([1, 1, 2, 3, 10, 100, 4096]) for _ in range(rng.randint(1, 6))]
    if rng.random() < 0.7:
        plan['writes'] = [rng.choice([1, 1, 2, 3, 10, 100, 4096]) for _ in range(rng.randint(1, 6))]
    if rng.random() < 0.4:
        plan['eintr_r'] = sorted(rng.randrange(max(2, nbytes // 4)) for _ in range(rng.randint(1, 6)))
    if rng.random() < 0.4:
        plan['eintr_w'] = sorted(rng.randrange(max(2, nbytes // 4)) for _ in range(rng.randint(1, 6)))
    return plan


def count(ctx, res):
    """record the faults that actually happened"""
    for (name, dev) in (('read', res.reader), ('write', res.writer)):
        if dev.short:
            ctx.fault('short-' + name, dev.short)
        if dev.eintr:
            ctx.fault('interrupted-' + name, dev.eintr)
        if dev.failed:
            ctx.fault('failed-' + name, dev.failed)
    ctx.step(res.reader.calls + res.writer.calls)
