"""
Simulated disk: a real scratch directory as the page-cache view, with every operation on it
made through Python (os.*, open) or by the HDF5 library (its system calls, through shim.c) turned
into an event that can fail, be the instant of a crash, or be observed.  A journal of directory
operations and synced contents gives the image that survives a power loss.
"""
import ctypes
import errno as _errno
import hashlib
import io
import os
import random
import stat
import builtins

import h5py

_real = dict(
    open=os.open, close=os.close, rename=os.rename, replace=os.replace, remove=os.remove,
    unlink=os.unlink, link=os.link, symlink=os.symlink, fsync=os.fsync, fdatasync=os.fdatasync,
    truncate=os.truncate, ftruncate=os.ftruncate, write=os.write, pwrite=os.pwrite, sync=os.sync,
    mkdir=os.mkdir, rmdir=os.rmdir,
    bopen=builtins.open, FileIO=io.FileIO, h5File=h5py.File,
)


class ShortTransfer(Exception):
    """The operation transfers only a part of the data."""


def read_file(path):
    fd = _real['open'](path, os.O_RDONLY)
    try:
        chunks = []
        while True:
            b = os.read(fd, 1 << 20)
            if not b:
                return b''.join(chunks)
            chunks.append(b)
    finally:
        _real['close'](fd)


class SimDisk:
    def __init__(self, root, save_name, spec, log, crash_cb):
        self.root = os.path.realpath(root)
        self.save_name = save_name
        self.log = log
        self.crash_cb = crash_cb
        self.faults = [dict(f, left=f.get('count', 1), fired=0) for f in spec.get('faults', ())]
        self.crash = spec.get('crash')
        self.watch = spec.get('watch', True)
        self.power_watch = spec.get('power_watch', False)
        self.max_versions = spec.get('max_versions', 60)
        self.max_ops = spec.get('max_ops', 200000)
        self.over_cb = lambda: None
        self.prng = random.Random(spec.get('power_seed', 0))
        self.nop = 0
        self.nalloc = 0
        self.op_counts = {}
        self.kind_count = {}
        self.versions = []          # (op index, kind, bytes or None)
        self.images = []            # power-loss images of save_name: (op, description, bytes or None)
        self._image_keys = set()
        self._last_stat = ()
        self._last_sha = None
        # journal
        self.ns = {}
        self.next_fid = 0
        self.durable = {}
        self.kept = {}
        for name in sorted(os.listdir(self.root)):
            p = os.path.join(self.root, name)
            if os.path.isfile(p):
                fid = self.new_fid()
                self.ns[name] = fid
                self.durable[fid] = read_file(p)
        self.base_ns = dict(self.ns)
        self.pending = []
        self.observe('start')

    # -- helpers ---------------------------------------------------------
    def new_fid(self):
        self.next_fid += 1
        return self.next_fid

    def rel(self, path):
        """Name relative to the root, or None if outside."""
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.abspath(p)
        if p == self.root:
            return '.'
        if p.startswith(self.root + os.sep):
            return p[len(self.root) + 1:]
        q = os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))
        if q.startswith(self.root + os.sep):
            return q[len(self.root) + 1:]
        return None

    def fd_rel(self, fd):
        try:
            p = os.readlink('/proc/self/fd/%d' % fd)
        except (OSError, TypeError):
            return None
        if p == self.root:
            return '.'
        if p.startswith(self.root + os.sep):
            p = p[len(self.root) + 1:]
            return p
        return None

    def content(self, fid):
        for name, f in self.ns.items():
            if f == fid:
                try:
                    return read_file(os.path.join(self.root, name))
                except OSError:
                    return b''
        return self.kept.get(fid, b'')

    # -- events ----------------------------------------------------------
    def before(self, kind, name, short=False):
        """Called before an operation; may raise OSError or never return (crash)."""
        self.nop += 1
        self.kind_count[kind] = self.kind_count.get(kind, 0) + 1
        if self.nop > self.max_ops:
            self.over_cb()
        c = self.crash
        if c is not None and c['at'] == 'op' and c['phase'] == 'before' and self._crash_match(c, kind):
            self.log(('fs', self.nop, kind, name, 'crash-before'))
            self.crash_cb('op %d %s %s before' % (self.nop, kind, name))
        for f in self.faults:
            if f['left'] == 0:
                continue
            if f['op'] != 'any' and f['op'] != kind:
                continue
            if f['op'] == 'any' and kind in ('unlink', 'close') and not f.get('unlink'):
                continue
            if f['errno'] == 'SHORT' and not short:
                continue
            n = self.nop if f['op'] == 'any' else self.kind_count[kind]
            if n >= f['nth']:
                f['left'] -= 1
                f['fired'] += 1
                self.log(('fs', self.nop, kind, name, f['errno']))
                if f['errno'] == 'KI':
                    raise KeyboardInterrupt('injected')
                if f['errno'] == 'SHORT':
                    raise ShortTransfer
                code = getattr(_errno, f['errno'])
                raise OSError(code, 'injected: ' + os.strerror(code))

    def alloc(self, what):
        """An object is created in an HDF5 file, which can lack memory."""
        self.nalloc += 1
        for f in self.faults:
            if f['op'] == 'alloc' and f['left'] and self.nalloc >= f['nth']:
                f['left'] -= 1
                f['fired'] += 1
                self.log(('fs', self.nop, 'alloc', what, f['errno']))
                raise {'NOMEM': MemoryError, 'RT': RuntimeError, 'VE': ValueError}[f['errno']]('injected: out of memory')

    def arm(self, faults):
        """Faults for one operation, counted from now."""
        self._saved_faults = self.faults
        self.faults = []
        for f in faults:
            base = self.nop if f['op'] == 'any' else self.nalloc if f['op'] == 'alloc' else self.kind_count.get(f['op'], 0)
            self.faults.append(dict(f, nth=base + f['nth'], left=f.get('count', 1), fired=0))

    def disarm(self):
        fired = sum(f['fired'] for f in self.faults if f['errno'] != 'SHORT')
        for f in self.faults:
            if f['fired']:
                k = 'io:%s:%s' % (f['op'], f['errno'])
                self.op_counts[k] = self.op_counts.get(k, 0) + f['fired']
        self.faults = self._saved_faults
        return fired

    def _crash_match(self, c, kind):
        if c.get('op') in (None, 'any'):
            return self.nop == c['n']
        return c['op'] == kind and self.kind_count[kind] == c['n']

    def mid_crash(self, kind):
        c = self.crash
        return c is not None and c['at'] == 'op' and c['phase'] == 'mid' and self._crash_match(c, kind)

    def after(self, kind, name):
        quiet = kind == 'write' and self.ns.get(name) != self.ns.get(self.save_name, -1)
        if not quiet:
            self.log(('fs', self.nop, kind, name, 'ok'))
        if self.watch and not quiet:
            self.observe(kind)
        if self.power_watch:
            self.power_observe(kind, name)
        c = self.crash
        if c is not None and c['at'] == 'op' and c['phase'] == 'after' and self._crash_match(c, kind):
            self.crash_cb('op %d %s %s after' % (self.nop, kind, name))

    def observe(self, kind):
        """Record a new version of the save file whenever its visible content changed."""
        if self.save_name is None:
            return
        p = os.path.join(self.root, self.save_name)
        try:
            st = os.stat(p)
            key = (st.st_ino, st.st_size, st.st_mtime_ns) if stat.S_ISREG(st.st_mode) else None
        except OSError:
            key = None
        if key == self._last_stat:
            return
        self._last_stat = key
        data = None if key is None else read_file(p)
        sha = None if data is None else hashlib.sha1(data).hexdigest()
        if self.versions and sha == self._last_sha:
            return
        self._last_sha = sha
        at = self.log(('ver', self.nop, kind, None if data is None else len(data)))
        if len(self.versions) < self.max_versions:
            self.versions.append((self.nop, kind, data, at))
        else:
            self.versions[-1] = (self.nop, kind, data, at)

    # -- journal ---------------------------------------------------------
    def j_create(self, name):
        if name not in self.ns:
            fid = self.new_fid()
            self.ns[name] = fid
            self.pending.append(('link', name, fid))

    def j_keep(self, name):
        fid = self.ns.get(name)
        if fid is not None:
            try:
                self.kept[fid] = read_file(os.path.join(self.root, name))
            except OSError:
                pass

    def j_rename(self, src, dst):
        fid = self.ns.pop(src, None)
        if fid is None:
            fid = self.new_fid()
        self.ns[dst] = fid
        self.pending.append(('rename', src, dst, fid))

    def j_unlink(self, name):
        self.ns.pop(name, None)
        self.pending.append(('unlink', name))

    def j_sync(self, name):
        if name == '.':
            self.base_ns = dict(self.ns)
            self.pending = []
        elif name in self.ns:
            self.durable[self.ns[name]] = read_file(os.path.join(self.root, name))

    def ns_prefix(self, j):
        ns = dict(self.base_ns)
        for op in self.pending[:j]:
            if op[0] == 'link':
                ns[op[1]] = op[2]
            elif op[0] == 'rename':
                ns.pop(op[1], None)
                ns[op[2]] = op[3]
            else:
                ns.pop(op[1], None)
        return ns

    def survive(self, fid, rng, mode=None):
        """One possible content of a file after power loss."""
        cur = self.content(fid)
        if fid in self.durable and self.durable[fid] == cur:
            return 'synced', cur
        base = self.durable.get(fid, b'')
        mode = mode or rng.choice(['none', 'zeros', 'trunc', 'blocks', 'full'])
        if mode == 'none':
            return mode, base
        if mode == 'zeros':
            return mode, b'\0' * len(cur)
        if mode == 'trunc':
            return mode, cur[:len(cur) // 2]
        if mode == 'blocks':
            out = bytearray(base[:len(cur)].ljust(len(cur), b'\0'))
            for k in range(0, len(cur), 512):
                if rng.random() < 0.5:
                    out[k:k + 512] = cur[k:k + 512]
            return mode, bytes(out)
        return mode, cur

    def power_observe(self, kind, name):
        """Images of the save file that a power loss at this very operation could leave."""
        if kind == 'write' and self.ns.get(self.save_name) != self.ns.get(name):
            return
        for j in range(len(self.pending) + 1):
            fid = self.ns_prefix(j).get(self.save_name)
            if fid is None:
                self._add_image(kind, j, 'absent', None)
                continue
            cur = self.content(fid)
            if fid in self.durable and self.durable[fid] == cur:
                self._add_image(kind, j, 'synced', cur)
            else:
                for mode in ('none', 'trunc', 'blocks'):
                    self._add_image(kind, j, mode, self.survive(fid, self.prng, mode)[1])

    def _add_image(self, kind, j, mode, data):
        key = (mode, None if data is None else hashlib.sha1(data).digest())
        if key in self._image_keys or len(self.images) >= 3 * self.max_versions:
            return
        self._image_keys.add(key)
        self.images.append((self.nop, '%s, %d of %d directory operations, %s' % (kind, j, len(self.pending), mode), data))

    def power_loss(self, seed):
        """Rewrite the directory to what survives."""
        rng = random.Random(seed)
        j = rng.choice([0, len(self.pending), rng.randint(0, len(self.pending))])
        ns = self.ns_prefix(j)
        files = {}
        desc = []
        for name, fid in sorted(ns.items()):
            mode, data = self.survive(fid, rng)
            files[name] = data
            desc.append((name, mode, len(data)))
        for name in sorted(os.listdir(self.root)):
            p = os.path.join(self.root, name)
            if os.path.isfile(p):
                _real['unlink'](p)
        for name, data in files.items():
            fd = _real['open'](os.path.join(self.root, name), os.O_CREAT | os.O_WRONLY | os.O_TRUNC, 0o644)
            view = memoryview(data)
            while view:
                view = view[_real['write'](fd, view):]
            _real['close'](fd)
        self.log(('power', j, len(self.pending), tuple(desc)))

    def counts(self):
        out = dict(self.op_counts)
        for f in self.faults:
            if f['fired']:
                k = 'io:%s:%s' % (f['op'], f['errno'])
                out[k] = out.get(k, 0) + f['fired']
        return out

    # -- patches ---------------------------------------------------------
    def install(self):
        D = self

        def two(fname):
            real = _real[fname]

            def f(src, dst, *a, **k):
                s, d = D.rel(src), D.rel(dst)
                if s is None and d is None:
                    return real(src, dst, *a, **k)
                D.before('rename', '%s>%s' % (s, d))
                if (s is None or d is None or s.startswith('systmp' + os.sep) != d.startswith('systmp' + os.sep)):
                    raise OSError(_errno.EXDEV, os.strerror(_errno.EXDEV))
                if d is not None:
                    D.j_keep(d)
                if d is None and s is not None:
                    D.j_keep(s)
                res = real(src, dst, *a, **k)
                if s is not None and d is not None:
                    D.j_rename(s, d)
                elif d is not None:
                    D.ns.pop(d, None)
                    D.j_create(d)
                else:
                    D.j_unlink(s)
                D.after('rename', '%s>%s' % (s, d))
                return res
            return f

        def link(src, dst, *a, **k):
            d = D.rel(dst)
            if d is None:
                return _real['link'](src, dst, *a, **k)
            D.before('link', d)
            res = _real['link'](src, dst, *a, **k)
            s = D.rel(src)
            if s in D.ns:
                D.ns[d] = D.ns[s]
                D.pending.append(('link', d, D.ns[s]))
            else:
                D.j_create(d)
            D.after('link', d)
            return res

        def unlink(fname):
            real = _real[fname]

            def f(path, *a, **k):
                r = D.rel(path)
                if r is None:
                    return real(path, *a, **k)
                D.before('unlink', r)
                D.j_keep(r)
                res = real(path, *a, **k)
                D.j_unlink(r)
                D.after('unlink', r)
                return res
            return f

        def os_open(path, flags, *a, **k):
            r = D.rel(path)
            if r is None or r == '.':
                return _real['open'](path, flags, *a, **k)
            w = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
            kind = 'open' if w else 'ropen'
            D.before(kind, r)
            fd = _real['open'](path, flags, *a, **k)
            if w:
                if os.path.exists(os.path.join(D.root, r)):
                    D.j_create(r)
            D.after(kind, r)
            return fd

        def os_sync_fd(fname):
            real = _real[fname]

            def f(fd):
                n = fd if isinstance(fd, int) else fd.fileno()
                r = D.fd_rel(n)
                if r is None:
                    return real(fd)
                D.before('fsync', r)
                D.j_sync(r)
                D.after('fsync', r)
            return f

        def os_sync():
            D.before('fsync', '*')
            for n in list(D.ns):
                D.j_sync(n)
            D.j_sync('.')
            D.after('fsync', '*')

        def os_write(fd, data):
            r = D.fd_rel(fd)
            if r is None:
                return _real['write'](fd, data)
            try:
                D.before('write', r, True)
            except ShortTransfer:
                data = bytes(data)[:max(1, len(bytes(data)) // 2)]
            if D.mid_crash('write'):
                _real['write'](fd, bytes(data)[:len(data) // 2])
                D.crash_cb('op %d write %s mid' % (D.nop, r))
            n = _real['write'](fd, data)
            D.after('write', r)
            return n

        def truncate(path, length):
            r = D.rel(path) if not isinstance(path, int) else D.fd_rel(path)
            if r is None:
                return _real['truncate'](path, length)
            D.before('write', r)
            _real['truncate'](path, length)
            D.after('write', r)

        def ftruncate(fd, length):
            r = D.fd_rel(fd)
            if r is None:
                return _real['ftruncate'](fd, length)
            D.before('write', r)
            _real['ftruncate'](fd, length)
            D.after('write', r)

        os.rename = two('rename')
        os.replace = two('replace')
        os.link = link
        os.unlink = unlink('unlink')
        os.remove = unlink('remove')
        os.open = os_open
        os.fsync = os_sync_fd('fsync')
        os.fdatasync = os_sync_fd('fdatasync')
        os.sync = os_sync
        os.write = os_write
        os.truncate = truncate
        os.ftruncate = ftruncate
        import shutil
        shutil._USE_CP_SENDFILE = False
        if hasattr(os, 'copy_file_range'):
            def cfr(*a, **k):
                raise OSError(_errno.ENOSYS, 'not in the simulator')
            os.copy_file_range = cfr

        class SimFileIO(io.FileIO):
            """Raw file whose writes are events (for files opened with open())."""
            def _sim_init(self):
                self._sim_rel = D.fd_rel(self.fileno())

            def write(self, data):
                r = self._sim_rel
                try:
                    D.before('write', r, True)
                except ShortTransfer:
                    data = bytes(data)[:max(1, len(bytes(data)) // 2)]
                if D.mid_crash('write'):
                    io.FileIO.write(self, bytes(data)[:len(data) // 2])
                    D.crash_cb('op %d write %s mid' % (D.nop, r))
                n = io.FileIO.write(self, data)
                D.after('write', r)
                return n

            def truncate(self, size=None):
                r = self._sim_rel
                D.before('write', r)
                n = io.FileIO.truncate(self, size)
                D.after('write', r)
                return n

        def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None,
                     closefd=True, opener=None):
            r = None
            if not isinstance(file, int):
                r = D.rel(file)
            else:
                r = D.fd_rel(file)
            if r is None:
                return _real['bopen'](file, mode, buffering, encoding, errors, newline, closefd, opener)
            writing = any(c in mode for c in 'wxa+')
            if opener is None and not isinstance(file, int):
                D.before('open' if writing else 'ropen', r)
            rawmode = mode.replace('b', '').replace('t', '')
            raw = SimFileIO(file, rawmode, closefd=closefd, opener=opener)
            raw._sim_init()
            rr = raw._sim_rel
            if writing and rr is not None and rr != '.' and not rr.endswith(' (deleted)'):
                D.j_create(rr)
            if opener is None and not isinstance(file, int):
                D.after('open' if writing else 'ropen', r)
            if 'b' in mode and buffering == 0:
                return raw
            size = 8192 if buffering in (-1, 1) else buffering
            if '+' in mode:
                buf = io.BufferedRandom(raw, size)
            elif writing:
                buf = io.BufferedWriter(raw, size)
            else:
                buf = io.BufferedReader(raw, size)
            if 'b' in mode:
                return buf
            text = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=buffering == 1)
            text.mode = mode
            return text

        builtins.open = sim_open
        io.open = sim_open
        import tempfile
        tempfile._io = _IoProxy(sim_open)

        # What HDF5 does on its own file descriptors: the real file driver over simulated system calls.
        state = {'mid': False, 'ki': False}

        def event(kind, fd, n, off):
            try:
                r = D.fd_rel(fd)
                if r is None or r == '.':
                    return 0
                if kind == 3:
                    D.before('read', r, True)
                elif kind == 1:
                    D.before('write', r, True)
                    if D.mid_crash('write'):
                        state['mid'] = True
                        return -(n // 2 + 1)
                elif kind == 2:
                    if state['mid']:
                        D.crash_cb('op %d write %s mid' % (D.nop, r))
                    D.after('write', r)
                elif kind == 4:
                    D.before('write', r)
                else:
                    D.after('write', r)
                return 0
            except ShortTransfer:
                return -(max(1, n // 2) + 1) if kind in (1, 3) else 0
            except OSError as exc:
                return exc.errno or _errno.EIO
            except KeyboardInterrupt:
                # arrives when the library returns
                state['ki'] = True
                return 0

        lib = ctypes.CDLL(os.environ['NFSIM_SHIM'])
        self._cb = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_size_t, ctypes.c_long)(event)
        ctypes.c_void_p.in_dll(lib, 'nf_cb').value = ctypes.cast(self._cb, ctypes.c_void_p).value

        class SimH5File(_real['h5File']):
            def __init__(self, name, mode='r', driver=None, **kw):
                rel = None
                if driver is None and isinstance(name, (str, bytes, os.PathLike)):
                    rel = D.rel(name)
                if rel is None:
                    if mode != 'r':
                        D.alloc('file')
                    _real['h5File'].__init__(self, name, mode, driver, **kw)
                    return
                kind = 'ropen' if mode == 'r' else 'open'
                D.before(kind, rel)
                _real['h5File'].__init__(self, os.path.join(D.root, rel), mode, driver, **kw)
                if kind == 'open':
                    D.j_create(rel)
                D.after(kind, rel)

            def close(self):
                _real['h5File'].close(self)
                if state['ki']:
                    state['ki'] = False
                    raise KeyboardInterrupt('injected')

        for meth in ('create_group', 'create_dataset'):
            def creator(self, *a, _real=getattr(h5py.Group, meth), _meth=meth, **k):
                D.alloc(_meth)
                return _real(self, *a, **k)
            setattr(h5py.Group, meth, creator)
        h5py.File = SimH5File
        h5py._hl.files.File = SimH5File


class _IoProxy:
    """tempfile uses `_io.open`; everything else is the real module."""
    def __init__(self, op):
        self.open = op

    def __getattr__(self, key):
        return getattr(io, key)
