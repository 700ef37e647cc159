"""
A file system in memory, which stands in for os, open, tempfile and shutil.
The name of each function tells which one it replaces.
"""
from prims import event

CWD = '/work'


class Inode:
    def __init__(self, data, uid, gid, mode):
        self.data, self.uid, self.gid, self.mode = data, uid, gid, mode


class Disk:
    def __init__(self):
        self.files = {}
        self.links = {}
        self.watched = ()
        self.count = 0
        self.fail = 0
        self.how = ''
        self.temps = 0
        self.fds = []
        self.answer = 'y'

    def op(self, name, path=''):
        """Something that may fail."""
        self.count += 1
        event('op', self.count, name, path)
        if self.count == self.fail:
            event('fails', name)
            self.raise_()

    def raise_(self):
        if self.how == 'OSError':
            raise OSError(5, 'it fails')
        if self.how == 'ValueError':
            raise ValueError('it fails')
        if self.how == 'AssertionError':
            raise AssertionError('it fails')
        if self.how == 'NotImplementedError':
            raise NotImplementedError('it fails')
        if self.how == 'MemoryError':
            raise MemoryError()
        if self.how == 'KeyboardInterrupt':
            raise KeyboardInterrupt()
        raise SystemExit(1)

    def look(self):
        """What a crash here would leave."""
        for path in self.watched:
            node = self.files.get(path)
            if node is None:
                event('state', path, b'', -1, -1, -1)
            else:
                event('state', path, node.data, node.uid, node.gid, node.mode)

    def final(self):
        event('ends', self.count)
        for path in self.watched:
            node = self.files.get(path)
            if node is None:
                event('final', path, b'', -1, -1, -1)
            else:
                event('final', path, node.data, node.uid, node.gid, node.mode)
        for path in self.files:
            event('have', path)
        for path in self.links:
            event('link', path, self.links[path])


disk = Disk()


def absolute(path):
    if isinstance(path, Path):
        path = path.path
    if not path.startswith('/'):
        path = CWD + '/' + path
    parts = []
    for part in path.split('/'):
        if part == '..':
            if parts:
                parts.pop()
        elif part and part != '.':
            parts.append(part)
    return '/' + '/'.join(parts)


def real(path, last=True):
    """Without symbolic links (but for the last part if not last)."""
    todo = absolute(path).split('/')[1:]
    done = ''
    while todo:
        part = todo.pop(0)
        here = done + '/' + part
        if here in disk.links and (todo or last):
            target = disk.links[here]
            if not target.startswith('/'):
                target = (done or '/') + '/' + target
            todo = absolute(target).split('/')[1:] + todo
            done = ''
        else:
            done = here
    return done or '/'


def folder(path):
    return path.rpartition('/')[0] or '/'


class Path:
    def __init__(self, path):
        self.path = path


class Stat:
    def __init__(self, node, mode=None):
        self.st_mode = node.mode if mode is None else mode
        self.st_uid = node.uid
        self.st_gid = node.gid
        self.st_size = len(node.data)
        self.st_dev = 1
        self.st_ino = id(node)
        self.st_nlink = 1
        self.st_atime = self.st_mtime = self.st_ctime = 1.0

    def __getitem__(self, n):
        return (self.st_mode, self.st_ino, self.st_dev, self.st_nlink,
                self.st_uid, self.st_gid, self.st_size)[n]


class File:
    """
    What is written is on the disk when it is flushed (or, equally bad, at
    any time before that).
    """
    def __init__(self, name, mode, node, delete=False, encoding=None):
        self.name = name
        self.mode = mode
        self.node = node
        self.delete = delete
        self.encoding = encoding
        self.binary = 'b' in mode
        self.pos = len(node.data) if 'a' in mode else 0
        self.pending = b''
        self.closed = False
        self.fd = len(disk.fds) + 3
        self._closer = self
        disk.fds.append(self)

    def __iter__(self):
        return self

    def out(self, data):
        return data if self.binary else data.decode(
            'utf-8' if self.encoding is None else self.encoding)

    def __next__(self):
        disk.op('read', self.name)
        data = self.node.data
        if self.pos >= len(data):
            raise StopIteration
        end = data.find(b'\n', self.pos)
        end = len(data) if end < 0 else end + 1
        ret = data[self.pos:end]
        self.pos = end
        return self.out(ret)

    def readline(self):
        disk.op('read', self.name)
        data = self.node.data
        end = data.find(b'\n', self.pos)
        end = len(data) if end < 0 else end + 1
        ret = data[self.pos:end]
        self.pos = end
        return self.out(ret)

    def readlines(self):
        ret = []
        for line in self:
            ret.append(line)
        return ret

    def read(self, size=-1):
        disk.op('read', self.name)
        if size is None or size < 0:
            ret = self.node.data[self.pos:]
        else:
            ret = self.node.data[self.pos:self.pos + size]
        self.pos += len(ret)
        return self.out(ret)

    def write(self, data):
        disk.op('write', self.name)
        if not self.binary:
            data = data.encode(
                'utf-8' if self.encoding is None else self.encoding)
        self.pending += data
        return len(data)

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def put(self):
        if self.pending:
            data = self.node.data
            self.node.data = (data[:self.pos] + self.pending +
                              data[self.pos + len(self.pending):])
            self.pos += len(self.pending)
            self.pending = b''
            disk.look()

    def flush(self):
        disk.op('flush', self.name)
        self.put()

    def seek(self, pos, whence=0):
        self.put()
        self.pos = pos if whence == 0 else (
            len(self.node.data) + pos if whence == 2 else self.pos + pos)
        return self.pos

    def tell(self):
        return self.pos + len(self.pending)

    def truncate(self, size=None):
        disk.op('truncate', self.name)
        self.put()
        self.node.data = self.node.data[:self.pos if size is None else size]
        disk.look()

    def fileno(self):
        return self.fd

    def close(self):
        if self.closed:
            return
        self.closed = True
        try:
            disk.op('close', self.name)
            self.put()
        finally:
            if self.delete:
                os__unlink(self.name)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()


def builtins__open(file, mode='r', buffering=-1, encoding=None, errors=None,
                   newline=None, closefd=True, opener=None):
    if isinstance(file, int):
        node = disk.fds[file - 3].node
        return File(file, mode, node, encoding=encoding)
    disk.op('open ' + mode, file)
    path = real(file)
    node = disk.files.get(path)
    if 'x' in mode and node is not None:
        raise FileExistsError(17, 'exists', file)
    if node is None:
        if 'r' in mode:
            raise FileNotFoundError(2, 'no such file', file)
        node = disk.files[path] = Inode(b'', 1000, 1000, 0o100644)
    elif 'w' in mode:
        node.data = b''
        disk.look()
    return File(file, mode, node, encoding=encoding)


io__open = builtins__open
codecs__open = builtins__open


def os__fdopen(fd, mode='r', *args, **kwargs):
    return builtins__open(fd, mode, *args, **kwargs)


def tempfile__NamedTemporaryFile(mode='w+b', buffering=-1, encoding=None,
                                 newline=None, suffix=None, prefix=None,
                                 dir=None, delete=True, errors=None,
                                 delete_on_close=True):
    fd, name = tempfile__mkstemp(suffix, prefix, dir)
    return File(name, mode, disk.fds[fd - 3].node, delete, encoding)


def tempfile__mkstemp(suffix=None, prefix=None, dir=None, text=False):
    disk.op('temporary', dir)
    disk.temps += 1
    name = '{}/{}{}{}'.format(
        '/tmp' if dir is None else absolute(dir),
        'tmp' if prefix is None else prefix, disk.temps,
        '' if suffix is None else suffix)
    node = disk.files[real(name)] = Inode(b'', 1000, 1000, 0o100600)
    return File(name, 'w+b', node).fd, name


def os__close(fd):
    disk.op('close', fd)
    disk.fds[fd - 3].put()


def os__write(fd, data):
    disk.op('write', fd)
    disk.fds[fd - 3].pending += data
    disk.fds[fd - 3].put()
    return len(data)


def os__fsync(fd):
    disk.op('fsync', fd)


os__fdatasync = os__fsync


def node_of(path, follow=True):
    if isinstance(path, int):
        return disk.fds[path - 3].node
    node = disk.files.get(real(path, follow))
    if node is None:
        raise FileNotFoundError(2, 'no such file', path)
    return node


def os__stat(path, *, dir_fd=None, follow_symlinks=True):
    disk.op('stat', path)
    if not follow_symlinks and not isinstance(path, int):
        return os__lstat(path)
    return Stat(node_of(path))


def os__fstat(fd):
    return os__stat(fd)


def os__lstat(path):
    disk.op('lstat', path)
    if real(path, False) in disk.links:
        return Stat(Inode(b'', 0, 0, 0), 0o120777)
    return Stat(node_of(path))


def os__chown(path, uid, gid, *, dir_fd=None, follow_symlinks=True):
    disk.op('chown', path)
    node = node_of(path)
    if uid != -1:
        node.uid = uid
    if gid != -1:
        node.gid = gid
    disk.look()


def os__chmod(path, mode, *, dir_fd=None, follow_symlinks=True):
    disk.op('chmod', path)
    node = node_of(path)
    node.mode = 0o100000 | (mode & 0o7777)
    disk.look()


os__fchown = os__lchown = os__chown
os__fchmod = os__chmod


def shutil__copymode(src, dst, *, follow_symlinks=True):
    os__chmod(dst, node_of(src).mode)


def shutil__copystat(src, dst, *, follow_symlinks=True):
    os__chmod(dst, node_of(src).mode)


def shutil__chown(path, user=None, group=None):
    os__chown(path, -1 if user is None else user,
              -1 if group is None else group)


def os__rename(src, dst, **kwargs):
    disk.op('rename', dst)
    old, new = real(src, False), real(dst, False)
    if old not in disk.files and old not in disk.links:
        raise FileNotFoundError(2, 'no such file', src)
    if folder(old) != folder(new):
        # They may be on different devices.
        raise OSError(18, 'cross-device link')
    move(old, new)


os__replace = os__rename


def move(old, new):
    if old == new:
        return
    if old in disk.links:
        disk.links[new] = disk.links.pop(old)
        disk.files.pop(new, None)
    else:
        disk.files[new] = disk.files.pop(old)
        disk.links.pop(new, None)
    disk.look()


def shutil__move(src, dst, copy_function=None):
    disk.op('move', dst)
    old, new = real(src, False), real(dst, False)
    if folder(old) == folder(new):
        if old not in disk.files:
            raise FileNotFoundError(2, 'no such file', src)
        move(old, new)
    else:
        shutil__copy2(src, dst)
        os__unlink(src)
    return dst


def shutil__copyfile(src, dst, *, follow_symlinks=True):
    with builtins__open(src, 'rb') as infile:
        with builtins__open(dst, 'wb') as outfile:
            for line in infile:
                outfile.write(line)
    return dst


def shutil__copyfileobj(infile, outfile, length=0):
    for line in infile:
        outfile.write(line)


def shutil__copy(src, dst, *, follow_symlinks=True):
    shutil__copyfile(src, dst)
    shutil__copymode(src, dst)
    return dst


def shutil__copy2(src, dst, *, follow_symlinks=True):
    shutil__copyfile(src, dst)
    shutil__copystat(src, dst)
    return dst


def os__unlink(path, **kwargs):
    disk.op('unlink', path)
    name = real(path, False)
    if name in disk.links:
        disk.links.pop(name)
    elif name in disk.files:
        disk.files.pop(name)
    else:
        raise FileNotFoundError(2, 'no such file', path)
    disk.look()


os__remove = os__unlink


def os__link(src, dst, **kwargs):
    disk.op('link', dst)
    new = real(dst, False)
    if new in disk.files or new in disk.links:
        raise FileExistsError(17, 'exists', dst)
    disk.files[new] = node_of(src)


def os__symlink(src, dst, **kwargs):
    disk.op('symlink', dst)
    new = real(dst, False)
    if new in disk.files or new in disk.links:
        raise FileExistsError(17, 'exists', dst)
    disk.links[new] = src


def os__readlink(path, **kwargs):
    name = real(path, False)
    if name not in disk.links:
        raise OSError(22, 'not a link')
    return disk.links[name]


def os__path__realpath(path, **kwargs):
    return real(path)


def os__path__abspath(path):
    return absolute(path)


def os__path__normpath(path):
    if path.startswith('/'):
        return absolute(path)
    return absolute(path)[len(CWD) + 1:] or '.'


def os__path__exists(path):
    return real(path) in disk.files


def os__path__isfile(path):
    return real(path) in disk.files


def os__path__lexists(path):
    name = real(path, False)
    return name in disk.files or name in disk.links


def os__path__islink(path):
    return real(path, False) in disk.links


def os__path__samefile(a, b):
    return real(a) == real(b)


def os__path__dirname(path):
    head = path[:path.rfind('/') + 1]
    return head.rstrip('/') or head


def os__path__basename(path):
    return path[path.rfind('/') + 1:]


def os__path__split(path):
    return os__path__dirname(path), os__path__basename(path)


def os__path__join(path, *more):
    for one in more:
        if one.startswith('/'):
            path = one
        elif not path or path.endswith('/'):
            path += one
        else:
            path += '/' + one
    return path


def os__getcwd():
    return CWD


def os__getpid():
    return 4711


def os__getuid():
    return 1000


os__geteuid = os__getgid = os__getegid = os__getuid


def os__access(path, mode, **kwargs):
    return real(path) in disk.files


def os__umask(mask):
    return 0o22


def stat__S_IMODE(mode):
    return mode & 0o7777


def stat__S_ISLNK(mode):
    return mode == 0o120777


def stat__S_ISREG(mode):
    return mode != 0o120777


def builtins__print(*args, **kwargs):
    disk.op('print')


def builtins__input(prompt=None):
    disk.op('input')
    return disk.answer


sys__path = []
sys__argv = ['script', '/etc/extensions.conf']


class Record:
    """What namedtuple() makes."""
    def __init__(self, names, values):
        self._fields = names
        self._values = values
        for name, value in zip(names, values):
            setattr(self, name, value)

    def __iter__(self):
        return iter(self._values)

    def __len__(self):
        return len(self._values)

    def __getitem__(self, n):
        return self._values[n]

    def __eq__(self, other):
        return self._values == other._values

    def __hash__(self):
        return hash(self._values)

    def __lt__(self, other):
        return self._values < other._values

    def _replace(self, **kwargs):
        return Record(self._fields, tuple(
            kwargs.get(name, value)
            for name, value in zip(self._fields, self._values)))

    def __repr__(self):
        return 'Record{!r}'.format(self._values)


class Records:
    def __init__(self, names):
        self._fields = names

    def __call__(self, *args, **kwargs):
        values = list(args)
        for name in self._fields[len(args):]:
            values.append(kwargs.pop(name))
        if len(values) != len(self._fields) or kwargs:
            raise TypeError('wrong arguments')
        return Record(self._fields, tuple(values))

    def _make(self, values):
        return self(*values)


def collections__namedtuple(name, names, **kwargs):
    if isinstance(names, str):
        names = names.replace(',', ' ').split()
    return Records(tuple(names))
