"""Effects of library functions, by dotted name."""

import ast

from .scan import *

# modules whose functions act on the outside world (os.path is handled below)
OUTSIDE = {'os', 'shutil', 'subprocess', 'socket', 'ssl', 'urllib', 'http', 'ftplib', 'smtplib', 'tempfile', 'pathlib', 'io', 'ctypes', 'mmap',
           'multiprocessing', 'threading', 'asyncio', 'signal', 'fcntl', 'resource', 'pty', 'webbrowser', 'logging', 'syslog', 'sqlite3',
           'shelve', 'dbm', 'glob', 'fileinput', 'atexit', 'concurrent', 'select', 'codecs', 'gzip', 'bz2', 'lzma', 'zipfile', 'tarfile',
           'pickle', 'marshal', 'runpy', 'importlib', 'requests', 'warnings'}
PURE = {'os.path.basename', 'os.path.dirname', 'os.path.join', 'os.path.splitext', 'os.path.split', 'os.path.normpath', 'os.linesep', 'os.sep',
        'os.SEEK_SET', 'os.SEEK_CUR', 'os.SEEK_END', 'io.BytesIO', 'io.StringIO', 'io.SEEK_END', 'io.SEEK_SET', 'io.SEEK_CUR', 'codecs.encode', 'codecs.decode',
        'codecs.BOM_UTF16_BE', 'codecs.BOM_UTF8', 'codecs.BOM_UTF16_LE', 'os.PathLike', 'os.fspath', 'pathlib.PurePath', 'io.IOBase', 'io.RawIOBase'}
BUILTIN_OUT = {'builtins.exec': 'exec', 'builtins.eval': 'exec', 'builtins.compile': 'exec', 'builtins.__import__': 'exec', 'builtins.input': 'stdin',
               'builtins.breakpoint': 'stdin', 'builtins.print': 'print', 'builtins.open': 'open'}
NONDET = {'time', 'random', 'secrets', 'uuid', 'datetime', 'getpass', 'platform', 'socket', 'locale', 'threading', 'tempfile', 'resource'}
NONDET_NAMES = {'os.urandom', 'os.getpid', 'os.environ', 'os.getenv', 'os.getcwd', 'os.times', 'os.getlogin', 'os.uname', 'os.listdir', 'os.stat', 'os.path.getmtime',
                'os.getppid', 'os.scandir', 'os.cpu_count', 'sys.getrefcount', 'builtins.id', 'builtins.hash', 'os.path.getctime', 'os.environb', 'os.path.abspath',
                'os.path.realpath', 'os.path.expanduser', 'sys.flags', 'sys.platform', 'os.name', 'sys.version', 'sys.version_info', 'builtins.globals', 'gc.get_objects'}
NONDET_PURE = {'datetime.timedelta', 'datetime.timezone', 'datetime.datetime.strptime', 'datetime.datetime.fromisoformat', 'time.strptime'}


def effect(dotted):
    """The effect class of a reference to a library object, or None."""
    if dotted in BUILTIN_OUT:
        return BUILTIN_OUT[dotted]
    if dotted.startswith('sys.stdout') or dotted.startswith('sys.__stdout__'):
        return 'stdout'
    if dotted.startswith('sys.stderr'):
        return 'stderr'
    if dotted.startswith('sys.stdin'):
        return 'stdin'
    top = dotted.split('.')[0]
    if dotted in PURE or any(dotted.startswith(x + '.') for x in PURE):
        return None
    if top in OUTSIDE:
        if dotted in ('os', 'os.path', 'io', 'codecs'):
            return None         # a prefix of a longer name
        if dotted in ('os.path.getsize', 'os.path.exists', 'os.path.isfile', 'os.path.isdir', 'os.stat', 'os.path.getmtime'):
            return 'stat'
        return 'world:' + dotted
    if dotted in ('sys.exit', 'sys.settrace', 'sys.setrecursionlimit'):
        return 'world:' + dotted
    return None


def nondet(dotted):
    if dotted in NONDET_NAMES or any(dotted.startswith(x + '.') for x in ('os.environ',)):
        return True
    if dotted in NONDET_PURE:
        return False
    parts = dotted.split('.')
    if parts[0] in NONDET and len(parts) > 1:
        if parts[0] == 'datetime':
            return parts[-1] in ('now', 'today', 'utcnow', 'fromtimestamp')
        return True
    return False


def references(scan, fn):
    """(node, dotted name) of the library objects a function refers to (longest names only)."""
    for x in ast.walk(fn):
        if isinstance(x, (ast.Name, ast.Attribute)):
            par = getattr(x, '_parent', None)
            if isinstance(par, ast.Attribute) and par.value is x and scan.ext_name(x._mod, par) is not None:
                continue
            if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
                continue
            d = scan.ext_name(x._mod, x)
            if d is not None:
                yield x, d
