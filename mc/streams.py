""" Streams used by the checks. """
import bz2
import gzip
import io
import lzma
import mmap
import os
import pathlib
import tempfile
import zipfile

from ebmlite.threaded_file import ThreadAwareFile


class Minimal:
    """ Nothing but read, seek and tell. """

    def __init__(self, data):
        self._f = io.BytesIO(data)

    def read(self, n=-1):
        return self._f.read(n)

    def seek(self, pos, whence=0):
        return self._f.seek(pos, whence)

    def tell(self):
        return self._f.tell()


class SubBytesIO(io.BytesIO):
    pass


class Named(io.BytesIO):
    """ A stream whose name is that of another, shorter file, a missing file, ... """


class Wrapped:
    """ A file-like object that gives access to nearly everything of another. """

    def __init__(self, f):
        self._f = f

    def __getattr__(self, name):
        return getattr(self._f, name)


class Sparse:
    """ A huge virtual file: `parts` is a list of (position, bytes), all else
        reads as 0x5a. Refuses to read more than 1 MiB at once. """

    def __init__(self, parts, size):
        self.parts, self.size, self.pos = sorted(parts), size, 0

    def seek(self, pos, whence=0):
        self.pos = pos if whence == 0 else self.pos + pos if whence == 1 else self.size + pos
        return self.pos

    def tell(self):
        return self.pos

    def read(self, n=-1):
        end = self.size if n is None or n < 0 else min(self.size, self.pos + n)
        if end <= self.pos:
            return b''
        if end - self.pos > 1 << 20:
            raise AssertionError('read of %d bytes at %d' % (end - self.pos, self.pos))
        out = bytearray(b'\x5a' * (end - self.pos))
        for p, b in self.parts:
            a, z = max(p, self.pos), min(p + len(b), end)
            if a < z:
                out[a - self.pos:z - self.pos] = b[a - p:z - p]
        self.pos = end
        return bytes(out)


KINDS = ('bytesio', 'minimal', 'subbytesio', 'file', 'raw', 'filename', 'path', 'taf', 'rwfile', 'mmap', 'randbuf', 'tmpfile', 'pathfile',
         'gzip', 'bz2', 'lzma', 'zip', 'named', 'namedmissing', 'buffered', 'spooled', 'fdfile', 'wrapped', 'grown', 'bytesfile')
# the kinds of which the name of the file is known
NAMED = ('filename', 'path', 'file', 'rwfile', 'raw', 'randbuf', 'taf', 'pathfile', 'bytesfile')


def make(kind, data, start, path):
    """ (stream or name, closer) for `data`, positioned at `start`. """
    if kind in ('bytesio', 'minimal', 'subbytesio'):
        st = {'bytesio': io.BytesIO, 'minimal': Minimal, 'subbytesio': SubBytesIO}[kind](data)
        st.seek(start)
        return st, lambda: None
    if kind in ('named', 'namedmissing'):
        # e.g. what an upload handler provides
        with open(path, 'wb') as f:
            f.write(data[:len(data) // 2])
        st = Named(data)
        st.name = path if kind == 'named' else path + '.missing'
        st.seek(start)
        return st, lambda: None
    if kind == 'buffered':
        st = io.BufferedReader(io.BytesIO(data), 16)
        st.seek(start)
        return st, lambda: None
    if kind == 'spooled':
        st = tempfile.SpooledTemporaryFile(max_size=20, dir=os.path.dirname(path))
        st.write(data)
        st.seek(start)
        return st, st.close
    if kind in ('gzip', 'bz2', 'lzma'):
        op = {'gzip': gzip, 'bz2': bz2, 'lzma': lzma}[kind].open
        with op(path, 'wb') as f:
            f.write(data)
        st = op(path, 'rb')
        st.seek(start)
        return st, st.close
    if kind == 'zip':
        with zipfile.ZipFile(path, 'w', zipfile.ZIP_DEFLATED) as z:
            z.writestr('member.ebml', data)
        z = zipfile.ZipFile(path)
        st = z.open('member.ebml')
        st.seek(start)
        return st, lambda: (st.close(), z.close())
    with open(path, 'wb') as f:
        f.write(data[:-3] if kind == 'grown' and len(data) > 2 else b'' if kind == 'grown' else data)
    if kind == 'grown':
        # still being written when it was opened
        st = open(path, 'rb')
        st.seek(start)
        with open(path, 'ab') as f:
            f.write(data[-3:] if len(data) > 2 else data)
        return st, st.close
    if kind == 'fdfile':
        st = open(os.open(path, os.O_RDONLY), 'rb')
        st.seek(start)
        return st, st.close
    if kind == 'wrapped':
        st = Wrapped(open(path, 'rb'))
        st.seek(start)
        return st, st.close
    if kind == 'tmpfile':
        st = tempfile.TemporaryFile(dir=os.path.dirname(path))
        st.write(data)
        st.seek(start)
        return st, st.close
    if kind == 'filename':
        return path, lambda: None
    if kind == 'path':
        return pathlib.Path(path), lambda: None
    if kind == 'file':
        st = open(path, 'rb')
    elif kind == 'bytesfile':
        st = open(os.fsencode(path), 'rb')
    elif kind == 'pathfile':
        st = open(pathlib.Path(path), 'rb')
    elif kind == 'raw':
        st = open(path, 'rb', buffering=0)
    elif kind == 'rwfile':
        st = open(path, 'r+b')
    elif kind == 'taf':
        st = ThreadAwareFile(path, 'rb')
        st.seek(start)
        return st, st.close
    elif kind == 'mmap':
        f = open(path, 'rb')
        st = mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_READ)
        st.seek(start)
        return st, lambda: (st.close(), f.close())
    elif kind == 'randbuf':
        st = open(path, 'rb', buffering=16)
    st.seek(start)
    return st, st.close
