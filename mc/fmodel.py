""" What one thread should see of a read-only file: operations and their results. """
import array
import sys
from mc.base import Viol

DATA = b'first line\nsecond\n\nthird one\nno end'


def _with(f):
    with f as g:
        assert g is f, 'the context manager gives another object'
        return g.read(2)


def _into(f):
    b = bytearray(4)
    n = f.readinto(b)
    return n, bytes(b[:n])


def _array(f):
    a = array.array('H', [0, 0, 7])
    n = f.readinto(memoryview(a)[:2])
    assert a[2] == 7
    return n, a.tobytes()[:n]


def _write(name, *args):
    def call(f):
        try:
            r = getattr(f, name)(*args)
        except (OSError, ValueError):
            return 'refused'
        return 'accepted %r' % (r,)
    return call


# name -> how it is done
CALLS = {
    'r': lambda f: f.read(3), 'R': lambda f: f.read(), 'a': lambda f: f.readall(), 'l': lambda f: f.readline(), 'i': _into,
    's': lambda f: f.seek(2), 'e': lambda f: f.seek(-3, 2), 'm': lambda f: f.seek(4, 1), 'S': lambda f: f.seek(0), 't': lambda f: f.tell(), 'n': lambda f: next(iter(f), b''), 'L': lambda f: f.readlines(),
    'c': lambda f: f.close(), 'x': lambda f: f.cleanup(), 'w': _with, 'q': lambda f: f.closed, 'N': lambda f: f.name, 'k': lambda f: (f.readable(), f.seekable(), f.writable()),
    'W': _write('write', b'zz'), 'T': _write('truncate', 3), 'V': _write('writelines', [b'zz']), 'z': lambda f: f.closeAll(), 'f': lambda f: f.flush(), 'j': lambda f: f.isatty(),
    '0': lambda f: f.read(0), '-': lambda f: f.read(-1), 'o': lambda f: f.read(None), 'b': lambda f: f.seek(-2, 1), 'B': lambda f: f.seek(-99, 2), 'F': lambda f: f.seek(50),
    'g': lambda f: f.readline(4), 'G': lambda f: f.readlines(7), 'I': lambda f: list(f), 'C': lambda f: f.seek(0, 1), 'E': lambda f: f.seek(0, 2), 'y': lambda f: isinstance(repr(f), str),
    'A': _array, 'M': lambda f: f.mode, 'Y': lambda f: isinstance(str(f), str) and isinstance('{}'.format(f), str) and sys.getsizeof(f) > 0,
    'H': lambda f: f.__dict__.setdefault('mc_hash', hash(f)) == hash(f) and f in {f} and f == f and not f != f and bool(f),
}


class View:
    """ The state of a thread's file: 'new', 'open', 'closed' or 'maybe' (closed or opened again at the start), and the position. """

    def __init__(self, path, state='new', pos=0):
        self.path, self.state, self.pos = path, state, pos
        self.badseek = False    # CPython then reports a file as not seekable

    def expect(self, op):
        """ (result, new position) of an operation on the open file. """
        p, n = self.pos, len(DATA)
        rest = DATA[p:]
        if op == 'r':
            return rest[:3], p + len(rest[:3])
        if op == '0':
            return b'', p
        if op in 'bB':
            to = p - 2 if op == 'b' else n - 99
            return (OSError, p) if to < 0 else (to, to)
        if op == 'F':
            return 50, 50
        if op == 'C':
            return p, p
        if op == 'E':
            return n, n
        if op == 'g':
            k = min(4, rest.find(b'\n') + 1 or len(rest))
            return rest[:k], p + k
        if op == 'G':
            out, k = [], 0
            for line in rest.splitlines(True):
                if k > 7:
                    break
                out.append(line)
                k += len(line)
            return out, p + k
        if op == 'I':
            return rest.splitlines(True), p + len(rest)
        if op in 'Ra-o':
            return rest, p + len(rest)
        if op in 'ln':
            k = rest.find(b'\n') + 1 or len(rest)
            return rest[:k], p + k
        if op == 'L':
            return rest.splitlines(True), p + len(rest)
        if op in 'iA':
            return (len(rest[:4]), rest[:4]), p + len(rest[:4])
        if op == 's':
            return 2, 2
        if op == 'S':
            return 0, 0
        if op == 'e':
            return n - 3, n - 3
        if op == 'm':
            return p + 4, p + 4
        if op == 't':
            return p, p
        if op == 'N':
            return self.path, p
        if op == 'k':
            return (True, True, False), p
        if op == 'f':
            return None, p
        if op == 'M':
            return 'rb', p
        if op == 'j':
            return False, p
        raise KeyError(op)

    def step(self, op, res, who=''):
        """ res: ('ok', value) or ('exc', type name, text). """
        def no(want):
            raise Viol('%s%s on %s file at %d gave %r, expected %s' % (who, NAMES[op], self.state, self.pos, res[1:] if res[0] == 'exc' else res[1], want))
        if op in 'WTV':
            if res != ('ok', 'refused'):
                no('a refusal')
            if self.state == 'new':
                self.state = 'unsure'
        elif op in 'yYH':
            # looking at it does nothing to it
            if res != ('ok', True):
                no('True')
        elif op in 'cxz':
            if res != ('ok', None):
                no('None')
            if op == 'c' or op == 'z' and self.state != 'new':
                self.state = 'closed'
        elif op == 'q':
            if self.state == 'open' and res != ('ok', False) or self.state == 'closed' and res != ('ok', True):
                no('the opposite')
        elif op == 'w':
            fresh = View(self.path, 'open', self.pos if self.state == 'open' else 0)
            if self.state in ('closed', 'maybe') and failed(res):
                return
            want = DATA[fresh.pos:fresh.pos + 2]
            if res != ('ok', want):
                no(repr(want))
            self.state = 'closed'
        elif op in 'MN' and self.state in ('closed', 'maybe'):
            # may be told without opening it again, or not
            if not failed(res) and res != ('ok', self.expect(op)[0]):
                no(repr(self.expect(op)[0]))
            self.state = 'maybe'
        else:
            if self.state in ('closed', 'maybe'):
                if failed(res):
                    if op in 'bB':
                        # may have been opened again, as the failure may be that of the seek
                        self.state, self.badseek = 'maybe', True
                    return
                self.state, self.pos = 'open', 0
            elif self.state in ('new', 'unsure'):
                self.state, self.pos = 'open', 0
            want, pos = self.expect(op)
            if want is OSError:
                if not failed(res):
                    no('an error')
                self.badseek = True
            elif op == 'k' and self.badseek and res == ('ok', (True, False, False)):
                pass
            elif res != ('ok', want):
                no(repr(want))
            self.pos = pos


NAMES = {'r': 'read(3)', 'R': 'read()', 'a': 'readall()', 'l': 'readline()', 'i': 'readinto()', 's': 'seek(2)', 'e': 'seek(-3, 2)', 'm': 'seek(4, 1)', 'S': 'seek(0)', 't': 'tell()',
         'n': 'next(iter())', 'L': 'readlines()', 'c': 'close()', 'x': 'cleanup()', 'w': 'with: read(2)', 'q': 'closed', 'N': 'name', 'k': 'readable(), seekable(), writable()',
         'W': 'write()', 'T': 'truncate()', 'V': 'writelines()', 'z': 'closeAll()', 'f': 'flush()', 'j': 'isatty()',
         '0': 'read(0)', '-': 'read(-1)', 'o': 'read(None)', 'b': 'seek(-2, 1)', 'B': 'seek(-99, 2)', 'F': 'seek(50)', 'g': 'readline(4)', 'G': 'readlines(7)', 'I': 'list()',
         'C': 'seek(0, 1)', 'E': 'seek(0, 2)', 'y': 'repr()', 'A': 'readinto() an array of 2-byte items', 'M': 'mode', 'Y': 'str()', 'H': 'hash()'}


def failed(res):
    """ As for a closed file. """
    return res[0] == 'exc' and res[1] in ('ValueError', 'OSError')


def perform(f, op):
    try:
        return 'ok', CALLS[op](f)
    except Exception as e:
        return 'exc', type(e).__name__, str(e)
