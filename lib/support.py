"""Shared by the checks."""

import builtins
import io
import os
import subprocess

CPP = os.environ.get('VERIF_CPP', '')


class Driver(object):
    """The C++ library, one command per line (see lib/cpp/driver.cpp)."""

    def __init__(self):
        self.process = None

    def start(self):
        read, write = os.pipe()
        # the answers come on descriptor 3
        self.process = subprocess.Popen(['/bin/bash', '-c', 'exec 3>&%d %d>&-; exec "$0"' % (write, write), os.path.join(CPP, 'driver')],
                                        stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, pass_fds=(write,))
        os.close(write)
        self.answers = os.fdopen(read, 'r')

    def __call__(self, *words):
        """Lines of the answer, or None when the process died."""
        if self.process is None or self.process.poll() is not None:
            self.start()
        line = ' '.join(w if isinstance(w, str) else repr(w) for w in words) + '\n'
        self.process.stdin.write(line.encode())
        self.process.stdin.flush()
        result = []
        while True:
            answer = self.answers.readline()
            if not answer:
                self.process.wait()
                return None
            if answer == '.\n':
                return result
            result.append(answer.rstrip('\n'))


driver = Driver()


class Py2Bytes(bytes):
    """What Python 2 reads from a binary file: equal to the str of the same characters."""

    def __eq__(self, other):
        if isinstance(other, str):
            return self.decode('latin-1') == other
        return bytes.__eq__(self, other)

    def __ne__(self, other):
        return not self == other

    __hash__ = bytes.__hash__


class Py2Reader(io.BufferedReader):
    def read(self, *args):
        return Py2Bytes(super(Py2Reader, self).read(*args))


def python2_binary_files():
    """The translation to Python 3 leaves binary files reading bytes, which never equal the str constants of the
    code; this makes files opened for binary reading behave as they do in Python 2."""
    plain = builtins._py2_open

    def opener(file, mode='r', buffering=-1, *args, **kwargs):
        if mode == 'rb' and buffering != 0 and not args and not kwargs:
            return Py2Reader(io.FileIO(file, 'r'))
        return plain(file, mode, buffering, *args, **kwargs)
    builtins._py2_open = opener


def record_iris_saver():
    """The NetCDF saver of the code subclasses the iris of its time and cannot write with the one installed here;
    this replaces the writing by recording, as {file name: {variable name: cube}}."""
    from eustace.outputformats.iriscubesaver import NetCDFSaverEUSTACE
    written = {}

    class Recorder(object):
        def __init__(self, filename):
            self.filename = filename

        def write_cubes(self, cubes):
            written[self.filename] = {cube.var_name: cube for cube in cubes}
    NetCDFSaverEUSTACE.__new__ = lambda cls, filename: Recorder(filename)
    return written
