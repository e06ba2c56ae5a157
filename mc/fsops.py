"""Control points at every file operation of the code under test: before each operation the
scheduler may hand over to another run, or the run may be killed; what was written up to there is
on the disk, including half of a block."""
import contextlib
import os
import sys

import numpy as np

_hook = {'point': None, 'installed': False}
EVENTS = {'open', 'os.rename', 'os.mkdir', 'os.remove', 'os.rmdir', 'os.link', 'os.truncate',
          'os.symlink', 'shutil.move', 'shutil.copyfile'}


def _audit(event, args):
    p = _hook['point']
    if p is None or event not in EVENTS:
        return
    if event == 'open' and not (isinstance(args[0], (str, bytes)) and
                                os.fsdecode(args[0]).startswith(_hook['root'])):
        return
    p()


@contextlib.contextmanager
def controlled(root, point):
    """Inside, point() is called at every file operation under root."""
    from astropy.io.fits import file as ff
    if not _hook['installed']:
        sys.addaudithook(_audit)
        _hook['installed'] = True
    F = ff._File
    saved = [(F, 'write', F.write), (F, 'writearray', F.writearray),
             (os.path, 'exists', os.path.exists), (os.path, 'isfile', os.path.isfile),
             (os.path, 'isdir', os.path.isdir)]

    def halves(self, raw, orig, *a):
        if getattr(self, 'simulateonly', False) or self._file is None or len(raw) < 2:
            return orig(self, *a)
        point()
        self._file.write(raw[:len(raw) // 2])
        self._file.flush()
        point()
        self._file.write(raw[len(raw) // 2:])
        self._file.flush()

    def write(self, string):
        raw = string.encode('latin-1') if isinstance(string, str) else bytes(string)
        return halves(self, raw, saved[0][2], string)

    def writearray(self, array):
        return halves(self, np.ascontiguousarray(array).tobytes(), saved[1][2], array)

    def watch(orig):
        def f(path):
            if isinstance(path, (str, os.PathLike)) and os.fspath(path).startswith(root):
                point()
            return orig(path)
        return f
    F.write, F.writearray = write, writearray
    for _, n, orig in saved[2:]:
        setattr(os.path, n, watch(orig))
    _hook['root'] = root
    _hook['point'] = point
    try:
        yield
    finally:
        _hook['point'] = None
        for o, n, f in saved:
            setattr(o, n, f)
