"""Keep the effects of the code under test inside a scratch directory."""
import os
import sys

_allowed = [None]
_WRITE = {
    "os.remove": (0,), "os.rename": (0, 1), "os.rmdir": (0,), "os.mkdir": (0,), "os.symlink": (1,),
    "os.link": (1,), "os.truncate": (0,), "os.chmod": (0,), "os.chown": (0,), "shutil.rmtree": (0,),
    "shutil.move": (0, 1), "shutil.copytree": (1,),
}


class Escaped(BaseException):
    pass


def _hook(event, args):
    """No call may touch anything outside the scratch directory."""
    root = _allowed[0]
    if root is None:
        return
    if event == "open":
        path, mode, flags = args
        if not isinstance(path, (str, bytes)) or not isinstance(flags, int):
            return
        if not flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
            return
        paths = [path]
    elif event in _WRITE:
        paths = [args[i] for i in _WRITE[event]]
        if event in ("os.remove", "os.rmdir") and args[-1] not in (-1, None):
            return  # relative to a directory which was checked before
    else:
        return
    for path in paths:
        path = os.fsdecode(path) if not isinstance(path, int) else None
        if path is None or path.startswith("/dev/"):
            continue
        real = os.path.join(os.path.realpath(os.path.dirname(os.path.abspath(path))), os.path.basename(path))
        if real != root and not real.startswith(root + os.sep):
            raise Escaped("%s of %s outside the scratch directory" % (event, path))


_installed = []


class contained(object):
    def __init__(self, root):
        self.root = os.path.realpath(root)

    def __enter__(self):
        if not _installed:
            sys.addaudithook(_hook)
            _installed.append(True)
        _allowed[0] = self.root

    def __exit__(self, *args):
        _allowed[0] = None
