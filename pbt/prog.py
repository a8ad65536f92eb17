"""Running the command line programs of the repository in this process"""
import contextlib
import importlib.util
import io
import logging
import os
import sys
from .core import REPO, Violation

_mods = {}


def load(name):
    """program module from the scripts directory"""
    if name not in _mods:
        path = os.path.join(REPO, 'scripts', name + '.py')
        if not os.path.exists(path):
            # programs that are modules of the package
            path = os.path.join(REPO, 'gravity_toolkit', name + '.py')
        spec = importlib.util.spec_from_file_location('program_' + name, path)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        _mods[name] = mod
    return _mods[name]


class _Capture(logging.Handler):
    def __init__(self):
        super().__init__(logging.ERROR)
        self.text = []

    def emit(self, record):
        self.text.append(record.getMessage())


class Failed(Violation):
    reported = ()


def run(name, *args, cwd=None, bare=False):
    """main() with the given arguments; Failed if the program reports an error

    bare: the program configures the logging itself"""
    mod = load(name)
    cap = _Capture()
    root = logging.getLogger()
    old, level, handlers = sys.argv, root.level, root.handlers[:]
    root.handlers[:] = [] if bare else [cap]

    def watch(record):
        if bare and record.levelno >= logging.ERROR:
            cap.emit(record)
        return True
    root.addFilter(watch)
    sys.argv = [os.path.join(REPO, 'scripts', name + '.py')] + [str(a) for a in args]
    here = os.getcwd()
    umask = os.umask(0o022)
    try:
        if cwd is not None:
            os.chdir(cwd)
        out = io.StringIO()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()) as err:
            try:
                mod.main()
            except SystemExit as exc:
                raise Failed(f'{name} exited with {exc.code}: {err.getvalue()[-300:]}')
    finally:
        os.umask(umask)
        os.chdir(here)
        sys.argv = old
        root.removeFilter(watch)
        for h in root.handlers:
            if h is not cap:
                h.close()
        root.handlers[:] = handlers
        root.setLevel(level)
    if cap.text:
        exc = Failed(f'{name} reported: ' + ' | '.join(cap.text)[-500:])
        exc.reported = cap.text
        raise exc
    return out.getvalue()


def stub(name, path):
    """argument file for a program"""
    return path
