"""The command line tools, in process and as real processes."""
import contextlib
import importlib.util
import io
import os
import readline as READLINE
import subprocess
import sys
import warnings

from . import real

_mods = {}


def module(name):
    if name not in _mods:
        spec = importlib.util.spec_from_file_location("kv_tool_" + name, os.path.join(real.REPO, "tools", name + ".py"))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        _mods[name] = m
    return _mods[name]


class Out:
    """What a call gave: value (of main), code (if it exited), stdout, stderr, error (what escaped)."""


class Typed(io.StringIO):
    """Standard input: what is typed, then the end or an interrupt."""
    def __init__(self, text, interrupt):
        super().__init__(text)
        self.interrupt = interrupt

    def readline(self, *a):                                         # pylint: disable=arguments-differ
        l = super().readline(*a)
        if not l and self.interrupt:
            raise KeyboardInterrupt
        return l


class FakeReadline:
    """The part of the readline module a completer asks."""
    def __init__(self, line, begin, end):
        self.get_line_buffer, self.get_begidx, self.get_endidx = lambda: line, lambda: begin, lambda: end


def call(name, argv, stdin=None):
    m = module(name)
    r = Out()
    r.value = r.code = r.error = None
    out, err = io.StringIO(), io.StringIO()
    old_in, old_argv = sys.stdin, sys.argv
    sys.argv = [name]
    if stdin is not None:
        sys.stdin = io.StringIO(stdin) if isinstance(stdin, str) else stdin
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            warnings.simplefilter("ignore")
            try:
                r.value = m.main(argv)
            except SystemExit as e:
                r.code = e.code
            except Exception as e:                                  # pylint: disable=broad-except
                r.error = e
    finally:
        sys.stdin, sys.argv = old_in, old_argv
    r.stdout, r.stderr = out.getvalue(), err.getvalue()
    return r


# an environment whose preferred encoding is ASCII
ASCII = {"LC_ALL": "C", "LANG": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}


def process(name, argv, stdin="", cwd=None, tmp=None, extra=None):
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env.update(PYTHONPATH=real.REPO, PYTHONDONTWRITEBYTECODE="1")
    if tmp:
        env["TMPDIR"] = tmp
    env.update(extra or {})
    r = subprocess.run([sys.executable, os.path.join(real.REPO, "tools", name + ".py")] + argv, input=stdin, text=True,
                       capture_output=True, env=env, cwd=cwd, check=False, timeout=120)
    o = Out()
    o.code, o.stdout, o.stderr = r.returncode, r.stdout, r.stderr
    return o
