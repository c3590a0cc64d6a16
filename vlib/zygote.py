"""Runs parts of a history in processes of their own, which are killed on the way.

Reads JSON lines {module, function, args, kill} on stdin; every one is executed in a fork of this process,
which has acoular loaded, but has not run anything yet. The fork is killed (SIGKILL) before the
``kill``-th source line of the cache-related acoular modules is executed, or at the end.
"""

import contextlib
import importlib
import json
import os
import signal
import subprocess
import sys

FILES = ('process.py', 'h5cache.py', 'h5files.py', 'fbeamform.py', 'spectra.py')
# interrupts come while something is calculated, written or read, not within the bookkeeping of open files and nodes
INTERRUPTED = ('process.py', 'fbeamform.py', 'spectra.py')


def kill():
    os.kill(os.getpid(), signal.SIGKILL)


def interrupt():
    raise KeyboardInterrupt


def counter(n, act, files=FILES):
    """Trace function that acts before the n-th source line of the caching modules."""
    left = [n]
    import acoular

    directory = os.path.dirname(os.path.abspath(acoular.__file__))
    watched = tuple(os.path.join(directory, f) for f in files)

    def lines(frame, event, arg):
        if event == 'line':
            left[0] -= 1
            if left[0] == -1:
                act()
        return lines

    def bookkeeping(frame):
        while frame is not None:
            if frame.f_code.co_name == '_get_filecache':
                return True
            frame = frame.f_back
        return False

    def calls(frame, event, arg):
        return lines if frame.f_code.co_filename in watched and (files is FILES or not bookkeeping(frame)) else None

    return calls


@contextlib.contextmanager
def interrupted(n):
    sys.settrace(counter(n, interrupt, INTERRUPTED))
    try:
        yield
    finally:
        sys.settrace(None)


def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.dont_write_bytecode = True
    sys.path.insert(0, here)
    sys.path.append(os.environ['VF_HYP'])
    out = os.fdopen(os.dup(1), 'w', buffering=1)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    from vlib import core

    sys.path.insert(0, core.REPO)
    import warnings

    import acoular

    warnings.simplefilter('ignore')
    for line in sys.stdin:
        t = json.loads(line)
        fn = getattr(importlib.import_module(t['module']), t['function'])
        pid = os.fork()
        if pid == 0:
            try:
                signal.alarm(60)
                fn(*t['args'], lambda: sys.settrace(counter(t['kill'], kill)))
                kill()
            except BaseException as e:  # noqa: BLE001
                import traceback

                sys.settrace(None)
                with open(t['report'], 'w') as f:
                    f.write(f'{type(e).__name__}: {e}\n' + traceback.format_exc()[-1500:])
            finally:
                os._exit(3)
        _, status = os.waitpid(pid, 0)
        print(json.dumps(status), file=out, flush=True)


class Zygote:
    def __init__(self):
        self.p = subprocess.Popen([sys.executable, os.path.abspath(__file__)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def run(self, module, function, args, kill, report):
        """Signal that ended the process, or 0 and the text of the exception that did."""
        if os.path.exists(report):
            os.remove(report)
        self.p.stdin.write((json.dumps({'module': module, 'function': function, 'args': args, 'kill': kill, 'report': report}) + '\n').encode())
        self.p.stdin.flush()
        status = json.loads(self.p.stdout.readline())
        if os.path.exists(report):
            with open(report) as f:
                return 0, f.read()
        return os.WTERMSIG(status) if os.WIFSIGNALED(status) else 0, f'exit status {status}'


if __name__ == '__main__':
    main()
