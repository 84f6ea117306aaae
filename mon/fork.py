"""Running functions in forked child processes, that start with the pristine state of the package."""
import multiprocessing
import os
import pickle
import signal
import sys
import traceback


class ChildFailed(Exception):
    pass


def isolated(function, *args, timeout=40):
    """returns the function's result, after it has been executed in a forked process"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(timeout)
            os.close(r)
            try:
                result = (True, function(*args))
            except BaseException as e:      # pylint: disable=broad-except
                result = (False, f"{type(e).__name__}: {e} [{'; '.join(f'{os.path.basename(f.filename)}:{f.lineno}' for f in traceback.extract_tb(e.__traceback__)[-3:])}]")
            with os.fdopen(w, "wb") as f:
                pickle.dump(result, f)
            code = 0
        finally:
            sys.stdout.flush()
            os._exit(code)      # pylint: disable=protected-access
    os.close(w)
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
    finally:
        _, status = os.waitpid(pid, 0)
    if not data or status != 0:
        raise ChildFailed(f"the process ended with the status {status} (signal {status & 127})")
    ok, result = pickle.loads(data)
    if not ok:
        raise ChildFailed(result)
    return result


class Companion:
    """a process, that has been forked from the pristine state and executes one function after the other"""

    def __init__(self, timeout=120):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(timeout)
                multiprocessing.RawArray("d", 1)    # multiprocessing's heap, from which SuMPF allocates arrays, must not be reinitialized by multiple threads at once after a fork
                os.close(w1)
                os.close(r2)
                with os.fdopen(r1, "rb") as i, os.fdopen(w2, "wb") as o:
                    while True:
                        try:
                            function, args = pickle.load(i)
                        except EOFError:
                            break
                        try:
                            result = (True, function(*args))
                        except BaseException as e:      # pylint: disable=broad-except
                            result = (False, f"{type(e).__name__}: {e}")
                        pickle.dump(result, o)
                        o.flush()
            finally:
                os._exit(0)     # pylint: disable=protected-access
        os.close(r1)
        os.close(w2)
        self.o, self.i = os.fdopen(w1, "wb"), os.fdopen(r2, "rb")

    def __call__(self, function, *args):
        pickle.dump((function, args), self.o)
        try:
            self.o.flush()
            ok, result = pickle.load(self.i)
        except (EOFError, BrokenPipeError) as e:
            raise ChildFailed(f"the process died while executing {function.__name__}") from e
        if not ok:
            raise ChildFailed(result)
        return result

    def __enter__(self):
        return self

    def __exit__(self, *args):
        try:
            self.o.close()
            self.i.close()
        except OSError:
            pass
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(self.pid, 0)
