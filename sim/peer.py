"""Another process with another hash seed and working directory, which runs workflows on request (C05)."""
import os
import random
import signal
import socket
import sys
import threading
import traceback

from .zygote import send, recv


def serve(path):
    from . import seams
    seams.install('scipy')
    from .props import c05
    from . import lib  # noqa
    s = socket.socket(socket.AF_UNIX)
    s.bind(path)
    s.listen(64)
    os.write(1, b'ready\n')
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)

    def watch():
        while os.read(0, 1):
            pass
        os._exit(0)
    threading.Thread(target=watch, daemon=True).start()
    while True:
        c, _ = s.accept()
        pid = os.fork()
        if pid == 0:
            try:
                s.close()
                os.dup2(2, 1)
                plan, variant = recv(c.fileno())
                send(c.fileno(), c05.variant_result(plan, variant))
            except BaseException:
                traceback.print_exc()
            os._exit(0)
        c.close()


def ask(path, plan, variant, timeout=60):
    c = socket.socket(socket.AF_UNIX)
    c.connect(path)
    send(c.fileno(), (plan, variant))
    try:
        return recv(c.fileno(), timeout)
    finally:
        c.close()


if __name__ == '__main__':
    random.seed(99)
    serve(sys.argv[1])
