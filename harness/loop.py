"""A real HTTP(S) server on the loopback interface, for what only real connections show."""
import socket
import struct
import threading

from wire import Reply


class Loop:
    """handler(Got) -> Reply | "hang" (keep the connection open, say nothing) | "close" | "reset"; Got: conn, seq, method, path, headers, body."""

    def __init__(self, handler, tls=None, tunnel=False):
        """tunnel: a proxy, connections begin with a CONNECT request (kept in .tunnels)."""
        self.handler, self.tls, self.tunnel = handler, tls, tunnel
        self.tunnels = []
        self.sock = socket.create_server(("127.0.0.1", 0))
        self.port = self.sock.getsockname()[1]
        self.lock = threading.Lock()
        self.got = []
        self.conns = []
        self.errors = []
        self.opened = 0
        self.ended = threading.Semaphore(0)  # one for each connection the client ended
        self.stop = False
        self.release = threading.Event()
        self.thread = threading.Thread(target=self.accept, daemon=True)
        self.thread.start()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.stop = True
        self.release.set()
        try:
            self.sock.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.sock.close()
        for c in list(self.conns):
            self.shut(c)

    @staticmethod
    def shut(c):
        try:
            c.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        try:
            c.close()
        except OSError:
            pass

    def drop_all(self):
        """Closes every connection the clients hold."""
        with self.lock:
            cs, self.conns = self.conns, []
        for c in cs:
            self.shut(c)

    def accept(self):
        while not self.stop:
            try:
                c, _ = self.sock.accept()
            except OSError:
                return
            with self.lock:
                self.opened += 1
                n = self.opened
                self.conns.append(c)
            threading.Thread(target=self.serve, args=(c, n), daemon=True).start()

    def serve(self, c, n):
        try:
            c.settimeout(20)
            if self.tunnel:
                head = b""
                while b"\r\n\r\n" not in head:
                    part = c.recv(1)
                    if not part:
                        return
                    head += part
                with self.lock:
                    self.tunnels.append(head.decode("latin-1"))
                c.sendall(b"HTTP/1.1 200 Connection established\r\n\r\n")
            if self.tls is not None:
                c = self.tls.wrap_socket(c, server_side=True)
                with self.lock:
                    self.conns.append(c)
            f = c.makefile("rb")
            while not self.stop:
                line = f.readline()
                if not line:
                    self.ended.release()
                    break
                method, path, _ = line.decode("latin-1").split(" ", 2)
                headers = {}
                while True:
                    h = f.readline()
                    if h in (b"\r\n", b"\n", b""):
                        break
                    k, _, v = h.decode("latin-1").partition(":")
                    headers[k.strip().lower()] = v.strip()
                body = f.read(int(headers.get("content-length") or 0))
                g = Got(n, method, path, headers, body)
                with self.lock:
                    self.got.append(g)
                    r = self.handler(g)
                if r == "hang":
                    self.release.wait(20)
                    break
                if r == "close":
                    break
                if r == "reset":
                    c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                    break
                out = "HTTP/1.1 %d %s\r\nContent-Length: %d\r\n" % (r.status, r.reason, len(r.body))
                for k, v in r.headers.items():
                    out += "%s: %s\r\n" % (k, v)
                c.sendall(out.encode("latin-1") + b"\r\n" + r.body)
        except OSError:
            pass
        except BaseException as e:
            self.errors.append(e)
        finally:
            try:
                c.close()
            except OSError:
                pass


class Got:
    def __init__(self, conn, method, path, headers, body):
        self.conn, self.method, self.path, self.headers, self.body = conn, method, path, headers, body
        self.timeout = None
        self.url = path


def free_port():
    s = socket.create_server(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p
