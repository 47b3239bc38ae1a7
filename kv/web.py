"""A loopback HTTP server (one per process, started on first use) serving what a case asks for."""
import http.server
import os
import socket
import ssl
import threading

os.environ["NO_PROXY"] = os.environ["no_proxy"] = "*"
_state = {"pid": None}


HERE = os.path.dirname(os.path.abspath(__file__))


class Quiet(http.server.ThreadingHTTPServer):
    def handle_error(self, request, client_address):
        pass


class Handler(http.server.BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.0"

    def log_message(self, *a):
        pass

    def do_GET(self):
        r = _state["routes"].get(self.path.split("?")[0])
        _state["hits"].append(self.path)
        if r is None:
            r = {"status": 404, "body": b"not here\n", "ctype": "text/html"}
        if r.get("drop"):
            self.connection.shutdown(socket.SHUT_RDWR)
            return
        self.send_response_only(r.get("status", 200))
        if r.get("ctype") is not None:
            self.send_header("Content-Type", r["ctype"])
        for k, v in r.get("headers", ()):
            self.send_header(k, v)
        body = r.get("body", b"")
        self.send_header("Content-Length", str(len(body) + r.get("missing", 0)))
        self.end_headers()
        self.wfile.write(body)


def server():
    """-> base URL; the routes are emptied."""
    if _state["pid"] != os.getpid():
        s = Quiet(("127.0.0.1", 0), Handler)
        s.daemon_threads = True
        t = threading.Thread(target=s.serve_forever, kwargs={"poll_interval": 0.02}, daemon=True)
        t.start()
        _state.update(pid=os.getpid(), srv=s, base="http://127.0.0.1:%d" % s.server_port)
    _state["routes"] = {}
    _state["hits"] = []
    return _state["base"]


def tls_server():
    """-> base URL of a TLS server with a certificate nobody vouches for, with the same routes."""
    server()
    if "tls" not in _state or _state.get("tlspid") != os.getpid():
        ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
        ctx.load_cert_chain(HERE + "/tls/cert.pem", HERE + "/tls/key.pem")
        s = Quiet(("127.0.0.1", 0), Handler)
        s.daemon_threads = True
        s.socket = ctx.wrap_socket(s.socket, server_side=True)
        t = threading.Thread(target=s.serve_forever, kwargs={"poll_interval": 0.02}, daemon=True)
        t.start()
        _state.update(tlspid=os.getpid(), tls="https://127.0.0.1:%d" % s.server_port, tlssrv=s)
    return _state["tls"]


def route(path, **kw):
    _state["routes"][path] = kw


def closed_port():
    with socket.socket() as s:
        s.bind(("127.0.0.1", 0))
        return s.getsockname()[1]
