"""Runs a history of operations on a real http(s) service, over loopback.

usage: http_net.py tls|plain OP...   (prints one JSON list of results)"""
import http.client
import json
import os
import socket
import ssl
import sys
import threading

sys.path.insert(0, os.environ.get("VTELEM_REPO", "/repo"))

# pylint: disable=wrong-import-position
from vtelem.classes.http_request_mapper import MapperAwareRequestHandler
from vtelem.daemon.http import HttpDaemon
from vtelem.mtu import Host

HERE = os.path.dirname(os.path.abspath(__file__))
WAIT = 6.0


def main(kind, ops):
    daemon = HttpDaemon(
        "web", Host("127.0.0.1", 0), MapperAwareRequestHandler
    )
    calls = []

    def echo(_, data):
        calls.append(1)
        return True, json.dumps({k: data[k] for k in sorted(data)})

    daemon.add_handler("GET", "echo", echo)
    daemon.add_handler("POST", "echo", echo)
    if kind == "tls":
        daemon.use_tls(f"{HERE}/tls.key", f"{HERE}/tls.cert")
    port = daemon.server.server_address[1]
    kept = []

    def connection():
        if kind == "tls":
            ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
            ctx.check_hostname = False
            ctx.verify_mode = ssl.CERT_NONE
            return http.client.HTTPSConnection(
                "127.0.0.1", port, timeout=WAIT, context=ctx
            )
        return http.client.HTTPConnection("127.0.0.1", port, timeout=WAIT)

    def request(method, path, body=None, headers=None):
        conn = connection()
        try:
            conn.request(method, path, body, headers or {})
            answer = conn.getresponse()
            return [answer.status, answer.read().decode()[:200]]
        except (OSError, http.client.HTTPException) as exc:
            return [type(exc).__name__, ""]
        finally:
            conn.close()

    def within(func):
        """The result of something that must not take for ever."""
        box = []
        thread = threading.Thread(target=lambda: box.append(func()),
                                  daemon=True)
        thread.start()
        thread.join(WAIT)
        return box[0] if box else "hangs"

    def started():
        if not daemon.start():
            return False
        daemon.running.wait(WAIT)
        return True

    results = []
    for op in ops:
        if op == "start":
            results.append(within(started))
        elif op == "stop":
            results.append(within(daemon.stop))
        elif op == "restart":
            done = within(daemon.restart)
            daemon.running.wait(WAIT)
            results.append(done)
        elif op == "get":
            results.append(within(lambda: request("GET", "/echo?a=1")))
        elif op == "big":
            results.append(within(lambda: request(
                "POST", "/nowhere", b"x" * (1 << 22),
                {"Content-Type": "application/octet-stream"},
            )))
        elif op == "post":
            results.append(within(lambda: request(
                "POST", "/echo", b"a=%C3%A9&b=" + b"y" * 50,
                {"Content-Type": "application/x-www-form-urlencoded"},
            )))
        elif op in ("idle", "garbage"):
            sock = socket.create_connection(("127.0.0.1", port), timeout=WAIT)
            if op == "garbage":
                sock.sendall(b"\x00\x01 nonsense\r\n\r\n\r\n")
            kept.append(sock)
            results.append(True)
        elif op == "tls again":
            daemon.use_tls(f"{HERE}/tls.key", f"{HERE}/tls.cert")
            results.append(True)
        elif op == "close":
            results.append(within(daemon.close))
        else:
            raise ValueError(op)
    print(json.dumps({"results": results, "calls": len(calls),
                      "state": daemon.get_state_str()}), flush=True)
    os._exit(0)


main(sys.argv[1], sys.argv[2:])
