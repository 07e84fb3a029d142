"""Loopback TLS for the download checks: a self-signed certificate (for 127.0.0.1,
localhost and github.com, trusted by this process only) and name resolution that
leads every host name it is given for to the loopback server."""
import os, socket, ssl

D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "tls")


def trust():
    for k in ("SSL_CERT_FILE", "REQUESTS_CA_BUNDLE", "CURL_CA_BUNDLE"): os.environ[k] = os.path.join(D, "cert.pem")


def wrap(server):
    c = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER); c.load_cert_chain(os.path.join(D, "cert.pem"), os.path.join(D, "key.pem"))
    server.socket = c.wrap_socket(server.socket, server_side=True, do_handshake_on_connect=False)
    return server


def resolve_to(port):
    """host names other than the loopback ones -> this server; returns the list of names asked for"""
    asked, real = [], socket.getaddrinfo
    def f(host, p, *a, **k):
        if host in ("127.0.0.1", "localhost", "::1", None, ""): return real(host, p, *a, **k)
        asked.append((str(host), p))
        return real("127.0.0.1", port, *a, **k)
    socket.getaddrinfo = f
    return asked
