"""A web server on the loopback, for code which downloads.

It serves the files of a directory, which the drivers fill.  Next to file F,
F.ctl (JSON) tells how it is sent:
  status     instead of 200
  cut        only so many bytes of it are sent, then the connection is closed
  length     "right" (default), "none", or a number to announce
  chunked    sent in chunks; with cut, the last one is missing
  location   redirection
  drop       the connection is closed without an answer
A line is added to F.req for each request.
"""
import http.server
import json
import os
import threading
import urllib.parse


class Handler(http.server.BaseHTTPRequestHandler):
    protocol_version = 'HTTP/1.1'

    def log_message(self, *args):
        pass

    def do_GET(self):
        path = urllib.parse.unquote(urllib.parse.urlsplit(self.path).path)
        query = urllib.parse.urlsplit(self.path).query
        name = os.path.normpath(os.path.join(
            self.server.root, path.lstrip('/')))
        if query:
            name += '?' + query
        if not name.startswith(self.server.root + '/'):
            self.send_error(404)
            return
        try:
            with open(name + '.req', 'a') as f:
                f.write(self.path + '\n')
            os.chmod(name + '.req', 0o666)
        except OSError:
            pass
        try:
            with open(name + '.ctl') as f:
                ctl = json.load(f)
        except (OSError, ValueError):
            ctl = {}
        self.close_connection = True
        if ctl.get('drop'):
            return
        try:
            with open(name, 'rb') as f:
                data = f.read()
        except OSError:
            data = None
        status = ctl.get('status', 200 if data is not None else 404)
        data = data if data is not None else b'missing'
        self.send_response(status)
        self.send_header('Connection', 'close')
        if ctl.get('location'):
            self.send_header('Location', ctl['location'])
        sent = data[:ctl['cut']] if 'cut' in ctl else data
        try:
            if ctl.get('chunked'):
                self.send_header('Transfer-Encoding', 'chunked')
                self.end_headers()
                size = ctl['chunked']
                for i in range(0, len(sent), size):
                    part = sent[i:i + size]
                    self.wfile.write(b'%x\r\n%s\r\n' % (len(part), part))
                if 'cut' not in ctl:
                    self.wfile.write(b'0\r\n\r\n')
            else:
                length = ctl.get('length', 'right')
                if length == 'right':
                    length = len(data)
                if length != 'none':
                    self.send_header('Content-Length', str(length))
                self.end_headers()
                self.wfile.write(sent)
        except OSError:
            pass


class Server(http.server.ThreadingHTTPServer):
    daemon_threads = True
    request_queue_size = 64

    def handle_error(self, *args):
        pass


def serve(root):
    """Start serving ``root``: its URL."""
    server = Server(('127.0.0.1', 0), Handler)
    server.root = os.path.realpath(root)
    threading.Thread(target=server.serve_forever, daemon=True).start()
    return 'http://127.0.0.1:%d' % server.server_address[1]


def start(ctx):
    """A server for the drivers of this check: (directory, URL)."""
    root = os.path.join(ctx.work, 'www')
    os.mkdir(root)
    os.chmod(root, 0o777)
    return root, serve(root)
