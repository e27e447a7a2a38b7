import json, os, subprocess, sys, tempfile
BIN = os.path.join(os.getcwd(), "target/debug/url-cleaner")
def run(config, tasks=(), args=(), env=None, timeout=120):
    """Cleans `tasks` (given on standard input) with `config` (None: the default config)."""
    with tempfile.TemporaryDirectory() as d:
        cmd = [BIN]
        if config is not None:
            path = os.path.join(d, "config.json")
            with open(path, "w") as f: json.dump(config, f)
            cmd += ["--config", path]
        cmd += list(args)
        if "--read-cache" not in cmd and config is None: cmd += ["--cache-path", ":memory:"]
        return subprocess.run(cmd, input="".join(t + "\n" for t in tasks), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env={**os.environ, **(env or {})})
def clean(mappers, tasks, args=(), env=None, **rest):
    """The lines printed when the mappers are applied to the tasks (an empty line: an error)."""
    r = run({"rules": [{"Mapper": m} for m in mappers], **rest}, tasks, args, env)
    return r.stdout.split("\n")[:-1]
def expect(got, want):
    if got != want:
        print("got ", got); print("want", want); sys.exit(1)

import threading, http.server
ASKED = []
class H(http.server.BaseHTTPRequestHandler):
    def do_GET(self):
        ASKED.append(self.path)
        to = None; body = ANSWERS.get(self.path, '').encode()
        self.send_response(301 if to else 404)
        if to: self.send_header("Location", to)
        self.send_header("Content-Length", str(len(body))); self.end_headers(); self.wfile.write(body)
    def log_message(self, *a): pass
s = http.server.HTTPServer(("127.0.0.1", 0), H); threading.Thread(target=s.serve_forever, daemon=True).start()
P = "http://127.0.0.1:%d" % s.server_port

ANSWERS = {"http://bfy.tw/abc?utm_source=x": '<a href="http://example.com/a">', "http://bfy.tw/abc": '<a href="http://example.com/a">'}
r = run(None, ["http://bfy.tw/abc?utm_source=x"], ["--flag", "no-https-upgrade", "--proxy", P])
expect((r.stdout, ASKED), ("http://example.com/a\n", ["http://bfy.tw/abc"]))
