import json, os, subprocess, sys, tempfile
BIN = os.path.join(os.getcwd(), "target/debug/url-cleaner")
def run(config, tasks=(), args=(), env=None, timeout=120):
    """Cleans `tasks` (given on standard input) with `config` (None: the default config)."""
    with tempfile.TemporaryDirectory() as d:
        cmd = [BIN]
        if config is not None:
            path = os.path.join(d, "config.json")
            with open(path, "w") as f: json.dump(config, f)
            cmd += ["--config", path]
        cmd += list(args)
        if "--read-cache" not in cmd and config is None: cmd += ["--cache-path", ":memory:"]
        return subprocess.run(cmd, input="".join(t + "\n" for t in tasks), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env={**os.environ, **(env or {})})
def clean(mappers, tasks, args=(), env=None, **rest):
    """The lines printed when the mappers are applied to the tasks (an empty line: an error)."""
    r = run({"rules": [{"Mapper": m} for m in mappers], **rest}, tasks, args, env)
    return r.stdout.split("\n")[:-1]
def expect(got, want):
    if got != want:
        print("got ", got); print("want", want); sys.exit(1)

r = run(None, ["https://a.o93x.net/x", "https://www.reddit.com/r/a/s/b"], ["--flag", "no-network"], {"https_proxy": "http://127.0.0.1:9", "http_proxy": "http://127.0.0.1:9"})
expect(r.stdout.split("\n")[:-1], ["https://a.o93x.net/x", "https://reddit.com/r/a/s/b"])
