"""Runs the pod built in the current directory's rust/target/debug on a ledger."""
import json, os, subprocess, sys, tempfile
POD = os.path.abspath("rust/target/debug/limabean-pod")
BIN = os.path.abspath("rust/target/debug/limabean")


def serve(ledger, reqs, raw=False):
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "l.bean")
        with open(f, "wb") as h:
            h.write(ledger if isinstance(ledger, bytes) else ledger.encode())
        lines = b"".join((r if isinstance(r, bytes) else r.encode() if isinstance(r, str) else json.dumps(r).encode()) + b"\n" for r in reqs)
        p = subprocess.run([POD, "serve", f], input=lines, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        out = p.stdout.split(b"\n")
        if out and out[-1] == b"":
            out.pop()
        return out if raw else [json.loads(l) for l in out], p.returncode


def call(ledger, method, params=None):
    r = {"jsonrpc": "2.0", "id": 1, "method": method}
    if params is not None:
        r["params"] = params
    a, code = serve(ledger, [r])
    return a[0]


def book(ledger):
    return call(ledger, "book")


def errors(a):
    return [e for e in a.get("error", {}).get("data", [])]


def expect(c, what):
    if not c:
        print("FAILED:", what)
        sys.exit(1)
