"""Minimal LSP client for demonstrations: drives ./target/debug/jinja-lsp over stdio
inside a temporary workspace which is removed at the end."""
import json, os, queue, shutil, subprocess, sys, tempfile, threading, time

BIN = os.path.join(os.getcwd(), "target/debug/jinja-lsp")


class Lsp:
    def __init__(self, files=None, options="default", read=True, caps=None, name=None, init=True):
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix="jlsp-demo-"))
        self.write("templates/.keep", "")
        self.write("src/.keep", "")
        for k, v in (files or {}).items():
            self.write(k, v)
        self.p = subprocess.Popen([BIN], cwd=self.dir, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        self.inbox = queue.Queue()
        self.responses = {}
        self.diags = {}
        self.published = []
        self.logs = []
        self.next = 1
        self.versions = {}
        self.reading = threading.Event()
        if read:
            self.reading.set()
        self.t = threading.Thread(target=self._reader, daemon=True)
        self.t.start()
        if init:
            params = {"processId": None, "rootUri": None, "capabilities": {}}
            if name:
                params["clientInfo"] = {"name": name}
            if options == "default":
                options = {"templates": "templates", "backend": ["src"], "lang": "rust"}
            if options is not None:
                params["initializationOptions"] = options
            self.req("initialize", params)
            self.notify("initialized", {})

    def __enter__(self):
        return self

    def __exit__(self, *a):
        try:
            self.p.kill()
            self.p.wait()
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, rel):
        return os.path.join(self.dir, rel)

    def uri(self, rel):
        return "file://" + self.path(rel)

    def write(self, rel, text):
        p = self.path(rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(text if isinstance(text, bytes) else text.encode())

    def _reader(self):
        self.reading.wait()
        f = self.p.stdout
        while True:
            n = None
            while True:
                line = f.readline()
                if not line:
                    return
                line = line.strip()
                if not line:
                    break
                if line.lower().startswith(b"content-length:"):
                    n = int(line.split(b":")[1])
            m = json.loads(f.read(n))
            if "id" in m and "method" not in m:
                self.responses.setdefault(m["id"], []).append(m)
            elif m.get("method") == "textDocument/publishDiagnostics":
                self.published.append((m["params"]["uri"], m["params"]["diagnostics"]))
                self.diags[m["params"]["uri"]] = m["params"]["diagnostics"]
            elif m.get("method") == "window/logMessage":
                self.logs.append(m["params"]["message"])

    def raw(self, obj):
        b = json.dumps(obj).encode()
        return b"Content-Length: %d\r\n\r\n" % len(b) + b

    def send(self, *objs):
        self.p.stdin.write(b"".join(self.raw(o) for o in objs))
        self.p.stdin.flush()

    def msg(self, method, params):
        return {"jsonrpc": "2.0", "method": method, "params": params}

    def notify(self, method, params):
        self.send(self.msg(method, params))

    def mkreq(self, method, params):
        i = self.next
        self.next += 1
        return i, {"jsonrpc": "2.0", "id": i, "method": method, "params": params}

    def start(self, method, params):
        i, m = self.mkreq(method, params)
        self.send(m)
        return i

    def wait(self, i, timeout=20):
        end = time.time() + timeout
        while time.time() < end:
            if i in self.responses:
                return self.responses[i][0]
            time.sleep(0.005)
        return None

    def req(self, method, params, timeout=20):
        r = self.wait(self.start(method, params), timeout)
        if r is None:
            raise NoAnswer(method)
        return r.get("result")

    # documents
    def m_open(self, rel, text):
        self.versions[rel] = 1
        return self.msg("textDocument/didOpen", {"textDocument": {
            "uri": self.uri(rel), "languageId": "jinja", "version": 1, "text": text}})

    def open(self, rel, text=None):
        if text is None:
            text = open(self.path(rel), encoding="utf-8", newline="").read()
        self.send(self.m_open(rel, text))

    def m_change(self, rel, *changes):
        self.versions[rel] = self.versions.get(rel, 1) + 1
        out = []
        for c in changes:
            if isinstance(c, str):
                out.append({"text": c})
            else:
                (l1, c1, l2, c2), t = c
                out.append({"range": {"start": {"line": l1, "character": c1},
                                      "end": {"line": l2, "character": c2}}, "text": t})
        return self.msg("textDocument/didChange", {
            "textDocument": {"uri": self.uri(rel), "version": self.versions[rel]},
            "contentChanges": out})

    def change(self, rel, *changes):
        self.send(self.m_change(rel, *changes))

    def save(self, rel):
        self.notify("textDocument/didSave", {"textDocument": {"uri": self.uri(rel)}})

    def close(self, rel):
        self.notify("textDocument/didClose", {"textDocument": {"uri": self.uri(rel)}})

    def at(self, rel, line, col, **kw):
        d = {"textDocument": {"uri": self.uri(rel)}, "position": {"line": line, "character": col}}
        d.update(kw)
        return d

    def completion(self, rel, line, col, kind=1):
        r = self.req("textDocument/completion", self.at(rel, line, col, context={"triggerKind": kind}))
        return r

    def labels(self, rel, line, col):
        r = self.completion(rel, line, col)
        return None if r is None else sorted(i["label"] for i in r)

    def hover(self, rel, line, col):
        r = self.req("textDocument/hover", self.at(rel, line, col))
        return None if r is None else r["contents"]["value"]

    def goto(self, rel, line, col):
        return self.req("textDocument/definition", self.at(rel, line, col))

    def symbols(self, rel):
        return self.req("textDocument/documentSymbol", {"textDocument": {"uri": self.uri(rel)}})

    def actions(self, rel, line, col):
        p = {"line": line, "character": col}
        return self.req("textDocument/codeAction", {"textDocument": {"uri": self.uri(rel)},
                        "range": {"start": p, "end": p}, "context": {"diagnostics": []}})

    def command(self, c):
        return self.req("workspace/executeCommand", {"command": c, "arguments": []})

    def settle(self, seconds=0.8):
        time.sleep(seconds)

    def errors(self, rel):
        """(message, line, start, end) of the diagnostics shown for a file"""
        return sorted((d["message"], d["range"]["start"]["line"], d["range"]["start"]["character"],
                       d["range"]["end"]["character"]) for d in self.diags.get(self.uri(rel), []))


class NoAnswer(Exception):
    pass


def check(cond, text):
    if not cond:
        print("FAIL:", text)
        sys.exit(1)
