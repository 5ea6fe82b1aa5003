"""Load the clang AST (JSON) of a translation unit of /repo, keeping only the
declarations that come from the repository's own files."""
import json
import os
import re
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
CLANG = "clang++-18"


def dump(path, extra=()):
    cmd = [CLANG, "-std=c++17", "-fopenmp", "-Wno-everything", "-I" + os.path.join(HERE, "stub"),
           "-fsyntax-only", "-Xclang", "-ast-dump=json", *extra, os.path.basename(path)]
    with tempfile.TemporaryFile() as out:
        p = subprocess.run(cmd, cwd=os.path.dirname(path), stdout=out, stderr=subprocess.PIPE)
        if p.returncode != 0:
            raise RuntimeError("clang cannot parse %s:\n%s" % (path, p.stderr.decode()[-2000:]))
        out.seek(0)
        return out.read()


_FILE = re.compile(rb'"file": "([^"]*)"')


class Unit:
    def __init__(self, path, extra=()):
        self.path = path
        self.raw = dump(path, extra)
        self.decls = []
        self.by_id = {}
        self._split()

    def _split(self):
        raw = self.raw
        pos = raw.find(b"\n    {")
        cur = b""
        d = os.path.dirname(self.path)
        base = os.path.basename(self.path)
        while pos >= 0:
            end = raw.find(b"\n    }", pos)
            if end < 0:
                break
            chunk = raw[pos:end + 6]
            # locations are delta encoded: the file of a declaration is the last one named before
            head_end = chunk.find(b'"range"')
            m = _FILE.search(chunk, 0, head_end if head_end > 0 else len(chunk))
            here = cur
            if m:
                here = m.group(1)
            ms = chunk.rfind(b'"file": "')
            if ms >= 0:
                cur = _FILE.match(chunk, ms).group(1)
            elif m:
                cur = here
            fn = here.decode()
            if fn and not fn.startswith("/") or fn.startswith(d):
                dec = json.loads(chunk)
                dec["_file"] = fn
                self.decls.append(dec)
            pos = raw.find(b"\n    {", end)
        for dcl in self.decls:
            self._index(dcl)

    def _index(self, n):
        st = [n]
        while st:
            x = st.pop()
            if isinstance(x, dict):
                if "id" in x and "kind" in x and x["kind"].endswith("Decl"):
                    self.by_id.setdefault(x["id"], x)
                st.extend(x.get("inner", ()))

    def lookup(self, id_):
        """Any declaration of the unit, also of the standard library."""
        if id_ in self.by_id:
            return self.by_id[id_]
        key = b'"id": "%s",\n' % id_.encode()
        pos = 0
        while True:
            pos = self.raw.find(key, pos)
            if pos < 0:
                return None
            ls = self.raw.rfind(b"\n", 0, pos) + 1
            ind = self.raw[ls:pos]
            if self.raw[pos + len(key):].lstrip()[:7] == b'"kind":' or b'"kind"' in self.raw[pos:pos + 120]:
                k = self.raw[pos:pos + 160]
                if b'Decl"' in k:
                    opn = self.raw.rfind(b"{", 0, pos)
                    close = self.raw.find(b"\n" + ind[:-2] + b"}", pos)
                    try:
                        dec = json.loads(self.raw[opn:close + len(ind)])
                    except ValueError:
                        pos += 1
                        continue
                    if "inner" in dec or True:
                        self.by_id[id_] = dec
                        return dec
            pos += 1

    def functions(self):
        """name -> list of (instantiated) function declarations with a body."""
        out = {}

        def add(f):
            if any(c.get("kind") == "CompoundStmt" for c in f.get("inner", ())):
                out.setdefault(f["name"], []).append(f)

        def go(d):
            k = d.get("kind")
            if k == "FunctionDecl":
                add(d)
            elif k == "FunctionTemplateDecl":
                fs = [c for c in d.get("inner", ()) if c.get("kind") == "FunctionDecl"]
                for f in fs:
                    # the first one is the pattern; instantiations have template arguments
                    if any(c.get("kind") == "TemplateArgument" for c in f.get("inner", ())):
                        f["_targs"] = [c.get("type", {}).get("qualType", c.get("value")) for c in f["inner"]
                                       if c.get("kind") == "TemplateArgument"]
                        add(f)
            elif k in ("NamespaceDecl", "LinkageSpecDecl", "CXXRecordDecl"):
                for c in d.get("inner", ()):
                    go(c)
        for d in self.decls:
            go(d)
        return out


if __name__ == "__main__":
    import sys
    import time
    t = time.time()
    u = Unit(sys.argv[1])
    print(len(u.decls), time.time() - t)
    for n, fs in u.functions().items():
        print(n, [(f.get("_targs"), f["type"]["qualType"][:60]) for f in fs])
