"""Native replay: the code of /repo's working tree compiled with a generated `main` that runs it
on the solver's values and prints what it computed."""
import json
import os
import re
import shutil
import subprocess
import sys

import mirclient
from mirclient import BUILD, REPO, Lock
from values import Unsupported

RUNTIME = r'''
fn __js(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        if c == '"' || c == '\\' { o.push('\\'); o.push(c); }
        else if (c as u32) < 32 || (c as u32) > 126 {
            let mut b = [0u16; 2];
            for u in c.encode_utf16(&mut b) { o.push_str(&format!("\\u{:04x}", u)); }
        }
        else { o.push(c); }
    }
    o.push('"');
}
'''


def rust_ty(m, t):
    ty = m.ty(t)
    k = ty["k"]
    if k in ("bool", "int", "uint", "char", "str"):
        return ty["name"]
    if k == "ref":
        return "&" + rust_ty(m, ty["elem"])
    if k == "slice":
        return "[%s]" % rust_ty(m, ty["elem"])
    if k == "tuple":
        return "(%s)" % "".join(rust_ty(m, x) + "," for x in ty["elems"])
    if k == "adt":
        p = ("crate::" if ty["local"] else "") + ty["path"]
        a = [x for x in ty["args"]]
        if p.endswith(("HashMap", "HashSet", "Vec", "Box")):
            a = a[:{"HashMap": 2}.get(p.split("::")[-1], 1)]
        return p + ("<%s>" % ",".join(rust_ty(m, x) for x in a) if a else "")
    raise Unsupported("no Rust spelling for " + ty["name"])


class Show:
    """generates functions printing values of a type as JSON in the shape pg.rec uses"""

    def __init__(self, m):
        self.m, self.done, self.out = m, {}, [RUNTIME]

    def fn(self, t):
        if t in self.done:
            return self.done[t]
        m = self.m
        ty = m.ty(t)
        n = self.done[t] = "__show_%d" % t
        k = ty["k"]
        p = ty.get("path", "")
        if k == "bool" or k in ("int", "uint"):
            body = "o.push_str(&v.to_string());"
        elif k == "str" or p == "std::string::String":
            body = "__js(v, o);"
        elif k == "ref":
            body = "%s(v, o);" % self.fn(ty["elem"])
        elif k == "tuple":
            body = "o.push('[');" + "o.push(',');".join(
                "%s(&v.%d, o);" % (self.fn(e), i) for i, e in enumerate(ty["elems"])) + "o.push(']');"
        elif p == "std::option::Option":
            body = "match v { None => o.push_str(\"null\"), Some(x) => %s(x, o) }" % self.fn(ty["args"][0])
        elif p == "std::result::Result":
            body = ("match v { Ok(x) => { o.push_str(\"{\\\"ok\\\":\"); %s(x, o); o.push('}') }, "
                    "Err(_) => o.push_str(\"{\\\"err\\\":true}\") }" % self.fn(ty["args"][0]))
        elif p == "std::vec::Vec" or k == "slice":
            e = ty["args"][0] if k == "adt" else ty["elem"]
            body = ("o.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } %s(x, o); } o.push(']');"
                    % self.fn(e))
        elif p.endswith(("HashMap", "BTreeMap")):
            body = ("let mut l: Vec<_> = v.iter().collect(); l.sort_by(|a, b| a.0.cmp(b.0)); o.push_str(\"{\\\"__map\\\":[\"); "
                    "for (i, (a, b)) in l.iter().enumerate() { if i > 0 { o.push(','); } o.push('['); %s(a, o); o.push(','); %s(b, o); o.push(']'); } "
                    "o.push_str(\"]}\");" % (self.fn(ty["args"][0]), self.fn(ty["args"][1])))
        elif p.endswith("PathBuf"):
            body = "__js(&v.to_string_lossy(), o);"
        elif k == "adt":
            arms = []
            for var in ty["variants"]:
                fs = var["fields"]
                path = "crate::" + p + ("::" + var["name"] if ty["kind"] == "enum" else "")
                if not fs:
                    pat, b = path, "__js(\"%s\", o);" % var["name"]
                elif fs[0][0].isdigit():
                    pat = "%s(%s)" % (path, ",".join("f%s" % f[0] for f in fs))
                    if ty["kind"] == "enum" and len(fs) == 1:
                        b = ("o.push_str(\"{\\\"__variant\\\":\\\"%s\\\",\\\"__v\\\":\"); %s(f0, o); o.push('}');"
                             % (var["name"], self.fn(fs[0][1])))
                    else:
                        b = "o.push('[');" + "o.push(',');".join("%s(f%s, o);" % (self.fn(f[1]), f[0]) for f in fs) + "o.push(']');"
                else:
                    pat = "%s{%s}" % (path, ",".join(f[0] for f in fs))
                    b = "o.push('{');" + "o.push(',');".join(
                        "o.push_str(\"\\\"%s\\\":\"); %s(%s, o);" % (f[0], self.fn(f[1]), f[0]) for f in fs) + "o.push('}');"
                    if ty["kind"] == "enum":
                        b = "o.push_str(\"{\\\"__variant\\\":\\\"%s\\\",\\\"__v\\\":\"); %s o.push('}');" % (var["name"], b)
                arms.append("%s => { %s }" % (pat, b))
            body = "match v { %s }" % ", ".join(arms)
        else:
            raise Unsupported("show " + ty["name"])
        self.out.append("#[allow(unused)] fn %s(v: &%s, o: &mut String) { %s }" % (n, rust_ty(m, t), body))
        return n

    def text(self):
        return "\n".join(self.out)


def decode(x):
    """JSON of a shown value -> the shape of pg.rec"""
    if isinstance(x, dict):
        if "__map" in x:
            return [(a, decode(b)) for a, b in x["__map"]]
        if "__variant" in x:
            d = decode(x["__v"])
            if isinstance(d, dict):
                d = dict(d)
                d["kind"] = x["__variant"]
            return d
        return {k: decode(v) for k, v in x.items()}
    if isinstance(x, list):
        return [decode(y) for y in x]
    return x


def build(code, name):
    """compile the crate with `code` (which defines main) appended to its root; -> binary path"""
    d = os.path.join(BUILD, "native-" + name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for f in ("Cargo.toml", "Cargo.lock"):
        shutil.copy(os.path.join(REPO, f), d)
    for f in os.listdir(REPO):
        p = os.path.join(REPO, f)
        if f in ("target", ".git", "Cargo.toml", "Cargo.lock"):
            continue
        (shutil.copytree if os.path.isdir(p) else shutil.copy)(p, os.path.join(d, f))
    mp = os.path.join(d, "src", "main.rs")
    src = open(mp).read()
    src, n = re.subn(r"(?m)^(pub\s+)?fn\s+main\s*\(", "pub fn __original_main(", src)
    if n != 1:
        raise Unsupported("no single main function to replace")
    for root, _, fs in os.walk(os.path.join(d, "src")):
        for f in fs:
            if f.endswith(".rs") and os.path.join(root, f) != mp:
                q = os.path.join(root, f)
                x = open(q).read()
                y = re.sub(r"(?m)^(\s*)pub\((crate|super)\) ", r"\1pub ", x)
                y = re.sub(r"(?m)^((?:async |unsafe |const )?fn |struct |enum |mod |const |static |type )", r"pub \1", y)
                if x != y:
                    open(q, "w").write(y)
    src = re.sub(r"(?m)^mod ", "pub mod ", src)
    open(mp, "w").write("#![allow(warnings)]\n" + src + "\n" + code)
    e = mirclient._env()
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "native-target")
    e["RUSTFLAGS"] = "--cap-lints allow"
    with Lock("native"):
        r = subprocess.run(["cargo", "build", "--offline", "--locked", "--bin", "podo", "--message-format=json"],
                           cwd=d, env=e, capture_output=True, text=True)
        exe = None
        for l in r.stdout.splitlines():
            try:
                j = json.loads(l)
            except ValueError:
                continue
            if j.get("reason") == "compiler-artifact" and j.get("executable"):
                exe = j["executable"]
        if r.returncode != 0 or not exe:
            msg = []
            for l in r.stdout.splitlines():
                try:
                    j = json.loads(l)
                except ValueError:
                    continue
                if j.get("reason") == "compiler-message" and j["message"]["level"] == "error":
                    msg.append(j["message"].get("rendered") or "")
            raise RuntimeError("native build failed: " + ("\n".join(msg) or r.stderr)[-3000:])
        out = os.path.join(d, "replay")
        shutil.copy(exe, out)
    return out


def run(exe, args=(), cwd=None, env=None, timeout=120, stdin=None):
    r = subprocess.run([exe] + list(args), cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout, input=stdin)
    return r
