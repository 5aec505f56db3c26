"""Front end: compiles /repo's current working tree far enough to get type-checked MIR, and caches it by content.

The layout is the one /opt/vp/build.sh compiles (the hun_law package without what needs the missing peginator
crate), but in /verif/.work, so neither /repo nor /opt/vp is written to.  rustc is run through cargo with the real
dependency graph and asked for MIR (--emit=mir, optimisations off); nothing of /repo is executed, except build.rs,
which cargo runs at any build and which only generates the test list.
"""
import fcntl
import hashlib
import os
import pickle
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.environ.get("VERIF_WORK") or os.path.join(HERE, ".work")
REPO = os.environ.get("VERIF_REPO", "/repo")
VP = "/opt/vp"
ENGINE_VERSION = "3"


class BuildError(Exception):
    pass


def tree_files(root=None):
    root = root or REPO
    out = []
    for top in ("src", "hun_law_grammar", "Cargo.toml", "build.rs"):
        p = os.path.join(root, top)
        if os.path.isfile(p):
            out.append(top)
        for d, dn, fn in os.walk(p):
            dn[:] = sorted(x for x in dn if x not in ("target", ".git"))
            for f in sorted(fn):
                out.append(os.path.relpath(os.path.join(d, f), root))
    return sorted(out)


def tree_hash():
    h = hashlib.sha256(ENGINE_VERSION.encode())
    for f in tree_files():
        h.update(f.encode() + b"\0")
        h.update(open(os.path.join(REPO, f), "rb").read())
        h.update(b"\0")
    for f in ("scope.py", "scope.lock"):
        p = os.path.join(VP, f)
        if os.path.exists(p):
            h.update(open(p, "rb").read())
    return h.hexdigest()[:24]


def engine_hash():
    h = hashlib.sha256()
    for f in ("mirparse.py", "rtypes.py", "rustsrc.py", "program.py"):
        h.update(open(os.path.join(HERE, "engine", f), "rb").read())
    return h.hexdigest()[:12]


def _sh(cmd, env, cwd, log):
    with open(log, "a") as f:
        f.write(f"$ {cmd}\n")
        f.flush()
        r = subprocess.run(cmd, shell=True, env=env, cwd=cwd, stdout=f, stderr=subprocess.STDOUT, timeout=1500)
    return r.returncode


SPECS = os.path.join(HERE, "specs")


def spec_files():
    """{source file: specification file}: specs/a__b.rs is compiled as module verif_spec of src/a/b.rs"""
    out = {}
    for f in sorted(os.listdir(SPECS)) if os.path.isdir(SPECS) else []:
        if f.endswith(".rs"):
            out["src/" + f[:-3].replace("__", "/") + ".rs"] = os.path.join(SPECS, f)
    return out


def spec_hash():
    h = hashlib.sha256()
    for src, f in spec_files().items():
        h.update(src.encode() + open(f, "rb").read())
    return h.hexdigest()[:16]


def without_functions(src, names):
    """Blanks the named top-level functions of a specification.  -> (text, [(name, first line, last line)])"""
    lines, spans = src.split("\n"), []
    i = 0
    while i < len(lines):
        m = re.match(r"(?:pub )?(?:const )?fn (\w+)|macro_rules! (\w+)|impl\b(.*)", lines[i])
        if m:
            j = i
            while j < len(lines) and lines[j].rstrip() not in ("}", "};") and not (j == i and re.search(r"\}\s*$", lines[j])):
                j += 1
            spans.append((m.group(1) or m.group(2) or m.group(3), i + 1, j + 1))
            i = j
        i += 1
    for n, a, b in spans:
        if n in names:
            for k in range(a - 1, min(b, len(lines))):
                lines[k] = ""
    return "\n".join(lines), spans


def _layout(scope):
    code = open(os.path.join(VP, "scope.py"), encoding="utf-8").read()
    new = re.sub(r'REPO, VIEW = "[^"]*", "[^"]*"', lambda m: f'REPO, VIEW = {REPO!r}, {scope!r}', code)
    if new == code and scope != "/opt/vp/scope":
        raise BuildError("scope.py has an unexpected shape")
    tmp = os.path.join(WORK, "scope_own.py")
    open(tmp, "w", encoding="utf-8").write(new)
    os.makedirs(scope, exist_ok=True)
    r = subprocess.run([sys.executable, tmp], capture_output=True, text=True)
    if r.returncode:
        raise BuildError("scope layout failed: " + r.stderr[-2000:])


def _seed_target(target, log):
    src = os.path.join(VP, "scope", "target", "debug")
    dst = os.path.join(target, "debug")
    if os.path.isdir(dst) or not os.path.isdir(src):
        return
    os.makedirs(dst, exist_ok=True)
    for f in (".rustc_info.json", "CACHEDIR.TAG"):
        p = os.path.join(VP, "scope", "target", f)
        if os.path.exists(p):
            shutil.copy2(p, os.path.join(target, f))
    skip = re.compile(r"^(lib)?(hun_law|run_datatests|run_simple_tests)-")
    for sub in ("deps", ".fingerprint", "build"):
        s = os.path.join(src, sub)
        if not os.path.isdir(s):
            continue
        d = os.path.join(dst, sub)
        os.makedirs(d, exist_ok=True)
        names = [n for n in os.listdir(s) if not skip.match(n)]
        for i in range(0, len(names), 200):
            subprocess.run(["cp", "-a", "-t", d] + [os.path.join(s, n) for n in names[i:i + 200]], check=True)


def _env(out, target, wrap):
    env = dict(os.environ)
    for line in open(os.path.join(VP, "env.sh")):
        if line.startswith("export "):
            for k, v in re.findall(r"(\w+)=(\S*)", line[7:]):
                env[k] = v
    env.update(CARGO_TARGET_DIR=target, CARGO_INCREMENTAL="0", RUSTC_WORKSPACE_WRAPPER=wrap, MIR_OUT=out,
               RUSTFLAGS="", CARGO_NET_OFFLINE="true")
    env.pop("CARGO_ENCODED_RUSTFLAGS", None)
    return env


def ensure_specs(mirdir):
    """MIR of the reference specifications, type-checked as modules of the current tree.
    A specification that does not compile against the tree is left out (its obligations become undecided).
    -> (text, [left out source files])"""
    sh = spec_hash()
    res = os.path.join(mirdir, f"spec-{sh}.mir")
    if os.path.exists(res + ".ok"):
        return open(res, encoding="utf-8").read(), open(res + ".ok").read().split()
    with open(os.path.join(WORK, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(res + ".ok"):
            return open(res, encoding="utf-8").read(), open(res + ".ok").read().split()
        scope, target = os.path.join(WORK, "scope_spec"), os.path.join(WORK, "target")
        log = os.path.join(WORK, "spec.log")
        wrap = os.path.join(WORK, "wrap.sh")
        _layout(scope)
        todo = spec_files()
        left = [s for s in todo if not os.path.exists(os.path.join(scope, s))]
        dropped = {}          # specification file -> names of functions that do not compile here
        tmp = os.path.join(mirdir, f"spec.{os.getpid()}")
        own = os.path.join(WORK, "specs_use")
        os.makedirs(own, exist_ok=True)
        text = ""
        for _ in range(20):
            os.makedirs(tmp, exist_ok=True)
            use = {s: f for s, f in todo.items() if s not in left}
            if not use:
                break
            lines = {}
            for s, f in todo.items():
                d = os.path.join(scope, s)
                if not os.path.exists(d):
                    continue
                src = open(os.path.join(REPO, s), encoding="utf-8").read() if os.path.islink(d) else \
                    open(d, encoding="utf-8").read().split("\n#[path = \"")[0]
                os.unlink(d)
                copy = os.path.join(own, os.path.basename(f))
                body, lines[os.path.basename(f)] = without_functions(open(f, encoding="utf-8").read(), dropped.get(f, ()))
                with open(copy, "w", encoding="utf-8") as fh:
                    fh.write(body)
                with open(d, "w", encoding="utf-8") as fh:
                    fh.write(src + (f'\n#[path = "{copy}"]\nmod verif_spec;\n' if s in use else ""))
            open(log, "w").close()
            fp = os.path.join(target, "debug", ".fingerprint")
            for n in os.listdir(fp) if os.path.isdir(fp) else []:
                if n.startswith("hun_law-"):
                    shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
            env = _env(tmp, target, wrap)
            rc = _sh("cargo rustc --offline --lib -- -Awarnings", env, scope, log)
            if rc == 0 and os.path.exists(os.path.join(tmp, "lib.mir")):
                text = open(os.path.join(tmp, "lib.mir"), encoding="utf-8").read()
                break
            with open(os.path.join(WORK, "spec_errors.log"), "a" if _ else "w") as fh:
                fh.write(open(log, errors="replace").read())
            bad = set(re.findall(r"--> (?:\S*/)?specs_use/(\S+?\.rs):(\d+):", open(log, errors="replace").read()))
            new = False
            for s, f in use.items():
                for n, ln in bad:
                    if n != os.path.basename(f):
                        continue
                    new = True
                    fn = next((x for x, a, b in lines[n] if a <= int(ln) <= b), None)
                    if fn is None:
                        left.append(s)
                    else:
                        dropped.setdefault(f, set()).add(fn)
            if not new:
                left = list(todo)
                break
        shutil.rmtree(tmp, ignore_errors=True)
        with open(res, "w", encoding="utf-8") as fh:
            fh.write(text)
        with open(res + ".ok", "w") as fh:
            fh.write("\n".join(left))
        return text, left


def ensure_mir():
    """-> (dir with lib.mir, bin.mir), tree hash"""
    os.makedirs(WORK, exist_ok=True)
    h = tree_hash()
    out = os.path.join(WORK, "mir", h)
    if os.path.exists(os.path.join(out, "ok")):
        return out, h
    with open(os.path.join(WORK, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, "ok")):
            return out, h
        scope, target = os.path.join(WORK, "scope"), os.path.join(WORK, "target")
        log = os.path.join(WORK, "build.log")
        open(log, "w").close()
        os.makedirs(out, exist_ok=True)
        _layout(scope)
        _seed_target(target, log)
        fp = os.path.join(target, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for n in os.listdir(fp):
                if n.startswith("hun_law-"):
                    shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
        wrap = os.path.join(WORK, "wrap.sh")
        open(wrap, "w").write(
            "#!/bin/bash\n"
            "export RUSTC_BOOTSTRAP=1\n"
            "case \" $* \" in\n"
            "*\" --crate-name hun_law \"*)\n"
            "  case \" $* \" in *\" --crate-type lib \"*) o=lib.mir ;; *) o=bin.mir ;; esac\n"
            "  exec \"$@\" --emit=mir=\"$MIR_OUT/$o\" -Zmir-opt-level=0 -Ztrim-diagnostic-paths=no -Zmir-include-spans ;;\n"
            "*) exec \"$@\" ;;\n"
            "esac\n")
        os.chmod(wrap, 0o755)
        env = _env(out, target, wrap)
        rc = _sh("cargo rustc --offline --lib", env, scope, log)
        if rc == 0:
            rc = _sh("cargo rustc --offline --bin hun_law", env, scope, log)
        for f in ("lib.mir", "bin.mir"):
            if rc == 0 and not os.path.exists(os.path.join(out, f)):
                rc = 101
        if rc:
            tail = open(log, errors="replace").read()[-3000:]
            raise BuildError("the tree does not compile to MIR:\n" + tail)
        open(os.path.join(out, "ok"), "w").close()
        # keep the cache small
        base = os.path.join(WORK, "mir")
        old = sorted((os.path.getmtime(os.path.join(base, d)), d) for d in os.listdir(base) if d != h)
        for _, d in old[:-3]:
            shutil.rmtree(os.path.join(base, d), ignore_errors=True)
    return out, h


def load():
    """-> Program for the current tree (parsed MIR cached by content)"""
    from . import program
    out, h = ensure_mir()
    spec_text, left = ensure_specs(out)
    pk = os.path.join(out, f"prog-{engine_hash()}-{spec_hash()}.pickle")
    if os.path.exists(pk):
        try:
            sys.setrecursionlimit(20000)
            with open(pk, "rb") as f:
                P = pickle.load(f)
            P.root = REPO
            P.specs_left = left
            return P, h
        except Exception:
            pass
    P = program.Program({"hun_law": open(os.path.join(out, "lib.mir"), encoding="utf-8").read(),
                         "hun_law_bin": open(os.path.join(out, "bin.mir"), encoding="utf-8").read()}, REPO)
    P.add(spec_text, "spec", lambda name: "verif_spec" in name)
    P.specs_left = left
    files = []
    for f in tree_files():
        if f.startswith("src/") and f.endswith(".rs"):
            files.append((os.path.join(REPO, f), mod_of(f)))
    P.load_adts(files)
    tmp = pk + f".{os.getpid()}"
    try:
        with open(tmp, "wb") as f:
            pickle.dump(P, f, protocol=4)
        os.replace(tmp, pk)
    except Exception:
        if os.path.exists(tmp):
            os.unlink(tmp)
    return P, h


def mod_of(f):
    m = f[4:-3].split("/")
    if m[-1] in ("mod", "lib", "main"):
        m = m[:-1]
    return "::".join(m)
