"""Shared by the demonstrations: a scratch project and the real booktest."""
import os, sys, subprocess, tempfile, shutil, atexit, signal, time, json, textwrap
REPO = os.getcwd()
PY = "/opt/venv/bin/python"
DIR = tempfile.mkdtemp(prefix="btdemo.")
atexit.register(lambda: shutil.rmtree(DIR, ignore_errors=True))


def env(**kw):
    e = {"PATH": "/usr/bin:/bin", "HOME": DIR, "LANG": "C.UTF-8", "PYTHONPATH": REPO, "PYTHONDONTWRITEBYTECODE": "1",
         "PYTHONHASHSEED": "0"}
    e.update(kw)
    return e


def write(name, text):
    p = os.path.join(DIR, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        f.write(textwrap.dedent(text))
    return p


def read(name):
    try:
        with open(os.path.join(DIR, name)) as f:
            return f.read()
    except OSError:
        return None


def project(**mods):
    write(".booktest", "test_paths=book\ndefault_tests=book\n")
    write("book/__init__.py", "")
    for k, v in mods.items():
        write(f"book/{k}.py", v)


def start(*args, **kw):
    return subprocess.Popen([PY, "-m", "booktest", *args], cwd=DIR, env=env(**kw), stdin=subprocess.DEVNULL,
                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)


def bt(*args, timeout=100, stdin="", **kw):
    p = subprocess.run([PY, "-m", "booktest", *args], cwd=DIR, env=env(**kw), input=stdin, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def py(code, timeout=100, **kw):
    p = subprocess.run([PY, "-c", textwrap.dedent(code)], cwd=DIR, env=env(**kw), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def records():
    return {l.split("\t")[0]: l.split("\t")[1] for l in (read("books/.out/cases.txt") or "").splitlines() if l.count("\t") == 2}


def check(ok, msg):
    if not ok:
        print("BROKEN:", msg)
        sys.exit(1)
    print("ok:", msg)
