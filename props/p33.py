"""P33: notebook buttons. The shell and the notebook are replaced by recording stand-ins."""
import contextlib
import importlib.util
import io
import keyword
import os
import re
import shlex
import subprocess
import types

import IPython
import IPython.display
from hypothesis import strategies as st

import common
from common import HarnessTimeout, Sub, Violation, require

common.load_sut()


def load():
    spec = importlib.util.spec_from_file_location("fibermat_root_widgets", os.path.join(common.REPO, "widgets.py"))
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


class Shell:
    """Stand-in of the shell: records commands, runs nothing."""

    def __init__(self, versions):
        self.versions = versions
        self.log = []
        self.status = 0
        self.on_install = lambda: None

    def run(self, cmd):
        """(exit code, output) of a command."""
        words = [str(w) for w in cmd] if isinstance(cmd, (list, tuple)) else shlex.split(str(cmd))
        base = [os.path.basename(w) for w in words]
        if "install" in words and any(re.fullmatch(r"pip[\d.]*", b) for b in base):
            self.log.append(("install", words[words.index("install") + 1:]))
            self.on_install()
            return self.status, ""
        if base and base[0].startswith("python") and any(w.startswith("-") and w.endswith("c") for w in words):
            code = words[[w.startswith("-") and w.endswith("c") for w in words].index(True) + 1]
            self.log.append(("query", code))
            return self.python(code)
        self.log.append(("other", words))
        return 127, ""

    def python(self, code):
        out = io.StringIO()

        def fake_import(name, *args, **kwargs):
            if name not in self.versions:
                raise ImportError(name)
            return types.SimpleNamespace(__version__=self.versions[name], __name__=name)

        scope = {"__builtins__": {"print": lambda *a, **k: print(*a, file=out, **{x: y for x, y in k.items() if x in ("sep", "end")}),
                                  "__import__": fake_import, "getattr": getattr, "ImportError": ImportError, "Exception": Exception}}
        try:
            exec(compile(code, "<query>", "exec"), scope)
        except HarnessTimeout:
            raise
        except Exception:
            return 1, out.getvalue()
        return 0, out.getvalue()


class Notebook:
    """Stand-in of the IPython shell."""

    def __init__(self):
        self.cells = []

    def run_cell(self, cell, *args, **kwargs):
        self.cells.append(str(cell).strip())

    def run_line_magic(self, name, line, *args, **kwargs):
        self.cells.append(("%" + str(name) + " " + str(line)).strip())

    magic = lambda self, line: self.cells.append("%" + str(line).strip())


@contextlib.contextmanager
def standins(mod, shell, notebook, shown):
    def text(out, kw):
        return out if kw.get("text") or kw.get("universal_newlines") or kw.get("encoding") else out.encode()

    def run(cmd, *a, **kw):
        rc, out = shell.run(cmd)
        if kw.get("check") and rc:
            raise subprocess.CalledProcessError(rc, cmd, out)
        return subprocess.CompletedProcess(cmd, rc, text(out, kw), text("", kw))

    def check_output(cmd, *a, **kw):
        rc, out = shell.run(cmd)
        if rc:
            raise subprocess.CalledProcessError(rc, cmd, out)
        return text(out, kw)

    def check_call(cmd, *a, **kw):
        rc, _ = shell.run(cmd)
        if rc:
            raise subprocess.CalledProcessError(rc, cmd)
        return 0

    class Popen:
        def __init__(self, cmd, *a, **kw):
            self.returncode, out = shell.run(cmd)
            self.out = text(out, kw)
            self.stdout = io.StringIO(out) if isinstance(self.out, str) else io.BytesIO(self.out)

        def communicate(self, *a, **kw):
            return self.out, type(self.out)()

        wait = poll = lambda self, *a, **kw: self.returncode
        __enter__ = lambda self: self
        __exit__ = lambda self, *a: None

    def display(*objs, **kw):
        shown.extend(objs)

    new = [(os, "system", lambda cmd: shell.run(cmd)[0]),
           (os, "popen", lambda cmd, *a: io.StringIO(shell.run(cmd)[1])),
           (subprocess, "run", run), (subprocess, "check_output", check_output),
           (subprocess, "check_call", check_call), (subprocess, "call", lambda cmd, *a, **k: shell.run(cmd)[0]),
           (subprocess, "getoutput", lambda cmd, **k: shell.run(cmd)[1].rstrip("\n")),
           (subprocess, "getstatusoutput", lambda cmd, **k: (lambda r: (r[0], r[1].rstrip("\n")))(shell.run(cmd))),
           (subprocess, "Popen", Popen),
           (IPython, "get_ipython", lambda: notebook), (IPython.display, "display", display)]
    for name, ref in (("display", display), ("get_ipython", lambda: notebook), ("system", new[0][2]), ("run", run),
                      ("check_output", check_output)):
        if hasattr(mod, name):
            new.append((mod, name, ref))
    old = [(o, n, getattr(o, n)) for o, n, _ in new]
    for o, n, v in new:
        setattr(o, n, v)
    try:
        yield
    finally:
        for o, n, v in old:
            setattr(o, n, v)


NAME = st.from_regex(r"[a-z][a-z0-9]{0,5}(-[a-z]{1,4})?", fullmatch=True).filter(
    lambda s: s not in ("option", "self") and not any(keyword.iskeyword(w) for w in (s, s.replace("-", ""), s.replace("-", "_"))))
VERSION = st.from_regex(r"[0-9]{1,2}\.[0-9]{1,2}(\.[0-9]{1,2})?(rc1|\.dev0)?", fullmatch=True)


@st.composite
def installs(draw):
    pips = draw(st.lists(NAME, unique=True, min_size=1, max_size=5))
    k = draw(st.integers(0, len(pips)))
    plain = [p.replace("-", "") for p in pips[:k]]
    rest = [p for p in pips[k:] if p not in plain]
    names = [[p, p] for p in dict.fromkeys(plain)]
    for p in rest:
        names.append([p, draw(st.sampled_from([m for m in (p.replace("-", "_"), p.replace("-", "") + "lib", p[0] + "x") if not keyword.iskeyword(m)]))])
    mods = sorted({m for _, m in names})
    return {"plain": len(dict.fromkeys(plain)), "names": names,
            "option": draw(st.sampled_from([None, None, "--upgrade", "--user", "--upgrade --no-deps", "-U"])),
            "versions": {m: draw(VERSION) for m in mods},
            "clicks": draw(st.lists(st.sampled_from([0, 0, 1, 2, 256, 512, 32512, -1]), min_size=1, max_size=4))}


def pip(c):
    mod = load()
    shell, notebook, shown = Shell(c["versions"]), Notebook(), []
    names, k = c["names"], c["plain"]
    with standins(mod, shell, notebook, shown):
        opt = {} if c["option"] is None else {"option": c["option"]}
        button = mod.PipButton(*[p for p, _ in names[:k]], **{p: m for p, m in names[k:]}, **opt)
        require(not shell.log, "commands are run before any click: {}", shell.log)
        require(button.button_style not in ("success", "danger"), "the button shows {!r} before any click", button.button_style)
        button()
        require(not shell.log, "commands are run by the display of the button: {}", shell.log)
        require(any(o is button for o in shown), "the button is not displayed")
        seen = []
        shell.on_install = lambda: seen.append(button.button_style)
        for i, status in enumerate(c["clicks"]):
            shell.status = status
            del shell.log[:], shown[:], seen[:]
            button.click()
            where = "click %d (exit status %d)" % (i, status)
            ins = [w for kind, w in shell.log if kind == "install"]
            require(len(ins) == 1, "{}: {} installations are run", where, len(ins))
            words = ins[0]
            got = [w for w in words if not w.startswith("-")]
            require(sorted(got) == sorted(p for p, _ in names), "{}: packages {} are installed instead of {}", where, got, [p for p, _ in names])
            flags = [w for w in words if w.startswith("-") and w not in ("-q", "--quiet")]
            require(sorted(flags) == sorted((c["option"] or "").split()), "{}: options {} instead of {!r}", where, flags, c["option"])
            require(seen and seen[-1] not in ("success", "danger"), "{}: the button shows {!r} while the installation runs", where, seen)
            html = " ".join(str(getattr(o, "data", o)) for o in shown)
            rows = table(html)
            if status == 0:
                require(button.button_style == "success" and "not" not in button.description.lower(),
                        "{}: the button shows {!r}/{!r} after a success", where, button.button_style, button.description)
                want = [(p, c["versions"][m]) for p, m in names]
                require(sorted(rows) == sorted(want), "{}: versions {} are shown instead of {}", where, rows, want)
            else:
                require(button.button_style == "danger" and button.description != "Installed",
                        "{}: the button shows {!r}/{!r} after a failure", where, button.button_style, button.description)
                require(not rows, "{}: versions {} are shown after a failure", where, rows)
    ok = [s == 0 for s in c["clicks"]]
    return True in ok and len(names) > 1, ["renamed" if k < len(names) else "plain",
                                           "mixed outcomes" if len(set(ok)) == 2 else ("success" if ok[0] else "failure")]


def table(html):
    """(package, version) rows of the tables displayed."""
    rows = []
    for tr in re.findall(r"<tr>(.*?)</tr>", html, re.S):
        cells = re.findall(r"<t[hd][^>]*>(.*?)(?=<t[hd]|</tr>|$)", tr, re.S)
        cells = [re.sub(r"<[^>]*>", "", x).strip() for x in cells]
        if len(cells) >= 2 and cells[:2] != ["Package", "Version"]:
            rows.append((cells[0], cells[1]))
    return rows


@st.composite
def toggles(draw):
    nb = draw(st.integers(1, 3))
    return {"start": [draw(st.sampled_from([None, None, "", "other", "%matplotlib inline", "%matplotlib qt"])) for _ in range(nb)],
            "clicks": draw(st.lists(st.integers(0, nb - 1), min_size=1, max_size=12))}


def mode(text):
    require(isinstance(text, str), "mode {!r}", text)
    words = text.replace("%", " ").split()
    require(len(words) == 2 and words[0] == "matplotlib" and words[1] in ("inline", "qt"), "the mode is {!r}", text)
    return words[1]


def toggle(c):
    mod = load()
    shell, notebook, shown = Shell({}), Notebook(), []
    with standins(mod, shell, notebook, shown):
        buttons, last = [], []
        for s in c["start"]:
            del notebook.cells[:]
            b = mod.MatplotlibButton(**({} if s is None else {"description": s}))
            require(len(notebook.cells) == 1, "creating the button runs {}", notebook.cells)
            require(mode(notebook.cells[0]) == mode(b.description), "a new button displays {!r} and sets {!r}", b.description, notebook.cells[0])
            buttons.append(b)
            last.append(mode(b.description))
        styles = {}
        for i, k in enumerate(c["clicks"]):
            b = buttons[k]
            del notebook.cells[:]
            b.click()
            now = mode(b.description)
            require(now != last[k], "click {}: the button still displays {!r}", i, b.description)
            require(len(notebook.cells) == 1, "click {}: cells {} are run", i, notebook.cells)
            require(mode(notebook.cells[0]) == now, "click {}: the button displays {!r} and the notebook is set to {!r}", i, b.description, notebook.cells[0])
            last[k] = now
            for j, o in enumerate(buttons):
                require(mode(o.description) == last[j], "click {}: button {} changed too", i, j)
                require(styles.setdefault(last[j], o.button_style) == o.button_style, "click {}: style of button {}", i, j)
            del notebook.cells[:]
            b()
            require(not notebook.cells and mode(b.description) == now, "displaying the button changes the mode")
            require(any(o is b for o in shown), "the button is not displayed")
        require(not shell.log, "shell commands are run: {}", shell.log)
    return len(c["clicks"]) > 1, ["%d buttons" % len(buttons)]


def subs():
    return [Sub("pip", installs(), pip, 60, 600, "package lists, options, exit statuses; non-trivial: several packages and a success"),
            Sub("matplotlib", toggles(), toggle, 40, 300, "one to three buttons and up to 12 clicks; non-trivial: at least two clicks")]
