"""P37: console output redirected to a file reaches both places, at once and in full."""
import io
import logging
import os
import re
import shutil
import sys
import tempfile
import time
from pathlib import Path
from hypothesis import strategies as st
from dhg.utils import default_log_formatter, simple_stdout2file
from harness.core import Sub, require
from harness.util import raises, same

PROPERTY = "P37"
RULE = ("a case is a history of up to twelve steps: redirecting standard output to a new or existing file (path as text or Path, absolute "
        "or relative, changing directory afterwards), or to a file whose directory is missing, printing or writing pieces of text, "
        "replacing standard output by another stream; after every step each file on disk and the stream redirected from are compared "
        "with the text that was written. Non-trivial: text is written after a redirection.")
TEXT = st.text(st.sampled_from("ab c\t\n\r%é{}\\\""), max_size=12)


@st.composite
def cases(draw):
    steps = []
    for _ in range(draw(st.integers(2, 12))):
        k = draw(st.sampled_from(["redirect", "redirect", "missing", "print", "print", "print", "write", "flush", "chdir", "stream"]))
        if k == "redirect":
            steps.append([k, draw(st.sampled_from(["str", "path", "rel", "relpath"])), draw(st.one_of(st.none(), TEXT))])
        elif k == "missing":
            steps.append([k, draw(st.booleans())])
        elif k == "print":
            steps.append([k, draw(st.lists(st.one_of(TEXT, st.integers(0, 99)), max_size=3)), draw(st.sampled_from(["\n", "", "--"])), draw(st.sampled_from([" ", "", ","]))])
        elif k == "write":
            steps.append([k, draw(TEXT)])
        else:
            steps.append([k])
    return dict(steps=steps, record=[draw(st.sampled_from(["DEBUG", "INFO", "WARNING", "ERROR"])), draw(TEXT), draw(st.integers(0, 99)), draw(st.integers(0, 2 ** 31))])


def check(c):
    tmp = tempfile.mkdtemp()
    cwd, out = os.getcwd(), sys.stdout
    term = sys.stdout = io.StringIO()
    model = {term: ""}                 # what each stream must hold
    chain = [term]                     # streams and files that text written now reaches
    files, labels = {}, set()
    try:
        os.chdir(tmp)
        for i, s in enumerate(c["steps"]):
            if s[0] == "redirect":
                d = os.getcwd()
                path = os.path.join(d, f"f{i}.txt")
                if s[2] is not None:
                    with open(path, "w") as f:
                        f.write(s[2])
                files[path] = s[2] or ""
                arg = path if s[1] in ("str", "path") else f"f{i}.txt"
                r = simple_stdout2file(Path(arg) if "path" in s[1] else arg)
                same(r, None, "result")
                chain.append(path)
            elif s[0] == "missing":
                p = os.path.join(tmp, "no such", f"f{i}.txt")
                before = sys.stdout
                raises(lambda: simple_stdout2file(Path(p) if s[1] else p), "a file in a missing directory")
                require(sys.stdout is before, "standard output was replaced by a refused redirection")
                require(not os.path.exists(os.path.dirname(p)), "a directory was made")
            elif s[0] == "chdir":
                d = os.path.join(tmp, f"d{i}")
                os.mkdir(d)
                os.chdir(d)
            elif s[0] == "stream":
                new = sys.stdout = io.StringIO()
                model[new] = ""
                chain = [new]
            elif s[0] == "flush":
                sys.stdout.flush()
            else:
                if s[0] == "print":
                    print(*s[1], end=s[2], sep=s[3])
                    text = s[3].join(str(x) for x in s[1]) + s[2]
                else:
                    sys.stdout.write(s[1])
                    text = s[1]
                for x in chain:
                    if x in files:
                        files[x] += text
                    else:
                        model[x] += text
                if text and len(chain) > 1:
                    labels |= {"nt", f"{min(len(chain) - 1, 3)} files"}
            for x, t in model.items():
                same(x.getvalue(), t, f"text on the stream after step {i}")
            for x, t in files.items():
                with open(x, newline="") as f:
                    same(f.read(), t, f"text in the file after step {i}")
    finally:
        sys.stdout = out
        os.chdir(cwd)
        shutil.rmtree(tmp)
    # log messages
    level, msg, arg, when = c["record"]
    rec = logging.LogRecord("dhg", getattr(logging, level), "f", 1, msg.replace("%", "%%") + " %d", (arg,), None)
    rec.created = when
    text = default_log_formatter().format(rec)
    stamp = time.strftime("%Y-%m-%d %H:%M:%S", time.localtime(when))
    require(text.startswith(f"[{level} {stamp}"), "level and time of a log message: %s", text)
    require(re.fullmatch(r"\[\w+ [^\]]*\]-> " + re.escape(f"{msg} {arg}"), text, re.S), "log message: %s", text)
    return labels


SUBS = [Sub("console", cases(), check, quick=1200, thorough=20000)]
