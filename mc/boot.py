"""Make `import omegaconf` load /repo's *current* tree.

The ANTLR generated parser is not tracked by git and is not rebuilt before a check, so it is regenerated from the
.g4 files into a scratch directory (and imported from there) whenever it is not known to match them.
"""
import atexit
import hashlib
import importlib.abc
import importlib.util
import os
import re
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get("MC_REPO", "/repo")
GEN = os.path.join(REPO, "omegaconf", "grammar", "gen")
G4 = [os.path.join(REPO, "omegaconf", "grammar", f"OmegaConfGrammar{x}.g4") for x in ("Lexer", "Parser")]
GENFILES = [f"OmegaConfGrammar{x}.py" for x in ("Lexer", "Parser", "ParserVisitor", "ParserListener")]
SHA = os.path.join(os.path.dirname(__file__), "grammar.sha")


def _sha(files):
    h = hashlib.sha256()
    for f in files:
        try:
            with open(f, "rb") as fh:
                b = fh.read()
        except OSError:
            b = b"<absent>"
        b = re.sub(rb"^# Generated from .*$", b"", b, flags=re.M)
        h.update(b + b"\0")
    return h.hexdigest()


def current_sha():
    return _sha(G4) + " " + _sha(os.path.join(GEN, g) for g in GENFILES)


def generate(into):
    """What `python setup.py antlr` does, into another directory."""
    jar = os.path.join(REPO, "build_helpers", "bin", "antlr-4.11.1-complete.jar")
    for g in G4:  # in this order: the parser uses the lexer's .tokens
        subprocess.check_call(
            ["java", "-jar", jar, "-Dlanguage=Python3", "-o", into, "-Xexact-output-dir", "-visitor", g],
            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=into,
        )
    for name in os.listdir(into):
        if name.endswith(".py"):
            p = os.path.join(into, name)
            with open(p, encoding="utf8") as f:
                t = f.read()
            t = re.sub(r"(^\s*)import antlr4\n", r"\1from omegaconf.vendor import antlr4\n", t, flags=re.M)
            t = re.sub(r"(^\s*)from antlr4(\.|\s+)", r"\1from omegaconf.vendor.antlr4\2", t, flags=re.M)
            with open(p, "w", encoding="utf8") as f:
                f.write(t)


class _GenFinder(importlib.abc.MetaPathFinder):
    def __init__(self, d):
        self.d = d

    def find_spec(self, name, path=None, target=None):
        if name.startswith("omegaconf.grammar.gen."):
            f = os.path.join(self.d, name.rsplit(".", 1)[1] + ".py")
            if os.path.exists(f):
                return importlib.util.spec_from_file_location(name, f)
        return None


def boot():
    if "omegaconf" in sys.modules:
        return
    known = ""
    if os.path.exists(SHA):
        with open(SHA) as f:
            known = f.read().strip()
    if current_sha() != known:
        d = tempfile.mkdtemp(prefix="mc_gen_")
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
        generate(d)
        sys.meta_path.insert(0, _GenFinder(d))
    sys.path.insert(0, REPO)
    import omegaconf

    if not os.path.abspath(omegaconf.__file__).startswith(os.path.join(REPO, "")):
        raise RuntimeError(f"omegaconf imported from {omegaconf.__file__}, not from {REPO}")
