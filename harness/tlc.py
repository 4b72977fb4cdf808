"""Runs TLC and parses what it printed."""
import os
import re
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    pass


class TlcResult:
    def __init__(self, out, rc):
        self.out = out
        self.rc = rc
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated = int(m[-1][0]) if m else 0
        self.distinct = int(m[-1][1]) if m else 0
        self.prints = []
        for line in out.splitlines():
            if line.startswith('"') and line.endswith('"'):
                s = line[1:-1]
                s = s.replace('\\"', '"').replace("\\\\", "\\")
                self.prints.append(s)


def run(module, cfg=None, env=None, timeout=600, workers=6, extra=(), heap="3g", ok_rcs=(0,)):
    """Run TLC on spec/<module>.tla with spec/<cfg>.cfg."""
    cfg = cfg or module
    meta = tempfile.mkdtemp(prefix="tlc_")
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = [
        "java", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + meta, "-Xmx" + heap, "-Xss16m", "-cp", CP, "tlc2.TLC",
        "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
        "-deadlock", "-config", os.path.join(SPEC, cfg + ".cfg"), *extra,
        os.path.join(SPEC, module + ".tla"),
    ]
    try:
        r = subprocess.run(cmd, env=e, cwd=SPEC, capture_output=True, text=True, timeout=timeout)
        out = r.stdout + "\n" + r.stderr
        if r.returncode not in ok_rcs:
            raise TlcError(f"TLC exit {r.returncode} on {module}/{cfg}\n" + tail(out))
        return TlcResult(out, r.returncode)
    except subprocess.TimeoutExpired as x:
        raise TlcError(f"TLC timeout on {module}/{cfg}") from x
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def tail(s, n=60):
    lines = [l for l in s.splitlines() if not l.startswith('"CASE') and not l.startswith('"V ')]
    return "\n".join(lines[-n:])
