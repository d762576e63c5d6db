"""The model: running TLC on the specification."""
import json
import os
import re
import shutil
import subprocess
import tempfile

from impl import VERIF, JOBS

SPEC = os.path.join(VERIF, "spec")
WORK = os.path.join(VERIF, ".work")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ModelError(Exception):
    pass


class Run:
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.depth = 0
        self.lines = 0
        self.output = []


def tlc(module, cfg, on_line=None, workers=JOBS, extra=(), heap="6g", timeout=850, env=None, check=True, raw=False):
    """Runs TLC on spec/<module>.tla with the configuration text cfg.

    Everything the model prints with PrintT(ToJson(..)) is decoded (unless raw) and handed to on_line."""
    os.makedirs(WORK, exist_ok=True)
    work = tempfile.mkdtemp(prefix=module + "-", dir=WORK)
    run = Run()
    try:
        config = os.path.join(work, module + ".cfg")
        with open(config, "w") as f:
            f.write(cfg)
        cmd = ["timeout", str(timeout), "java", "-Dfile.encoding=ISO-8859-1", "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC", "-cp", JARS, "tlc2.TLC",
               "-deadlock", "-workers", str(workers), "-metadir", os.path.join(work, "md"), "-noGenerateSpecTE",
               "-config", config] + list(extra) + [module + ".tla"]
        p = subprocess.Popen(cmd, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                             encoding="latin-1", env=dict(os.environ, **(env or {})))
        for line in p.stdout:
            line = line.rstrip("\n")
            if line.startswith('"') and line.endswith('"'):
                run.lines += 1
                if on_line:
                    said = json.loads(line)
                    on_line(said if raw else json.loads(said))
                continue
            run.output.append(line)
            m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
            if m:
                run.transitions += int(m.group(1))
                run.states += int(m.group(2))
            m = re.match(r"The depth of the complete state graph search is (\d+)", line)
            if m:
                run.depth = int(m.group(1))
            m = re.match(r"Progress: .* (\d+) states checked", line)
            if m and "-simulate" in cmd:
                run.transitions = run.states = int(m.group(1))
            m = re.match(r"The number of states generated: (\d+)", line)
            if m:
                run.transitions = run.states = int(m.group(1))
        run.status = p.wait()
        if check and run.status != 0:
            raise ModelError("TLC on %s ended with status %d:\n%s" % (module, run.status, "\n".join(run.output[-40:])))
        return run
    finally:
        shutil.rmtree(work, ignore_errors=True)
