"""The code under test: building the harness from /repo's working tree, and talking to it."""
import concurrent.futures
import fcntl
import glob
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
from datetime import datetime, timedelta

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.normpath(os.environ.get("CHRONO_REPO", "/repo"))
BUILD = os.path.join(VERIF, ".build")
FLAGS = ["-std=c++14", "-O2", "-I", REPO]
HARNESS = os.path.join(VERIF, "harness", "harness.cpp")
JOBS = max(2, min(8, os.cpu_count() or 2))

def sources():
    src = os.path.join(REPO, "src")
    found = []
    for root, dirs, files in os.walk(src):
        dirs.sort()
        found += [os.path.join(root, f) for f in sorted(files) if f.endswith((".cpp", ".hpp", ".h", ".cc", ".inl", ".ipp"))]
    found += [os.path.join(REPO, f) for f in sorted(os.listdir(REPO)) if f.endswith((".cpp", ".hpp", ".h"))]
    return found


# watched builds: what the code does to memory is recorded too, and a misuse ends the call (memory), or is an event (threads)
WATCHED = {"memory": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS"],
           "threads": ["-O1", "-fsanitize=thread"]}


def harness(watch=None):
    """Path of the harness for the current working tree; builds it if needed."""
    flags = FLAGS + WATCHED.get(watch, [])
    h = hashlib.sha256(repr(flags).encode())
    files = sources()
    for f in files + [HARNESS]:
        with open(f, "rb") as fh:
            h.update(f.encode() + b"\0" + fh.read() + b"\0")
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, h.hexdigest()[:20])
    exe = os.path.join(out, "harness")
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        for old in sorted(glob.glob(os.path.join(BUILD, "*", "")), key=os.path.getmtime)[:-6]:
            shutil.rmtree(old, ignore_errors=True)
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        units = [HARNESS] + [f for f in files if f.endswith((".cpp", ".cc")) and os.path.dirname(f) != REPO]
        objs = [os.path.join(tmp, "%d.o" % k) for k in range(len(units))]
        procs = [subprocess.Popen(["g++"] + flags + ["-c", u, "-o", o], stderr=subprocess.PIPE, text=True)
                 for u, o in zip(units, objs)]
        for u, p in zip(units, procs):
            err = p.communicate()[1]
            if p.returncode != 0:
                print(err[-4000:], file=sys.stderr)
                raise SystemExit("cannot compile " + u)
        subprocess.run(["g++"] + flags + objs + ["-o", os.path.join(tmp, "harness"), "-lboost_date_time", "-pthread"], check=True)
        for o in objs:
            os.remove(o)
        os.rename(tmp, out)
    return exe


# ---- requests --------------------------------------------------------------
EPOCH = datetime(1400, 1, 1)


def stamp(ref):
    return (EPOCH + timedelta(days=ref[0], seconds=ref[1])).isoformat(sep=" ") + "".join(ref[2:])


def esc(s):
    return s.replace("\\", "\\\\").replace("\t", "\\t").replace("\n", "\\n").replace("\r", "\\r")


def request(*fields):
    return "\t".join(esc(f) for f in fields)


def pack(r):
    """a result, as the harness reads it"""
    at, length, tags, ranged, start, end = r
    nums = [at, length, tags, ranged]
    for part in (start, end):
        for c in part:
            nums += c
    return " ".join(map(str, nums))


def pack_all(rs):
    return ";".join(pack(r) for r in rs)


class Crash(Exception):
    pass


HANGS = []         # requests that got no answer in time
MOST_HANGS = 16    # then no more are made

def decode(line):
    try:
        return json.loads(line)
    except ValueError:      # (several threads wrote it)
        return {"error": "no answer: " + line}


def talk(exe, requests, raw=False, fresh=False, zone="UTC", once=False):
    """Answers to the requests, in order, by one process (a new one after a crash, or none: once); as they are, or decoded."""
    out = []
    env = dict(os.environ, TZ=zone, LC_ALL="C", ASAN_OPTIONS="detect_leaks=0", TSAN_OPTIONS="exitcode=66 report_signal_unsafe=0", UBSAN_OPTIONS="")
    while len(out) < len(requests):
        rest = requests[len(out):]
        if len(HANGS) >= MOST_HANGS:
            died = {"error": "not asked: too many requests got no answer"}
            return out + [json.dumps(died) if raw else died] * len(rest)
        p = subprocess.run([exe] + ["fresh"] * fresh, input="".join(r + "\n" for r in rest).encode("latin-1"), stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, env=env)
        lines = p.stdout.decode("latin-1").split("\n")
        complete = lines[:-1]
        for line in complete[:len(rest)]:
            out.append(line if raw else decode(line))
        if p.returncode != 0:
            if p.returncode == 3:
                raise Crash("the harness rejected " + rest[len(complete)])
            if p.returncode in (-signal.SIGVTALRM, -signal.SIGALRM):
                HANGS.append(rest[len(complete)])
            died = {"error": "the process died (status %d)" % p.returncode}
            out.append(json.dumps(died) if raw else died)
            if once:
                return out[:len(requests)]
        elif len(complete) != len(rest):
            raise Crash("the harness answered %d of %d requests" % (len(complete), len(rest)))
    return out[:len(requests)]


def ask(requests, jobs=JOBS):
    """Answers to independent requests, spread over several processes."""
    exe = harness()
    if not requests:
        return []
    size = max(1, min(2000, (len(requests) + jobs - 1) // jobs))
    chunks = [requests[k:k + size] for k in range(0, len(requests), size)]
    with concurrent.futures.ThreadPoolExecutor(jobs) as pool:
        return [a for part in pool.map(lambda c: talk(exe, c), chunks) for a in part]


def watchable(watch):
    """Whether the watched build runs here at all (it needs room in the address space)."""
    return subprocess.run([harness(watch)], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0


def session(requests, zone="UTC", watch=None, once=False):
    """Answers to requests made to one process in this order."""
    return talk(harness(watch), requests, zone=zone, once=once)


def alone(requests, jobs=JOBS):
    """Answers to requests each made to a process that answered nothing before."""
    exe = harness()
    size = max(1, (len(requests) + jobs - 1) // jobs)
    chunks = [requests[k:k + size] for k in range(0, len(requests), size)]
    with concurrent.futures.ThreadPoolExecutor(jobs) as pool:
        return [a for part in pool.map(lambda c: talk(exe, c, fresh=True), chunks) for a in part]
