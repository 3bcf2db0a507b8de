"""Drives the real bcalc binary on a pseudo-terminal with a small terminal emulator."""
import os, pty, sys, time, select, fcntl, termios, struct, signal, tempfile, shutil, sqlite3, re, subprocess, atexit

REPO = os.getcwd()
BIN = os.path.join(os.environ.get("CARGO_TARGET_DIR", os.path.join(REPO, "target")), "debug", "bcalc")
UP, DOWN, RIGHT, LEFT = "\x1b[A", "\x1b[B", "\x1b[C", "\x1b[D"
HOME, END, DEL, BS = "\x1b[H", "\x1b[F", "\x1b[3~", "\x7f"
CRIGHT, CLEFT = "\x1b[1;5C", "\x1b[1;5D"

_dirs = []
def scratch():
    d = tempfile.mkdtemp(prefix="bcalc-demo-"); _dirs.append(d); return d
atexit.register(lambda: [shutil.rmtree(d, ignore_errors=True) for d in _dirs])

class Term:
    def __init__(s, cols, rows):
        s.cols, s.rows = cols, rows; s.alt = False; s.x = s.y = 0; s.wrap = False
        s.cells = [[" "] * cols for _ in range(rows)]; s.buf = ""
        s.log = ""
    def lf(s):
        if s.y == s.rows - 1: s.cells.pop(0); s.cells.append([" "] * s.cols)
        else: s.y += 1
    def feed(s, t):
        queries = 0; s.log += t; s.buf += t
        while s.buf:
            c = s.buf[0]
            if c == "\x1b":
                m = re.match(r"\x1b\[(\??)([\d;]*)([A-Za-z])", s.buf)
                if not m: break
                s.buf = s.buf[m.end():]
                ps = [int(p) if p else 0 for p in m.group(2).split(";")]; k = m.group(3); n = ps[0]; s.wrap = False
                if k == "n": queries += 1
                elif k == "G": s.x = min(max(n, 1), s.cols) - 1
                elif k == "H":
                    s.y = min(max(n, 1), s.rows) - 1; s.x = min(max(ps[1] if len(ps) > 1 else 1, 1), s.cols) - 1
                elif k == "E": s.x = 0; s.y = min(s.y + max(n, 1), s.rows - 1)
                elif k == "K": s.cells[s.y] = [" "] * s.cols
                elif k == "J":
                    s.cells[s.y][s.x:] = [" "] * (s.cols - s.x)
                    for r in range(s.y + 1, s.rows): s.cells[r] = [" "] * s.cols
                elif k == "S":
                    for _ in range(max(n, 1)): s.cells.pop(0); s.cells.append([" "] * s.cols)
                elif k in "hl" and m.group(1) and n == 1049: s.alt = k == "h"
                continue
            s.buf = s.buf[1:]
            if c == "\n": s.lf(); s.wrap = False
            elif c == "\r": s.x = 0; s.wrap = False
            else:
                if s.wrap: s.x = 0; s.lf(); s.wrap = False
                s.cells[s.y][s.x] = c
                if s.x == s.cols - 1: s.wrap = True
                else: s.x += 1
        return queries
    def row(s, y): return "".join(s.cells[y]).rstrip()
    def lines(s): return [s.row(y) for y in range(s.rows)]

class Session:
    """One interactive bcalc. data=None: no _B_UTIL_DATA_DIR in the environment."""
    def __init__(s, data=None, args=(), cols=100, rows=30, env=None, start=True, cwd=None):
        s.term = Term(cols, rows)
        e = {k: v for k, v in os.environ.items() if k not in ("_B_UTIL_DATA_DIR",)}
        e["TERM"] = "xterm"
        if data is not None: e["_B_UTIL_DATA_DIR"] = data
        e.update(env or {})
        s.pid, s.fd = pty.fork()
        if s.pid == 0:
            if cwd: os.chdir(cwd)
            os.execve(BIN, [BIN, *args], e)
        fcntl.ioctl(s.fd, termios.TIOCSWINSZ, struct.pack("HHHH", rows, cols, 0, 0))
        s.status = None; s.ready = 0
        if start: s.wait_ready(1)
    def pump(s, t):
        r, _, _ = select.select([s.fd], [], [], t)
        if not r: return False
        try: d = os.read(s.fd, 65536)
        except OSError: d = b""
        if not d: s.reap(); return None
        q = s.term.feed(d.decode("utf8", "replace"))
        for _ in range(q):
            s.ready += 1
            os.write(s.fd, b"\x1b[%d;%dR" % (s.term.y + 1, s.term.x + 1))
        return True
    def reap(s):
        if s.status is None:
            _, st = os.waitpid(s.pid, 0); s.status = os.waitstatus_to_exitcode(st)
    def wait_ready(s, n, timeout=30):
        end = time.time() + timeout
        while s.ready < n and s.status is None and time.time() < end: s.pump(0.2)
        s.settle()
        return s.ready >= n
    def settle(s, quiet=0.06):
        while s.status is None and s.pump(quiet): pass
    def alive(s):
        s.settle()
        if s.status is None:
            p, st = os.waitpid(s.pid, os.WNOHANG)
            if p: s.status = os.waitstatus_to_exitcode(st)
        return s.status is None
    def keys(s, *ks):
        for k in ks:
            if s.status is not None: return
            os.write(s.fd, k.encode()); s.settle(0.04)
    def type(s, text):
        if s.status is None: os.write(s.fd, text.encode()); s.settle(0.04)
    def enter(s, timeout=30):
        """Presses Enter; returns the text shown as the line's output."""
        n = s.ready; mark = len(s.term.log)
        os.write(s.fd, b"\r")
        s.wait_ready(n + 1, timeout)
        out = s.term.log[mark:]
        out = re.sub(r"\x1b\[6n.*", "", out, flags=re.S)
        parts = [p for p in re.split(r"\n", re.sub(r"\x1b\[[\d;?]*[A-Za-z]", "", out.replace("\r", "")))]
        return "\n".join(parts[1:]).strip("\n")
    def line(s, text, timeout=30):
        s.type(text); return s.enter(timeout)
    def prompt(s):
        """The line being edited as shown inline (without prompt)."""
        s.settle(); return s.term.row(s.term.y)[2:]
    def back(s, limit=1000):
        """All lines of the backscroll, newest first."""
        out = []; 
        while len(out) < limit:
            mark = len(s.term.log); os.write(s.fd, UP.encode())
            end = time.time() + 0.25
            while len(s.term.log) == mark and s.status is None and time.time() < end: s.pump(0.05)
            s.settle(0.01)
            if len(s.term.log) == mark: break
            out.append(s.prompt())
        return out
    def resize(s, cols, rows):
        t = Term(cols, rows); t.log = s.term.log; t.alt = s.term.alt; t.y = min(s.term.y, rows - 1); s.term = t
        fcntl.ioctl(s.fd, termios.TIOCSWINSZ, struct.pack("HHHH", rows, cols, 0, 0))
        os.kill(s.pid, signal.SIGWINCH); s.settle(0.15)
    def quit(s, key="\x04"):
        if s.status is None:
            os.write(s.fd, key.encode())
            end = time.time() + 10
            while s.status is None and time.time() < end: s.pump(0.2)
            if s.status is None: s.kill()
        return s.status
    def kill(s):
        if s.status is None: os.kill(s.pid, signal.SIGKILL); s.reap()
    def raw(s):
        return not (termios.tcgetattr(s.fd)[3] & termios.ICANON)

def db(data): return sqlite3.connect(os.path.join(data, "bcalc", "saved_data.sqlite"), timeout=10)
def saved(data):
    """Saved lines newest first, as a fresh session shows them."""
    s = Session(data); b = s.back(); s.quit(); return b
def preload(src, name="p"):
    d = scratch(); so = os.path.join(d, name + ".so")
    c = os.path.join(d, name + ".c"); open(c, "w").write(src)
    subprocess.check_call(["gcc", "-shared", "-fPIC", "-O1", "-o", so, c, "-ldl"]); return so
def check(cond, msg):
    if not cond: print("FAILED:", msg); sys.exit(1)
