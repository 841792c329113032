"""C08: Events.tla bound to events.rs: the real event source on a pseudo terminal."""
import fcntl, json, os, pty, select, signal, struct, subprocess, termios, time, tty
from vlib import *

NONE, SHIFT, CTRL, ALT = 0, 1, 2, 4
MOUSE = "mouse"


def table():
    """bytes -> the report they denote (crossterm's names)"""
    t = []
    for c in "abcxyz0159 .,;:|{}()[]<>/\\'\"#$%&*+-=_~^`!?@":
        t.append((c.encode(), f"Char {ord(c)} {NONE}"))
    for c in "ABCXYZ":
        t.append((c.encode(), f"Char {ord(c)} {SHIFT}"))
    for c in (0xe9, 0x4e16, 0x1f600, 0x3b1, 0x7e1, 0x301):
        t.append((chr(c).encode(), f"Char {c} {NONE}"))
    t += [(b"\r", f"Enter {NONE}"), (b"\t", f"Tab {NONE}"), (b"\x7f", f"Backspace {NONE}")]
    for c in "abcdefgklnopqrstuvwxyz":  # not h i j m (backspace, tab, enter) in their own encodings
        t.append((bytes([ord(c) - 96]), f"Char {ord(c)} {CTRL}"))
    slow = []
    for seq, k in ((b"A", "Up"), (b"B", "Down"), (b"C", "Right"), (b"D", "Left"), (b"H", "Home"), (b"F", "End")):
        slow.append((b"\x1b[" + seq, f"{k} {NONE}"))
        for n, m in ((2, SHIFT), (3, ALT), (5, CTRL)):
            slow.append((b"\x1b[1;%d" % n + seq, f"{k} {m}"))
    for seq, k in ((b"5~", "PageUp"), (b"6~", "PageDown"), (b"3~", "Delete"), (b"2~", "Insert")):
        slow.append((b"\x1b[" + seq, f"{k} {NONE}"))
    slow.append((b"\x1b[Z", f"BackTab {SHIFT}"))
    for c in "htqmx":
        slow.append((b"\x1b" + c.encode(), f"Char {ord(c)} {ALT}"))
    slow.append((b"\x1b\r", f"Enter {ALT}"))
    for n, s in enumerate(b"PQRS"):
        slow.append((b"\x1bO" + bytes([s]), f"F {n+1} {NONE}"))
    slow.append((b"\x1b", f"Esc {NONE}"))
    mouse = [(b"\x1b[<0;%d;%dM" % (x, y), MOUSE) for x, y in ((1, 1), (20, 7))] + \
            [(b"\x1b[<0;3;3m", MOUSE), (b"\x1b[<64;3;3M", MOUSE), (b"\x1b[<35;9;2M", MOUSE)]
    return t, slow, mouse


class Session:
    def __init__(self, binary, log):
        self.m, s = pty.openpty()
        tty.setraw(s)
        fcntl.ioctl(self.m, termios.TIOCSWINSZ, struct.pack("HHHH", 24, 80, 0, 0))
        cr, self.cw = os.pipe()
        self.ar, aw = os.pipe()

        def pre():
            os.setsid()
            fcntl.ioctl(0, termios.TIOCSCTTY, 0)
            a, b = fcntl.fcntl(cr, fcntl.F_DUPFD, 20), fcntl.fcntl(aw, fcntl.F_DUPFD, 20)
            os.dup2(a, 3)
            os.dup2(b, 4)
        self.p = subprocess.Popen([binary, "events-child"], stdin=s, stdout=subprocess.DEVNULL,
                                  stderr=subprocess.DEVNULL, preexec_fn=pre, close_fds=False)
        os.close(s), os.close(cr), os.close(aw)
        self.buf = b""
        self.log = log
        self.size = 80
        self.out(op="new")
        if self.answer(20) is None:
            raise ToolError("event source did not start on the pseudo terminal")
        # the reader thread installs its signal handler on its first read: a key read proves it is there
        self.pending = 0
        self.do([(b"a", "Char 97 0")])
        self.drain()

    def out(self, **kw):
        self.log.append(json.dumps(kw))

    def answer(self, wait):
        end = time.time() + wait
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0 or not select.select([self.ar], [], [], left)[0]:
                return None
            d = os.read(self.ar, 65536)
            if not d:
                return None
            self.buf += d
        l, self.buf = self.buf.split(b"\n", 1)
        return json.loads(l)

    def do(self, evs):
        """give the terminal these reports in one go"""
        self.out(op="do", evs=[e for _, e in evs])
        data = b"".join(b for b, _ in evs)
        while data:
            n = os.write(self.m, data[:400])
            data = data[n:]
        self.pending += sum(e != MOUSE for _, e in evs)

    def resize(self):
        self.size = 80 + (self.size - 79) % 40
        self.out(op="do", evs=["Resize"])
        self.pending += 1
        fcntl.ioctl(self.m, termios.TIOCSWINSZ, struct.pack("HHHH", 24, self.size, 0, 0))

    def poll(self):
        os.write(self.cw, b"poll\n")
        a = self.answer(20)
        if a is None:
            self.out(op="poll", ok=False, got=[])
            return None
        self.out(op="poll", ok=True, got=a["got"])
        self.pending -= len(a["got"])
        return a["got"]

    def drain(self, deadline=10):
        """poll until everything came (or the deadline), then once more for surplus"""
        end = time.time() + deadline
        while self.pending > 0 and time.time() < end:
            if self.poll() is None:
                return False
            if self.pending > 0:
                time.sleep(0.002)
        if self.poll() is None:
            return False
        self.out(op="drained")
        return self.pending == 0

    def close(self):
        self.p.kill()
        self.p.wait()
        for fd in (self.m, self.cw, self.ar):
            os.close(fd)


def session(binary, log, rng, rounds):
    fast, slow, mouse = table()
    s = Session(binary, log)
    try:
        for e in fast + slow + mouse:  # every report once, on its own
            s.do([e])
            if e[1] != MOUSE or rng.random() < 0.3:
                if not s.drain(): return
        for _ in range(rounds):
            x = rng.random()
            if x < 0.5:  # bursts of plain keys, polls in between
                for _ in range(rng.choice([1, 3, 8])):
                    s.do([rng.choice(fast) for _ in range(rng.choice([1, 2, 5, 30, 100]))])
                    if rng.random() < 0.5 and s.poll() is None: return
                    if rng.random() < 0.2: time.sleep(rng.choice([0.0005, 0.005]))
            elif x < 0.65:  # a mouse report between keys; one complete report at a time
                for _ in range(rng.choice([2, 6])):
                    s.do([rng.choice(fast)])
                    s.do([rng.choice(mouse)])
                    time.sleep(0.003)
                    if rng.random() < 0.3 and s.poll() is None: return
            elif x < 0.85:  # escape sequences, each given to an empty terminal, not polled for yet
                for _ in range(rng.choice([2, 5])):
                    s.do([rng.choice(slow)])
                    time.sleep(0.003)
                    if rng.random() < 0.3 and s.poll() is None: return
            else:  # a resize, alone: crossterm itself may sit on a key that comes together with one
                if not s.drain(): return
                s.resize()
                if not s.drain(): return
                for _ in range(rng.choice([0, 3])): s.do([rng.choice(fast)])
            if rng.random() < 0.6 and not s.drain(): return
        s.drain()
    finally:
        s.close()


def check(pid):
    chk = Check(pid, "model_checking")
    bins = build("shellpart")
    chk.model(tlc("Events", workers=8, outdir=chk.path("tlc")), "specification")
    chk.model(tlc("EventsLive", workers=4, outdir=chk.path("tlc")), "liveness")
    chk.assumptions += ["a lone escape byte and an escape sequence are told apart by arriving together; each is "
                        "therefore given to the terminal in one write with the terminal otherwise empty",
                        "resizes are given one at a time and with no key pending: SIGWINCH is not queued by the kernel, and "
                        "crossterm 0.24 (edge-triggered poll) may keep a key that arrives together with one"]
    for i in range(10 if THOROUGH else 3):
        # a starved sandbox may split an escape sequence: a rejection has to show twice
        for attempt in (1, 2):
            log_ = []
            session(os.path.join(bins, "shellpart"), log_, chk.rng, 300 if THOROUGH else 60)
            f = chk.path(f"tty{i}-{attempt}.ndjson")
            write_lines(f, log_)
            n = len(log_)
            before = list(chk.violations)
            if validate(chk, "EventsTrace", f, name=f"tty{i}", what="recorded terminal session") >= n:
                chk.violations = before
                chk.add(reports=sum(len(json.loads(l).get("evs", [])) for l in log_),
                        polls=sum('"poll"' in l for l in log_))
                break
            if attempt == 1:
                chk.violations = before
        if chk.violations:
            break
    chk.cov.setdefault("samples", []).append([json.loads(l) for l in log_[-6:]])
    return chk.finish()
