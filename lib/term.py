"""A program at a terminal of its own: what is on the screen, whether it waits for a key, keys sent to it."""
import fcntl, os, pty, re, select, struct, subprocess, termios, time

SEQ = re.compile(rb"\x1b\[([0-9;?]*)([A-Za-z])|\x1b[()][A-Z0-9]|\x1b[=>78]")


class Screen:
    """lines without an end; what a program that only looks upwards from where it is needs"""

    def __init__(self):
        self.rows, self.r, self.c, self.rest = [""], 0, 0, b""

    def put(self, ch):
        row = self.rows[self.r]
        row = row.ljust(self.c)
        self.rows[self.r] = row[:self.c] + ch + row[self.c + 1:]
        self.c += 1

    def down(self, n):
        self.r += n
        while len(self.rows) <= self.r:
            self.rows.append("")

    def feed(self, data):
        data = self.rest + data
        i, self.rest = 0, b""
        while i < len(data):
            b = data[i]
            if b == 0x1b:
                m = SEQ.match(data, i)
                if not m:
                    if len(data) - i < 16:
                        self.rest = data[i:]
                        return
                    i += 1
                    continue
                i = m.end()
                if m.group(2):
                    self.control(m.group(1), m.group(2))
                continue
            if b == 0x0d:
                self.c = 0
            elif b == 0x0a:
                self.down(1)
            elif b == 0x08:
                self.c = max(0, self.c - 1)
            elif b >= 0x20:
                n = 1 if b < 0x80 else 2 if b < 0xE0 else 3 if b < 0xF0 else 4
                if i + n > len(data):
                    self.rest = data[i:]
                    return
                self.put(data[i:i + n].decode("utf-8", "replace"))
                i += n
                continue
            i += 1

    def control(self, arg, what):
        if arg.startswith(b"?"):
            return
        n = int(arg.split(b";")[0] or 0) if arg else 0
        k = max(1, n)
        if what == b"A":
            self.r = max(0, self.r - k)
        elif what == b"B":
            self.down(k)
        elif what == b"C":
            self.c += k
        elif what == b"D":
            self.c = max(0, self.c - k)
        elif what == b"G":
            self.c = k - 1
        elif what == b"K":
            row = self.rows[self.r]
            self.rows[self.r] = row[:self.c] if n == 0 else "" if n == 2 else " " * self.c + row[self.c:]
        elif what == b"J":
            self.rows[self.r] = self.rows[self.r][:self.c] if n == 0 else ""
            if n == 0:
                del self.rows[self.r + 1:]

    def lines(self):
        return [l.rstrip("\0") for l in self.rows]


class Program:
    def __init__(self, argv, env, cwd, width=500):
        self.screen = Screen()
        self.m, self.slave = pty.openpty()
        fcntl.ioctl(self.m, termios.TIOCSWINSZ, struct.pack("HHHH", 200, width, 0, 0))
        self.p = subprocess.Popen(argv, env=env, cwd=cwd, stdin=self.slave, stdout=self.slave, stderr=self.slave, start_new_session=True,
                                  preexec_fn=lambda: fcntl.ioctl(0, termios.TIOCSCTTY, 0))
        self.pid = self.p.pid
        self.code, self.slept = None, 0

    def drain(self, wait):
        got = False
        while True:
            r, _, _ = select.select([self.m], [], [], wait)
            if not r:
                return got
            try:
                d = os.read(self.m, 65536)
            except OSError:
                return got
            if not d:
                return got
            self.screen.feed(d)
            got, wait = True, 0

    def over(self):
        if self.code is None:
            self.code = self.p.poll()
            if self.code is not None:
                self.drain(0)
        return self.code is not None

    def asks(self):
        """whether it sleeps until a key comes"""
        try:
            if termios.tcgetattr(self.slave)[3] & termios.ICANON:
                return False
            if struct.unpack("i", fcntl.ioctl(self.slave, termios.FIONREAD, b"\0\0\0\0"))[0]:
                return False
            with open(f"/proc/{self.pid}/stat", "rb") as f:
                return f.read().rsplit(b")", 1)[1].split()[0] == b"S"
        except (OSError, termios.error):
            return False

    def ready(self, timeout):
        """waits until it asks for a key (True) or is over (False); None if neither happens"""
        end, calm = time.time() + timeout, 0
        while time.time() < end:
            if self.drain(0.001):
                calm = 0
            if self.over():
                return False
            calm = calm + 1 if self.asks() and self.sleeps() > self.slept else 0
            if calm >= 2:
                return True
        return None

    def sleeps(self):
        """how often it has gone to sleep"""
        try:
            with open(f"/proc/{self.pid}/status") as f:
                return next(int(l.split()[1]) for l in f if l.startswith("voluntary"))
        except (OSError, StopIteration):
            return 1 << 60

    def send(self, data):
        # what is sent reaches it some time later: it has to wake up before it can ask for more
        self.slept = self.sleeps()
        os.write(self.m, data)

    def close(self):
        if not self.over():
            self.p.kill()
            self.p.wait()
            self.code = -9
        os.close(self.m)
        os.close(self.slave)
