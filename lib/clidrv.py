"""Drives the real pfp-cli binary through pipes, one input line at a time.

A line is sent only when the process is *quiescent*: its stdin pipe has been drained, it sleeps in
a system call and no more output is available.  Nothing here depends on the wording of prompts.
"""
import array, fcntl, os, re, select, signal, struct, subprocess, termios, time
import common

FIONREAD = termios.FIONREAD


FLOOD = 1 << 21     # more output than any command has


class Timeout(Exception):
    """The program neither waits for input nor ends."""

    def __init__(self, buf):
        common.hung()
        super().__init__(b''.join(buf)[:20000])


class Cli:
    def __init__(self, argv, env=None, cwd=None, preexec=None, timeout=None, split=False):
        """split: standard error is kept apart, see .errors"""
        self.timeout = timeout or common.patience()
        r, w = os.pipe()
        e = {"PATH": "/usr/bin:/bin", "TERM": "xterm", "HOME": cwd or "/nonexistent", "LANG": "C.UTF-8"}
        if env:
            e.update(env)
        self.stdin_r = os.dup(r)  # kept to query FIONREAD
        os.set_inheritable(self.stdin_r, False)
        self.proc = subprocess.Popen(argv, stdin=r, stdout=subprocess.PIPE,
                                     stderr=subprocess.PIPE if split else subprocess.STDOUT,
                                     env=e, cwd=cwd, preexec_fn=preexec, close_fds=True)
        os.close(r)
        self.w = w
        self.out = self.proc.stdout.fileno()
        os.set_blocking(self.out, False)
        if split:
            os.set_blocking(self.proc.stderr.fileno(), False)
        self.eof = False

    def _pending_in(self):
        buf = array.array('i', [0])
        fcntl.ioctl(self.stdin_r, FIONREAD, buf)
        return buf[0]

    def _asleep(self):
        """Does the process sleep waiting for standard input?"""
        pid = self.proc.pid
        try:
            with open('/proc/%d/syscall' % pid) as f:
                s = f.read().split()
            return len(s) > 1 and s[0] == '0' and int(s[1], 16) == 0     # read(0, ...
        except (OSError, ValueError):
            pass
        try:
            with open('/proc/%d/stat' % pid) as f:
                s = f.read()
            if s[s.rindex(')') + 2] != 'S':
                return False
            with open('/proc/%d/wchan' % pid) as f:
                s = f.read()
            return 'pipe_read' in s or s in ('', '0')
        except (OSError, ValueError):
            return False

    def _drain(self, buf):
        got = False
        while not self.eof:
            try:
                d = os.read(self.out, 65536)
            except BlockingIOError:
                break
            if d == b'':
                self.eof = True
                break
            buf.append(d)
            got = True
            if len(buf) > 999:
                break
        return got

    def read_until_quiet(self):
        """Returns (output bytes, ended): everything written until the process wants input or ends."""
        buf = []
        deadline = time.time() + self.timeout
        quiet = 0
        while True:
            if self._drain(buf):
                quiet = 0
                if sum(map(len, buf)) <= FLOOD and time.time() < deadline:
                    continue
            if self.eof:
                self.proc.wait()
                return b''.join(buf), True
            # a process may be seen in read() for a moment after the input was closed, but doesn't wait there
            if self.w is not None and self._pending_in() == 0 and self._asleep() and self._pending_in() == 0:
                quiet += 1
                if quiet >= 2:
                    # one more look: output written just before it went to sleep
                    if not self._drain(buf):
                        return b''.join(buf), False
                    quiet = 0
            else:
                quiet = 0
            if time.time() > deadline or sum(map(len, buf)) > FLOOD:
                self.kill()
                raise Timeout(buf)
            select.select([self.out], [], [], 0.0004)

    def errors(self):
        """What has been written to standard error since the last call."""
        res = b''
        while self.proc.stderr:
            try:
                d = os.read(self.proc.stderr.fileno(), 65536)
            except BlockingIOError:
                break
            if not d:
                break
            res += d
        return res

    def send(self, line: bytes):
        try:
            os.write(self.w, line + b'\n')
        except BrokenPipeError:
            pass

    def close_stdin(self):
        if self.w is not None:
            os.close(self.w)
            self.w = None

    def kill(self):
        try:
            self.proc.send_signal(signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.proc.wait()

    def finish(self):
        rc = self.proc.wait()
        if self.w is not None:
            os.close(self.w)
            self.w = None
        os.close(self.stdin_r)
        self.proc.stdout.close()
        if self.proc.stderr:
            self.proc.stderr.close()
        return rc


class PtyCli(Cli):
    """The program on a terminal of its own, which reads passwords from there.

    The terminal is in line mode with echo, TERM=dumb has the shell do without line editing.  What the
    terminal shows of an input is taken out of the output; .echo tells whether input would be shown."""

    MARK = b'\x01\x02\x01\x02\n'
    PROMPT = b'pfp> '
    TERM = 'dumb'
    MAX = 4000          # longer lines are cut off by the terminal

    def __init__(self, argv, env=None, cwd=None, preexec=None, timeout=None):
        self.timeout = timeout or common.patience()
        self.out, self.slave = os.openpty()
        attr = termios.tcgetattr(self.slave)
        self.attr0 = attr
        e = {"PATH": "/usr/bin:/bin", "HOME": cwd or "/nonexistent", "LANG": "C.UTF-8"}
        if env:
            e.update(env)
        e['TERM'] = self.TERM
        fcntl.ioctl(self.slave, termios.TIOCSWINSZ, struct.pack('HHHH', 50, 60000, 0, 0))

        def prepare():
            os.setsid()
            fcntl.ioctl(0, termios.TIOCSCTTY, 0)
            if preexec:
                preexec()
        self.proc = subprocess.Popen(argv, stdin=self.slave, stdout=self.slave, stderr=self.slave, env=e, cwd=cwd,
                                     preexec_fn=prepare, close_fds=True)
        os.set_blocking(self.out, False)
        self.w = self.out
        self.eof = False
        self.expected = b''
        self.held = b''
        self.ending = False     # used at the shell's prompt only, where it ends the process
        self.echo = self._echo()

    def _echo(self):
        return bool(termios.tcgetattr(self.slave)[3] & termios.ECHO)

    def restored(self):
        return termios.tcgetattr(self.slave)[:4] == self.attr0[:4]

    def _pending_in(self):
        buf = array.array('i', [0])
        fcntl.ioctl(self.slave, FIONREAD, buf)
        return buf[0]

    def _asleep(self):
        pid = self.proc.pid
        try:
            with open('/proc/%d/syscall' % pid) as f:
                s = f.read().split()
            return len(s) > 1 and s[0] == '0' and os.readlink('/proc/%d/fd/%d' % (pid, int(s[1], 16))).startswith(('/dev/pts/', '/dev/tty'))
        except (OSError, ValueError):
            return False

    def _drain(self, buf):
        got = False
        while True:
            try:
                d = os.read(self.out, 65536)
            except (BlockingIOError, OSError):
                break
            if not d:
                break
            buf.append(d)
            got = True
            if len(buf) > 999:
                break
        return got

    def _flush(self, buf):
        """What has been written so far may still be on its way: wait for a mark of our own."""
        os.write(self.slave, self.MARK)
        mark = self.MARK.replace(b'\n', b'\r\n')
        deadline = time.time() + self.timeout
        while not b''.join(buf).endswith(mark):
            if not self._drain(buf):
                select.select([self.out], [], [], 0.01)
            if time.time() > deadline:
                raise Timeout(buf)
        buf[:] = [b''.join(buf)[:-len(mark)]]

    def read_until_quiet(self):
        buf, self.held = [self.held], b''
        deadline = time.time() + self.timeout
        quiet = 0
        while True:
            if self._drain(buf):
                quiet = 0
                if sum(map(len, buf)) <= FLOOD and time.time() < deadline:
                    continue
            if self.proc.poll() is not None:
                ended = True
                break
            quiet = quiet + 1 if not self.ending and self._pending_in() == 0 and self._asleep() and self._pending_in() == 0 else 0
            if quiet >= 3:
                ended = False
                break
            if time.time() > deadline or sum(map(len, buf)) > FLOOD:
                self.kill()
                raise Timeout(buf)
            select.select([self.out], [], [], 0.0004)
        self._flush(buf)
        self.echo = self._echo() if not ended else self.restored()
        out = b''.join(buf).replace(b'\r\n', b'\n')
        if out.startswith(self.expected):
            out = out[len(self.expected):]
        self.expected = b''
        if not ended and out.endswith(self.PROMPT):
            out = out[:-len(self.PROMPT)]
        return out, ended

    def send(self, line: bytes):
        self.expected = (line if self._echo() else b'') + b'\n'
        os.write(self.out, line + b'\n')
        # until the terminal has taken it
        deadline = time.time() + 5
        buf = []
        while b'\n' not in b''.join(buf) and time.time() < deadline:
            if not self._drain(buf):
                select.select([self.out], [], [], 0.01)
        self.held = b''.join(buf)

    def close_stdin(self):
        self.expected = b''
        self.ending = True
        os.write(self.out, b'\x04')

    def finish(self):
        rc = self.proc.wait()
        os.close(self.slave)
        os.close(self.out)
        return rc


class EditCli(PtyCli):
    """On a terminal where the shell lets its command lines be edited.

    What is displayed meanwhile is taken out of the output: it is what lies between turning bracketed
    paste on and off."""

    TERM = 'xterm'
    ON, OFF = b'\x1b[?2004h', b'\x1b[?2004l'
    PREVIOUS, INTERRUPT, END = b'\x10', b'\x03', b'\x04'

    def _editing(self):
        return not termios.tcgetattr(self.slave)[3] & termios.ICANON

    def _echo(self):
        return self._editing() or super()._echo()

    def read_until_quiet(self):
        was, self.edited = getattr(self, 'edited', False), False
        out, ended = super().read_until_quiet()
        if was:
            out = out.partition(self.OFF + b'\n')[2]
        return re.sub(b'%s.*?(%s\n|$)' % (re.escape(self.ON), re.escape(self.OFF)), b'', out, flags=re.S), ended

    def keys(self, keys: bytes):
        """Keys up to one which completes the line."""
        self.expected, self.edited = b'', True
        os.write(self.out, keys)
        deadline = time.time() + self.timeout
        buf = []
        while self.OFF not in b''.join(buf) and time.time() < deadline:
            if not self._drain(buf):
                select.select([self.out], [], [], 0.01)
        self.held = b''.join(buf)

    def send(self, line: bytes):
        if not self._editing():
            return super().send(line)
        if b'\t' in line or len(line) % 3 == 0:        # pasted
            line = b'\x1b[200~' + line + b'\x1b[201~'
        self.keys(line + b'\r')

    def close_stdin(self):
        if not self._editing():
            return super().close_stdin()
        self.ending = True
        self.keys(self.END)
