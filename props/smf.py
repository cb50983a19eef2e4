"""An independent Standard MIDI File encoder/decoder (from the specification), usable on symbolic bytes."""


class Bad(Exception):
    pass


def be(items):
    v = 0
    for b in items:
        v = v * 256 + b
    return v


class Cursor:
    def __init__(self, items):
        self.b, self.i = items, 0

    def take(self, n):
        if self.i + n > len(self.b):
            raise Bad('truncated')
        r = self.b[self.i:self.i + n]
        self.i += n
        return r

    def varlen(self):
        v = 0
        for k in range(4):
            c = self.take(1)[0]
            if c >= 128:
                v = v * 128 + (c - 128)
            else:
                return v * 128 + c
        raise Bad('variable length quantity over four bytes')


def decode(items):
    """(format, tracks, division, [(absolute time, event bytes)]) of a one-track file; raises Bad."""
    if items[:4] != list(b'MThd'):
        raise Bad('header chunk id')
    if items[4:8] != [0, 0, 0, 6]:
        raise Bad('header chunk length')
    fmt, ntr, div = be(items[8:10]), be(items[10:12]), be(items[12:14])
    rest = items[14:]
    if rest[:4] != list(b'MTrk'):
        raise Bad('track chunk id')
    if len(rest) < 8:
        raise Bad('truncated')
    n = be(rest[4:8])
    body = rest[8:]
    if not n == len(body):
        raise Bad('track chunk length')
    cur = Cursor(body)
    t, events, ended = 0, [], False
    while cur.i < len(body):
        if ended:
            raise Bad('data after the end of track')
        t = t + cur.varlen()
        status = cur.take(1)[0]
        if status == 0xFF:
            kind = cur.take(1)[0]
            ln = cur.take(1)[0]
            if type(kind) is not int or type(ln) is not int:
                raise Bad('symbolic meta header')
            events.append((t, [0xFF, kind, ln] + cur.take(ln)))
            if kind == 0x2F:
                if ln != 0:
                    raise Bad('end of track length')
                ended = True
        elif status >= 0xF0:
            raise Bad('system event')
        elif status < 0x80:
            raise Bad('running status')
        elif 0xC0 <= status < 0xE0:
            events.append((t, [status] + cur.take(1)))
        else:
            events.append((t, [status] + cur.take(2)))
    if not ended:
        raise Bad('no end of track')
    return fmt, ntr, div, events


# ------------------------------------------------------------------------------- reading

class Undefined(Exception):
    """The file breaks the specification in a way whose reading is not pinned down here."""


UNKNOWN = (0xF4, 0xF5, 0xF9, 0xFD)
REAL_TIME = object()


class Body:
    """What a track chunk says, decoded event by event; the bytes may be symbolic."""

    def __init__(self, items):
        self.cur = Cursor(items)
        self.time = 0
        self.prev = None
        self.signature = None        # (nn, dd) of the last time signature event
        self.prefixed = False
        self.refusable = False       # holds an event that a reader may as well refuse

    def sized(self, n):
        """The next n bytes; n may be symbolic."""
        left = len(self.cur.b) - self.cur.i
        for k in range(left + 1):
            if n == k:
                return self.cur.take(k)
        raise Bad('truncated')

    def length(self):
        try:
            return self.cur.varlen()
        except Bad as e:
            if 'over four' in str(e):
                raise Undefined(str(e))
            raise

    def next(self):
        """('on' | 'off', channel, pitch, velocity), ('other',) or None at the end of the track."""
        self.time = self.time + self.length()
        status = self.cur.take(1)[0]
        if status < 0x80:
            if self.prev is None:
                raise Bad('running status')
            if self.prev is REAL_TIME:
                raise Undefined('running status across a real-time message')
            self.cur.i -= 1
            status = self.prev
        if status >= 0xF0:
            self.prev = None
            if status == 0xFF:
                kind = self.cur.take(1)[0]
                n = self.length()
                if kind == 0x2F:
                    if n == 0:
                        return None
                    raise Bad('end of track length')
                body = self.sized(n)
                if kind == 0x58:
                    if len(body) != 4:
                        raise Bad('time signature length')
                    self.signature = (body[0], body[1])
                elif kind == 0x20:
                    if len(body) != 1:
                        raise Bad('channel prefix length')
                    self.prefixed = True
            elif status == 0xF0:
                self.sized(self.length())
            elif status == 0xF7:
                # an escape event has a length too; a reader may also refuse it
                self.refusable = True
                self.sized(self.length())
            elif status in UNKNOWN:
                raise Bad('unknown event')
            else:
                # not meant for files; a reader may refuse it, or skip it with its data bytes
                self.refusable = True
                if status >= 0xF8:
                    self.prev = REAL_TIME
                for n, sts in ((1, (0xF1, 0xF3)), (2, (0xF2,))):
                    if status in sts:
                        self.cur.take(n)
            return ('other',)
        self.prev = status
        if status >= 0xC0 and status < 0xE0:
            a = self.cur.take(1)
        else:
            a = self.cur.take(2)
        for x in a:
            if x >= 0x80:
                raise Undefined('data byte over 127')
        if status < 0x90:
            return ('off', status - 0x80, a[0], a[1])
        if status < 0xA0:
            return ('on', status - 0x90, a[0], a[1])
        return ('other',)


# ------------------------------------------------------------------------------- encoding

def varlen(ctx, v, nbytes):
    """v as a variable length quantity of exactly nbytes bytes (v symbolic)."""
    out = []
    for k in range(nbytes):
        part = v // (128 ** (nbytes - 1 - k)) % 128
        out.append(part + (128 if k < nbytes - 1 else 0))
    return out


def chunk(kind, items):
    n = len(items)
    return list(kind) + [n >> 24 & 255, n >> 16 & 255, n >> 8 & 255, n & 255] + items


def header(division, fmt=0, ntr=1):
    return chunk(b'MThd', [0, fmt, 0, ntr, division // 256, division % 256])


END = [0, 0xFF, 0x2F, 0]


def file_bytes(ctx, division, body, end=True):
    return ctx.mkbytes(header(division) + chunk(b'MTrk', list(body) + (END if end else [])))
