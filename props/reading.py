"""Reference interpreter of an SMF event list: which notes sound, on which channel."""
from props.hist import D, Entry

GRID = 16384        # the reader's time grid: 1/16384 of a whole note, rounded down


class Score:
    """Feeds on events in file order; knows the notes that must come out."""

    def __init__(self, ctx, division):
        self.ctx, self.div = ctx, division
        self.t = 0
        self.body = []
        self.sounding = []       # (channel, pitch, start, velocity)
        self.notes = []          # (channel, Entry)
        self.status = None

    def grid(self, ticks):
        return ticks * 4096 // self.div

    def delta(self, d, enc=None):
        self.t = self.t + d
        self.body += enc if enc is not None else [d]

    def raw(self, *items):
        self.body += items

    def on(self, ch, p, v, running=False):
        st = 0x90 + ch
        self.body += ([] if running else [st]) + [p, v]
        self.status = ('on', ch)
        if v == 0:
            self._off(ch, p)
            return
        for s in self.sounding:
            if s[0] == ch and s[1] == p:
                return
        self.sounding.append((ch, p, self.t, v))

    def off(self, ch, p, v, running=False):
        self.body += ([] if running else [0x80 + ch]) + [p, v]
        self.status = ('off', ch)
        self._off(ch, p)

    def run(self, p, v):
        """Running status: another event with the previous status."""
        kind, ch = self.status
        (self.on if kind == 'on' else self.off)(ch, p, v, True)

    def _off(self, ch, p):
        for i, s in enumerate(self.sounding):
            if s[0] == ch and s[1] == p:
                del self.sounding[i]
                start = s[2]
                self.notes.append((ch, Entry(self.grid(start) * (D // GRID), p - 24, self.grid(self.t - start) * (D // GRID),
                                             self.ctx.table(s[3], lambda k: min(1.0, k / 127.0)))))
                return


def interpret(ctx, division, items):
    """(notes, body) of a track chunk's bytes; raises smf.Bad or smf.Undefined."""
    from props import smf
    sc, b = Score(ctx, division), smf.Body(items)
    while True:
        e = b.next()
        sc.t = b.time
        if e is None:
            return sc.notes, b
        if e[0] == 'on':
            sc.on(e[1], e[2], e[3])
        elif e[0] == 'off':
            sc.off(e[1], e[2], e[3])
