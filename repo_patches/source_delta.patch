From 283edc5873f254a5fb268295197c6391cf34cc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:52 +0000
Subject: [PATCH 01/10] fix: keep operand order when the left signature has the
 smaller denominator

_to_common_denominator returned the nominators swapped in that case, so
Signature(1, 2) < Signature(1, 4) was True and track lengths were wrong.
---
 src/melodia/core/signature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/melodia/core/signature.py b/src/melodia/core/signature.py
index 6514bf5..cc45f3b 100644
--- a/src/melodia/core/signature.py
+++ b/src/melodia/core/signature.py
@@ -114,7 +114,7 @@ class Signature:
         if d1 > d2:
             return n1, d1 // d2 * n2, d1
 
-        return n2, d2 // d1 * n1, d2
+        return d2 // d1 * n1, n2, d2
 
     def __str__(self) -> str:
         """
-- 
2.43.0


From b58462d909cb7367952bc577538a944f5023c510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:52 +0000
Subject: [PATCH 02/10] fix: tracks of different sizes are not equal

zip() stops at the shorter track, so a track compared equal to any of its
extensions.
---
 src/melodia/core/track.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/melodia/core/track.py b/src/melodia/core/track.py
index ddc11d6..c5b52b1 100644
--- a/src/melodia/core/track.py
+++ b/src/melodia/core/track.py
@@ -123,6 +123,9 @@ class Track:
         if self._signature != other._signature:
             return False
 
+        if len(self) != len(other):
+            return False
+
         for (ap, an), (bp, bn) in zip(self, other):
             if an != bn or ap != bp:
                 return False
-- 
2.43.0


From ce4c178b2b9076f58b2463585e661b50a6a1e9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:52 +0000
Subject: [PATCH 03/10] fix: reject notation with trailing characters

Tone.from_notation('C4xyz') was accepted as 'C4' although a notation that
can not be parsed must raise ValueError.
---
 src/melodia/core/tone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/melodia/core/tone.py b/src/melodia/core/tone.py
index 72acf12..7380831 100644
--- a/src/melodia/core/tone.py
+++ b/src/melodia/core/tone.py
@@ -95,7 +95,7 @@ class Tone:
         :param notation: notation string
         :return: Tone with pitch derived from notation
         """
-        match = _notation_regex.match(notation)
+        match = _notation_regex.fullmatch(notation)
 
         if match is None:
             raise ValueError('Invalid notation')
-- 
2.43.0


From 60d8ebc17d702d2cae255dd77f1b56373dd25170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:52 +0000
Subject: [PATCH 04/10] fix: read all four bytes of the chunk size

The first size byte was ignored, so chunks of 16 MiB or more were cut.
---
 src/melodia/io/midi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index 6724f81..c97b7a6 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -394,7 +394,7 @@ class MIDIReader:
             if len(chunk_header) < 8:
                 raise MIDIParsingError('Invalid MIDI file: incomplete chunk header')
             chunk_name = chunk_header[:4]
-            chunk_size = int.from_bytes(chunk_header[5:], 'big')
+            chunk_size = int.from_bytes(chunk_header[4:], 'big')
             chunk_body = file.read(chunk_size)
             if len(chunk_body) < chunk_size:
                 raise MIDIParsingError('Invalid MIDI file: incomplete chunk body')
-- 
2.43.0


From f0ccfc1427b7468b846e52800313530c4914897d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:18 +0000
Subject: [PATCH 05/10] fix: skip system exclusive events by their length

The loop compared bytes with an integer and never saw the terminator, so
every file with a system exclusive event failed to parse.
---
 src/melodia/io/midi.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index c97b7a6..b7028d4 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -510,9 +510,7 @@ class MIDIReader:
                     return _EventNoteON(channel=channel, pitch=pitch, velocity=velocity)
                 elif status == 0xF0:
                     # System exclusive
-                    value = 0
-                    while value != 0xF7:
-                        value = data.read(1)
+                    data.read(MIDIReader._read_var_len(data))
                     return _EventUnsupported()
                 else:
                     length = _event_lengths[status]
-- 
2.43.0


From 210a05686d14234e242b58a0c14505c34e051a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:18 +0000
Subject: [PATCH 06/10] fix: running status needs a previous channel message

A data byte with no status in effect recursed until RecursionError, and
meta and system events were taken as running status.
---
 src/melodia/io/midi.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index b7028d4..24c6388 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -463,7 +463,7 @@ class MIDIReader:
                 status = MIDIReader._read_8(data)
 
             if status == 0xFF:
-                previous_status = status
+                previous_status = None
                 # New meta event
                 kind = MIDIReader._read_8(data)
                 length = MIDIReader._read_var_len(data)
@@ -492,7 +492,7 @@ class MIDIReader:
                     data.read(length)
                     return _EventUnsupported()
             elif status >= 0x80:
-                previous_status = status
+                previous_status = status if status < 0xF0 else None
                 # New event
                 kind = status >> 4
                 channel = status & 0xF
@@ -521,6 +521,8 @@ class MIDIReader:
                     return _EventUnsupported()
             else:
                 # Running status
+                if previous_status is None:
+                    raise MIDIParsingError('Invalid MIDI file: running status without previous status')
                 data.shift(-1)
                 return read_event(status=previous_status)
 
-- 
2.43.0


From 865b9358bb9e20473f3a1f3b5629eaace322dd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:18 +0000
Subject: [PATCH 07/10] fix: report a zero division as a parsing error

It surfaced as an AssertionError (or ZeroDivisionError with -O).
---
 src/melodia/io/midi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index 24c6388..e52ca55 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -625,6 +625,8 @@ class MIDIReader:
                     raise MIDIParsingError('Invalid MIDI file: multiple tracks in a single track file')
                 if division > 0x7FFF:
                     raise MIDIParsingError('Unsupported MIDI file: unsupported division')
+                if division == 0:
+                    raise MIDIParsingError('Invalid MIDI file: division is zero')
                 ticks_per_quarter = division
             if chunk_kind == b'MTrk':
                 if ticks_per_quarter is None:
-- 
2.43.0


From 61b3881fba9114551c0a06aba48e8386d68da924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:18 +0000
Subject: [PATCH 08/10] fix: write MIDI clocks per metronome click, not pulses
 per quarter

The third byte of the time signature event counts MIDI clocks (24 per
quarter); a resolution over 255 made every dump fail with OverflowError.
---
 src/melodia/io/midi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index e52ca55..151181d 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -216,7 +216,7 @@ class MIDIWriter:
 
         delta_events: List[Tuple[int, bytes]] = [
             # Time signature
-            (0, self._format_signature(track.signature, cc=self._pulses_per_quarter, bb=8)),
+            (0, self._format_signature(track.signature, cc=24, bb=8)),
             # Tempo
             (0, self._format_tempo(int(60000000 / self._bpm)))
         ]
-- 
2.43.0


From 8ae5c53e228c11c0834df2c9db676a6245a988e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:18 +0000
Subject: [PATCH 09/10] fix: refuse delta times that do not fit a variable
 length quantity

MIDI variable length quantities hold at most 28 bits; longer ones made
files that other software can not read.
---
 src/melodia/io/midi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/melodia/io/midi.py b/src/melodia/io/midi.py
index 151181d..4bbb374 100644
--- a/src/melodia/io/midi.py
+++ b/src/melodia/io/midi.py
@@ -223,6 +223,8 @@ class MIDIWriter:
 
         last_absolute_time = 0
         for absolute_time, note_event in absolute_note_events:
+            if absolute_time - last_absolute_time > 0x0FFFFFFF:
+                raise ValueError('Time between two events is too long to be written to midi file')
             delta_events.append((absolute_time - last_absolute_time, note_event))
             last_absolute_time = absolute_time
 
-- 
2.43.0


From 28ea60eae7410275e4bd8e8318a92c612bfc4f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:10 +0000
Subject: [PATCH 10/10] fix: refuse to add anything but notes to a track before
 changing it

---
 src/melodia/core/track.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/melodia/core/track.py b/src/melodia/core/track.py
index c5b52b1..2771a5f 100644
--- a/src/melodia/core/track.py
+++ b/src/melodia/core/track.py
@@ -97,6 +97,9 @@ class Track:
                 self.add(what=x, where=position)
             return
 
+        if not isinstance(what, Note):
+            raise TypeError('what must be a Note object or an iterable of Note objects')
+
         note: Note = what
 
         if position.denominator > self._max_denominator:
-- 
2.43.0

