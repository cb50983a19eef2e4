#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the texts live here, once)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S, T, N, TR, M, CH, PR = ('src/melodia/core/signature.py', 'src/melodia/core/tone.py', 'src/melodia/core/note.py',
                          'src/melodia/core/track.py', 'src/melodia/io/midi.py', 'src/melodia/music/chord.py',
                          'src/melodia/processing/track.py')
P = []


def prop(id, title, statement, over, quant, why, files, mech, note, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), quant=quant, why=why, files=files, mech=mech, note=note,
                  state=state or [], observe=observe or []))


prop('C01', 'Signature arithmetic is exact',
     'Adding, multiplying, taking the absolute value, rescaling and normalising time signatures gives exactly the rational value that '
     'arithmetic prescribes, for nominators and denominators of any size; a sum is expressed over the larger of the two denominators. A '
     'normalised signature is in lowest terms with the same value (zero becomes 0/1). Rescaling to a larger or equal power-of-two '
     'denominator keeps the value and yields that denominator; rescaling to a smaller one, or to a number that is no power of two, is '
     'refused with ValueError.',
     'inputs', 'every pair (for associativity: triple) of signatures: all nominators >= 0, power-of-two denominators',
     'the tests compare a dozen literal pairs; none has large or equal-value-different-denominator operands in every position',
     [S], [('__add__, __mul__, __abs__, to, normalized', S)],
     'nominators unbounded; denominators 2^e for the listed exponents (quick: 0..17 and eight larger up to 100; thorough 0..33 and fourteen larger up to 200)')
prop('C02', 'Signatures are totally ordered by value',
     'The six comparisons of two time signatures agree with comparing the fractions as exact numbers, whatever their denominators. So '
     'signatures of equal value are equal however they are written, and sorting or taking the maximum goes by value.',
     'inputs', 'every pair and triple of signatures: all nominators >= 0, power-of-two denominators',
     'the tests check a few literal pairs, mostly with the larger denominator on one side',
     [S], [('__eq__, __lt__, __le__, __gt__, __ge__ over a common denominator', S)],
     'nominators unbounded; denominators 2^e for the listed exponents')
prop('C03', 'Only valid signatures can exist',
     'Two integers make a time signature exactly when the nominator is not negative and the denominator is a positive power of two; '
     'every other pair of integers is refused with ValueError. An accepted pair is stored unchanged, not reduced, and every result of an '
     'operation on signatures is again such a pair.',
     'inputs', 'every integer nominator; every integer denominator in a symbolic window and powers of two with their neighbours beyond it',
     'the tests try a handful of valid and invalid pairs',
     [S], [('Signature.__init__ validation', S)],
     'nominator unbounded; denominator every integer in [-4096, 70000] as one symbolic value, plus 2^k and neighbours, k up to 1100')
prop('C04', 'Notation parsing accepts exactly the documented notation',
     'A text is accepted as a tone exactly when it is a letter A-G (upper case), any number of # and b, and an optional octave (an integer, '
     'possibly negative; missing means 0) and nothing else; every other text is refused with ValueError. The pitch is the letter\'s '
     'semitone plus one per #, minus one per b, plus twelve per octave.',
     'inputs', 'every text of bounded length, and every structured notation of bounded length',
     'the tests list some notations; texts are an unbounded domain and near-misses (trailing newline, case, order) are not listed',
     [T], [('from_notation: regular expression and pitch formula', T)],
     'every ASCII text up to length 5 (thorough 7); structured texts up to 4 accidentals and 4 digits (thorough 7 and 7); selected longer ones; '
     'one character beyond ASCII at any place of a notation (up to U+FFFF, no decimal digit: which of those count as digits is left open)')
prop('C05', 'Formatted tones read back as the same tone',
     'Formatting a tone as text gives the conventional name of its pitch class (sharps by default, flats on request) followed by its octave, '
     'and parsing that text gives a tone of the same pitch, for every pitch, negative octaves included.',
     'inputs', 'every pitch with octave below 1000 in absolute value (thorough 10^9), all spellings',
     'the tests check individual tones',
     [T], [('to_notation, __str__, from_notation', T)], 'pitches with |octave| < 1000 (thorough 10^9) and windows around larger powers')
prop('C06', 'Tones behave as integers under transposition and order',
     'A tone holds any integer pitch unchanged; transposing by k adds k, so transpositions compose and can be undone; the octave is the '
     'pitch divided by twelve rounded down; the six comparisons go by pitch. A pitch that is not an integer is refused with ValueError.',
     'inputs', 'every integer pitch and transposition',
     'the tests check individual pitches', [T], [('Tone.__init__, transposed, octave, comparisons', T)],
     'unbounded integers; no bound on pitch or transposition')
prop('C07', 'Tone frequency is equal temperament',
     'The frequency of a tone is the base frequency (by default 440 Hz) times two to the power of (pitch - 57)/12: A4 (pitch 57) is '
     'the base, an octave doubles it, a higher pitch is higher, and it is proportional to the base.',
     'inputs', 'every integer pitch and a wide range of base frequencies',
     'the tests check a few tones at 440 Hz', [T], [('to_frequency', T)],
     'real arithmetic for all pitches (two-to-the-power is an uninterpreted monotone function with exact octave law); doubles for pitches '
     '-240..360 within 1e-12 relative; base frequencies 0, m/64 up to 2^30 Hz and integers up to 2^40')
prop('C08', 'A note holds exactly what it was given',
     'A note accepts its tone as tone, integer pitch or notation and its duration as signature or pair, and reports exactly these values '
     'and its velocity; a velocity outside 0 to 1 (also NaN) is refused with ValueError an argument of another type with TypeError, a pair that is no signature or a text that is no notation with an error. '
     'A derived note (transposed, with another duration, with another velocity) differs in that component only, and the original is unchanged.',
     'inputs', 'every pitch, duration and IEEE double velocity, every accepted form of the arguments',
     'the tests build a few notes; velocities range over all doubles', [N], [('Note.__init__, transposed, with_duration, with_velocity', N)],
     'pitches and duration nominators unbounded; velocity any IEEE double including NaN and infinities')
prop('C09', 'Notes are ordered by pitch, duration, velocity',
     'The six comparisons of two notes agree with the lexicographic order of (pitch, duration by value, velocity); notes are equal exactly '
     'when all three agree.',
     'inputs', 'every pair of notes', 'the tests compare few literal notes', [N], [('comparisons over triplets', N), ('comparisons', S)],
     'pitches and nominators unbounded; velocity any double in [0,1]; durations over listed denominator pairs')
prop('C10', 'A track holds exactly the notes added, in order',
     'After any sequence of additions (single notes, iterables, one note object several times, at a position or at the end, mixed with iteration, '
     'also left early or twice at once, and comparison) a track '
     'holds exactly the notes added, each at its position, duplicates included, and iterating yields them in ascending position. The number '
     'of notes is the number added, and the positions\' values do not change when finer positions are added later.',
     'histories inputs', 'every history of bounded length with arbitrary positions, pitches and durations',
     'the tests add a few notes in few orders', [TR], [('add: rescaling and heap; __iter__: lazy sort', TR)],
     'histories of 3-4 operations and up to 3-4 symbolic notes, plus histories of up to 150 concrete notes with one symbolic (thorough 300); '
     'groups of up to 33 notes; position nominators unbounded over listed denominators up to 2^200',
     [{'name': '_heap', 'meaning': 'entries, all over the largest denominator seen', 'where': TR},
      {'name': '_sorted', 'meaning': 'whether the entries are in order', 'where': TR}])
prop('C11', 'Track length is the last note end; appending starts there',
     'The length of a track is the largest end (position plus duration) of its notes, zero when empty, after any sequence of additions. '
     'A note or group added without a position starts exactly there, all notes of a group together.',
     'histories inputs', 'every history of bounded length with arbitrary positions and durations',
     'the tests append few notes', [TR], [('add: end position and maximum', TR), ('__add__, __gt__', S)],
     'histories of 3 operations (thorough 4) with unbounded nominators over listed denominators up to 2^200, plus 10-120 concrete notes with one symbolic and groups of up to 24 notes')
prop('C12', 'Track equality means same signature and content',
     'Two tracks are equal exactly when their time signatures have equal value and they hold the same notes at the same positions (by '
     'value), whatever the order in which the notes were added and however positions are written. In particular a track never equals one '
     'with more or fewer notes.',
     'histories inputs', 'every pair of tracks of bounded size, every insertion order', 'the tests compare few tracks',
     [TR], [('__eq__', TR), ('sorted iteration', TR)], 'up to 3 notes in total per pair (and 2+2, 3+3 with equal content); up to 40 concrete notes with one symbolic; nominators unbounded, denominators up to 2^200')
prop('C13', 'A written file is well-formed and holds exactly the notes',
     'Writing any track that can be expressed gives a format 0 Standard MIDI File with one track chunk of the right length: a time '
     'signature, a tempo, for every note one note-on and one note-off with its pitch, channel and velocity (the note\'s velocity times 127, '
     'rounded down; note-offs 64), in time order, and a final end of track. Nothing else is written.',
     'inputs', 'every track of bounded size with arbitrary positions, durations, pitches, velocities',
     'the tests compare few files byte by byte', [M], [('dump and the event formatters', M)],
     'one note with positions up to 2^21 and every velocity double; 2-3 notes in any overlap with small positions; tracks of 12-130 concrete '
     'notes with one symbolic, and 8500 (framing)')
prop('C14', 'Written times are exact, rounded down to pulses',
     'In a written file each note starts at its position and lasts its duration, each converted to pulses (four quarters of the '
     'resolution per whole note) and rounded down, however far apart events are. A gap between consecutive events of more than 0x0FFFFFFF '
     'pulses is refused with ValueError instead of being written wrongly.',
     'inputs configurations', 'every position and duration, every resolution', 'the tests use few short positions',
     [M], [('_signature_to_pulses, delta times, variable length quantities', M)],
     'nominators up to 2^36, listed resolutions and denominators (also beyond 2^60); notes that end after up to 2^32 pulses; every resolution for listed small positions')
prop('C15', 'Writing then reading gives the same track',
     'For a track whose times fall on the writer\'s pulse grid, whose velocities are k/127 with k from 1 to 127 and in which notes of equal pitch do not '
     'overlap, writing and reading with the same middle C gives an equal track: the same notes at the same positions with the same '
     'durations and velocities, and the same time signature (nominator 1 to 255).',
     'inputs configurations', 'every such track of bounded size, every channel, resolution from a list',
     'the tests round-trip a few tracks', [M, TR], [('MIDIWriter.dump, MIDIReader.load', M)],
     'one note with positions up to 2^17; two notes in any relation, three of one pitch one after the other, chords of 3, 12-200 concrete notes with one symbolic, long gaps in a row; time signatures '
     'n/2^e, n 1..255, e 0..14')
prop('C16', 'What MIDI cannot express is refused, writing nothing',
     'A pitch outside 0..127 after the middle C shift, a time signature nominator above 255, a tempo that does not fit three bytes or a gap '
     'that does not fit a variable length quantity makes writing raise an exception (pitch and gap: ValueError), and no byte reaches '
     'the file. Channels outside 0..15 and '
     'resolutions outside 1..32767 are refused with ValueError when the writer is made; everything else is written.',
     'inputs configurations', 'every pitch, tempo, signature nominator, gap, channel and resolution',
     'the tests try single unwritable values', [M], [('range checks before the first write', M)],
     'up to 3 arbitrary notes, one arbitrary among up to 2500 (thorough 10000); pitches, gaps, signature nominators unbounded; tempo m/64')
prop('C17', 'Reading arbitrary bytes ends in a track or a parsing error',
     'Reading any byte sequence either returns a track or raises the parsing error (or ValueError for a channel that has no notes); it '
     'never raises another exception and always terminates. Format, track count, division, incomplete chunks and unknown events that are not '
     'supported are reported as parsing errors, not misread.',
     'inputs', 'every byte sequence of bounded length, every truncation and single-byte corruption of a file',
     'the tests read a few broken files', [M], [('_Reader bounds, chunk and event parsing', M)],
     'every file up to 16 bytes; every track body up to 8 bytes behind a valid header; every truncation and one-byte substitution of a '
     'one-note file; arbitrary chunks after and before the track; a second header or track chunk; thorough: longer')
prop('C18', 'The reader delivers exactly the notes in the file',
     'Reading a format 0 file gives exactly the notes its note events denote: a note-on starts a note unless that pitch already sounds on '
     'that channel, the next note-off (or note-on with velocity 0) for that pitch and channel ends it; time is the sum of all preceding '
     'delta times, rounded down to 1/16384 of a whole note. Running status, and every other event of any length (controllers, program '
     'changes, meta and system exclusive events), foreign chunks and a longer header included, is parsed by its length and otherwise ignored; notes never ended are dropped.',
     'inputs', 'every sequence of events of bounded length with arbitrary data', 'the tests read a few files made by hand',
     [M], [('_parse_track: event parsing, pairing of note-on and note-off', M)],
     'sequences of up to 4 events (thorough 5) with arbitrary data bytes, up to 3 also at equal times; 20-200 concrete events with one symbolic; skipped events of up to 70000 bytes; any delta time before the end of the track; positions up to 2^33 ticks; listed divisions')
prop('C19', 'Channels are separable and merge completely',
     'Asking for a channel returns exactly the notes of that channel; asking for none returns the notes of all channels in one track; asking '
     'for a channel without note events, in a file that has some, raises ValueError. A time signature event applies to all channels, or only to the channel named by the '
     'channel prefix before it; the last one counts, 4/4 is the default, and the merged track takes the largest.',
     'inputs', 'every assignment of notes to channels, every time signature', 'the tests read one or two channels',
     [M], [('load: per-channel tracks and merging; channel prefix', M)], 'up to 3 notes (thorough 4) on arbitrary channels; any integer asked for as channel; sequences of up to 4 time signatures and prefixes (thorough 5); one delta time of up to four bytes')
prop('C20', 'The written file depends only on the content',
     'Tracks that are equal, built in any order and with positions and durations written over any denominators, give identical files; '
     'and a written file, read and written again with the same settings, is reproduced byte for byte (for notes on the pulse grid with non-zero '
     'durations and velocities of at least 1/127).',
     'histories inputs', 'every insertion order of up to three notes; every one- and two-note track within the bounds',
     'the tests write each track once', [M, TR], [('dump: sorted iteration, stable event order', M), ('__iter__', TR)],
     'two to three notes with small positions; one note up to 300/d; 12-150 concrete notes with one symbolic')
prop('C21', 'Writer settings are honoured',
     'Middle C (tone, integer or notation) is the pitch written as 60; the channel is in every note event; the tempo is 60000000 divided by '
     'bpm, rounded down, in microseconds; the header holds the resolution; the time signature event holds nominator, power of the '
     'denominator, 24 and 8. The writer and reader accept exactly the documented values for these settings.',
     'configurations inputs', 'every middle C, channel, tempo m/64 bpm, resolution and time signature',
     'the tests use default settings mostly', [M], [('MIDIWriter.__init__, _format_*', M)],
     'all channels and resolutions, unbounded middle C; tempo m/64 in exact real arithmetic')
prop('C22', 'Chords have their documented intervals',
     'Every chord function returns notes at the documented intervals above the base tone, in ascending documented order; with a note as the base its '
     'duration and velocity are taken over unless given explicitly, otherwise they default to 1/4 and 0.75. The base may be a note, tone, '
     'integer or notation; aliases agree; any other base is refused.',
     'inputs programs', 'all chord functions, every base pitch, duration and velocity', 'the tests cover few chords at few pitches',
     [CH], [('generated chord functions', CH)], 'base pitch and duration nominators unbounded, velocity any double')
prop('C23', 'Randomised velocities stay in range; all else is kept',
     'Randomising velocities returns a new track with the same time signature and the same notes at the same positions, except that every '
     'velocity lies between the given minimum and maximum (minimum not above maximum), whatever the random draws; the input is unchanged. Limits or mean outside 0 to 1 '
     'and a negative variance are refused with ValueError.',
     'inputs', 'every track of bounded size, every double for limits and draws', 'the tests sample one generator seed',
     [PR], [('clamping and rebuilding', PR)], 'up to 2 notes (thorough 3), 40 and 260 concrete ones with one symbolic; every random draw an arbitrary double')
prop('C24', 'File, bytes, class and module interfaces agree',
     'Writing to a file, writing to bytes, and the module functions with the same settings give the same bytes, and the reading functions '
     'give the same track; what one refuses all refuse; defaults are 120 bpm, channel 0, 96 pulses per quarter and C3 as middle C. Files are written and read from '
     'their current position and left open.',
     'inputs configurations', 'every one-note track and setting within bounds', 'the tests use one interface per case',
     [M], [('dump, dumps, load, loads of module and classes', M)], 'one note (reading: two), all channels, integer tempo 4..1000 (refusals: -100..1000, every channel, pitch and signature nominator); files of up to 33000 notes with one symbolic pitch')
prop('C25', 'The repr of an object rebuilds it',
     'Evaluating the printed representation of a tone, signature, note or track gives an equal object with the same stored values, for every '
     'value.',
     'inputs', 'every tone, signature and note; tracks of bounded size', 'the tests check few representations',
     [S, T, N, TR], [('__repr__', TR)], 'tracks up to 3 notes, and 5-1100 concrete notes with one symbolic (thorough 2500); a float\'s repr is taken to denote that float')
prop('C26', 'Operations leave their operands alone',
     'No operation changes its operands: signatures, tones and notes keep their values whatever is computed from them, and a track changes '
     'only by adding to that track - not by writing, comparing, printing, iterating, copying or randomising it, nor by changes to other '
     'tracks, chords or lists that share its notes. Objects made separately (new tracks, chords, reads of the same bytes) share no state.',
     'histories inputs', 'every history of the stated operations with arbitrary values', 'the tests look at results, not at operands',
     [S, T, N, TR, M, CH, PR], [('value objects; fresh containers', TR)], 'up to 4 notes per track, positions bounded where the writer is involved')
prop('C27', 'Writers and readers keep no memory of earlier calls',
     'What a writer or reader returns depends only on its settings and the argument: the same instance gives the same result again, after '
     'other tracks or files, after a refused track and after a parsing error, after the track written or returned was changed (it then gives the changed '
     'track\'s bytes, and the file\'s content again), and instances with different settings do not affect each other.',
     'histories inputs', 'sequences of up to four calls with arbitrary tracks and files within bounds',
     'the tests use an instance once', [M], [('no state outside the settings', M)], 'two calls before the compared one; one- and two-note tracks; every division and resolution in pairs of calls')
prop('C28', 'Generated chord functions follow their definitions',
     'For any list of chord definitions (names, title, two or more intervals of any sign) the generator writes a module in which every name of '
     'a definition is a function returning a tuple of notes at exactly these intervals above the base, in their order, with the given or '
     'default duration and velocity. The committed chord module has the same functions as the module generated from the committed '
     'definitions, and each returns the same notes for every base, duration and velocity.',
     'programs inputs', 'every definition of up to four intervals (thorough six), all integers; all committed definitions with every base, '
     'duration and velocity', 'no test runs the generator', ['scripts/generate_chords.py', CH],
     [('main: templates and statements per interval', 'scripts/generate_chords.py'), ('generated functions', CH)],
     'intervals, pitches and duration nominators unbounded, up to 4 intervals (thorough 6), up to three definitions at once; velocity any double')

prop('C29', 'The text of an object says what it is',
     'The text (str) of a tone is its name and octave, sharps for the black keys; of a signature "n/d" exactly as it stands, not reduced; of a note '
     '"Note <duration> <tone> (<velocity to three decimals>)"; of a track "Track <time signature> with <number of notes> notes", '
     'whatever was done with the track before.',
     'inputs', 'every pitch; every nominator; velocities k/127, k/1000, k/1024; tracks of up to ten notes with arbitrary positions and pitches',
     'the tests check one literal per class at most', [S, T, N, TR], [('__str__', S), ('to_notation', T), ('__str__', N), ('__str__', TR)],
     'pitches and nominators unbounded; denominators from the list; tracks of 0, 1, 2, 3 and 10 notes, of 100 and 1100 concrete ones')

prop('C30', 'A refused addition leaves the track as it was',
     'An addition to a track that is refused with an exception - the position is not a position, what is added is not a note - leaves the '
     'track as it was: the same notes, length and text, equal to a track that saw no refusal, and later additions work '
     'as if it had not been tried. Of a group, notes before the refused item may stay. What is not a note or a position is refused.',
     'histories inputs', 'every position nominator with valid and invalid denominators; a list of wrong kinds of items and positions; after histories '
     'with arbitrary positions and durations', 'the tests check at most that an exception is raised, not the track afterwards',
     [TR, S], [('Track.add: checks before changes', TR), ('Signature.__init__', S)],
     'position and duration nominators unbounded; histories of up to two additions before (thorough three) and one after; 32 kinds of wrong arguments')

CHECKED = P
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'state': p['state'],
                        'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'hook_needed': None}}) + '\n')
TECH = 'symbolic execution of the real source with an SMT solver (z3), counterexamples replayed on the plain code'
m = {
    'version': 1,
    'setup_cmd': 'python3-vt setup_check.py',
    'checks': [{'property': p['id'], 'quick_cmd': 'python3-vt check.py %s --tier quick' % p['id'],
                'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p['id'], 'technique': TECH, 'level': 'model_checking',
                'level_note': 'Bounded: ' + p['note'] + '. Trusts z3, the instrumentation and the models of the builtins it replaces '
                '(validated every run by replaying path witnesses on the uninstrumented code), and the reference stated in the harness.'}
               for p in CHECKED],
    'not_applicable': [],
    'notes': 'No hooks in /repo. Every run re-instruments /repo/src from the working tree; nothing is built ahead of time.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
