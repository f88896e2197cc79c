"""Writes MANIFEST.json from the checks there are."""
import glob, json, os, re
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
have = {os.path.basename(f)[:3].upper() for f in glob.glob(os.path.join(here, 'klangsim/props/p*.py'))}
TECH = 'deterministic simulation with fault injection: seeded search over %s against an executable reference model'
WHAT = {
    'P01': 'patches, wiring and iteration orders and interruptions of planning',
    'P02': 'patching histories',
    'P03': 'thread interleavings and message histories',
    'P04': 'simulated network schedules (loss, duplication, reordering, delay, partitions)',
    'P05': 'malformed datagrams, socket faults and restarts',
    'P06': 'simulated clocks (jitter, stalls, jumps) and note histories',
    'P07': 'simulated running times, tempi and reconfiguration points',
    'P08': 'simulated histories of held notes',
    'P09': 'simulated note histories and voice failures',
    'P10': 'simulated note histories',
    'P11': 'simulated note histories and block execution orders',
    'P12': 'gate and parameter histories at sample granularity and stream chunkings',
    'P13': 'simulated sound card timing, device faults and interrupts',
    'P14': 'simulated sound card, clock and end-of-run faults',
    'P15': 'simulated disk faults (short, torn, lost writes, full disk, crash points)',
    'P16': 'key event histories and interleavings of the keyboard thread',
    'P17': 'simulated MIDI port faults and note histories',
    'P18': 'simulated clocks (sleep jitter, coarse and stalled clocks, long cycles)',
    'P19': 'simulated signal streams and schedules of cycles',
    'P20': 'playback control histories',
    'P25': 'simulated histories of hits',
    'P21': 'wiring and iteration orders, drivers and sound card timing',
}
PURE = {
    'P22': 'Pure functions of their arguments: no schedule, clock, I/O, randomness or history for a simulator to decide.',
    'P23': 'Pure text and number functions: no schedule, clock, I/O, randomness or history for a simulator to decide.',
    'P24': 'Pure functions of mode, law and level: no schedule, clock, I/O, randomness or history for a simulator to decide.',
}
NOTE = ('Not exhaustive: what holds on all explored seeds may fail on others. Every run is a function of its seed and '
        'is reproduced, minimised and written as a replay file when it violates the property.')
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        checks.append(dict(property=i, quick_cmd='bin/klangsim check %s --tier quick' % i,
                           thorough_cmd='bin/klangsim check %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=TECH % WHAT[i],
                           level='exploration', level_note=NOTE))
    else:
        na.append(dict(property=i, reason=PURE.get(i, 'Not claimed: the check is not built yet.')))
doc = dict(version=1, setup_cmd='bin/klangsim build', checks=checks, not_applicable=na,
           notes='No hooks in /repo: all seams are the facilities klang imports (time, socket, open, pyaudio, rtmidi, '
                 'pynput), replaced by the simulator before klang is imported. See DESIGN.md.')
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(doc, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
