"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

p('P01', 'Every cycle runs each block exactly once, after the blocks that feed it',
  'For any patch, however it was wired and from whichever of its blocks it is started, planning finishes and every block reachable over connections runs exactly once per cycle. A block runs after every block that feeds it, except where a connection is part of a feedback loop; a connection is delayed only if it closes a loop of otherwise undelayed connections, so connections on no loop never are. The same holds for the blocks inside a composite block, whose outside connections stay as they are, even when the planning is interrupted or another thread runs the patch meanwhile.',
  ['programs', 'inputs', 'schedules'],
  'all patches (graphs of value and message connections with fan-out, parallel edges, self loops, feedback loops, relays and composites), all start sets, all wiring and traversal orders, interruption of replanning at any point, replanning while another thread runs the patch',
  'The tests sort a dozen hand-drawn graphs; the result depends on graph shape, on node numbering and on the iteration order of unordered sets, which no sample settles.',
  ['klang/execution.py', 'klang/graph.py', 'klang/block.py', 'klang/composite.py', 'klang/klang.py'],
  [('network traversal and index mapping', 'klang/execution.py determine_execution_order'),
   ('back-edge removal and topological sort', 'klang/graph.py find_back_edges, topological_sorting'),
   ('planning inside of a composite', 'klang/composite.py Composite.update_internal_exec_order')],
  ['order in which block update methods are called in a cycle', 'connections after planning'])
p('P02', 'Connections stay consistent under any patching history',
  'After any sequence of connecting, disconnecting, piping and mixing, whichever end or operator it was asked from, both ends of every connection agree, an input has at most one source, and the patch is exactly what the accepted requests say. A request that is rejected (wrong kinds, input taken, nothing to disconnect, nothing to connect) changes nothing. A value read at an input is the value its source currently holds, through any number of relays, or the input\'s own fallback when it is not connected; reading while another thread patches yields one of those it had meanwhile, never an error.',
  ['histories', 'inputs'],
  'all histories of patch operations, valid and invalid, over value and message outputs, relays, inputs, blocks and mixers, interleaved with value writes and reads',
  'Tests try each operation once on fresh objects; agreement of both ends must survive every mix of accepted and rejected operations.',
  ['klang/connections.py', 'klang/block.py', 'klang/audio/mixer.py'],
  [('validated make/break of connections', 'klang/connections.py make_connection, break_connection'),
   ('operators', 'klang/block.py pipe_operator, mix_operator'),
   ('value lookup through relays', 'klang/connections.py Input.value, Relay')],
  ['incoming and outgoing connections', 'connected flags', 'values at inputs'])
p('P03', 'Messages reach every connected input once and in order',
  'Every message sent on an output is queued exactly once at each message input connected to it, directly or through relays, in sending order, and received exactly once. When a receiver falls behind, only its oldest messages beyond the queue limit are dropped; taking only the latest message yields the newest one. This also holds when sender and receiver run in different threads, where no message that fits the queue is lost, duplicated or reordered and a newest message is never discarded unseen, and when other inputs of the same output are connected or disconnected meanwhile, which themselves receive exactly what is sent while they are connected.',
  ['schedules', 'histories', 'programs'],
  'all message wirings, all histories of sends and receives including partial reception and rewiring, all interleavings of one or two sending threads with the receiving cycle',
  'Tests send a handful of messages in one thread; loss and reordering need a slow receiver or a particular thread interleaving.',
  ['klang/connections.py', 'klang/keyboard.py'],
  [('bounded queue', 'klang/connections.py _MessageQueue'), ('fan-out', 'klang/connections.py MessageOutput.send, MessageRelay.push')],
  ['messages returned by receive and receive_latest'],
  [('queue', 'pending messages of an input', 'klang/connections.py _MessageQueue.queue')])
p('P04', 'What is sent over the network arrives equal, whatever the network does',
  'Notes, numeric arrays up to whole stereo audio buffers and JSON values sent by one patch arrive at the other patch equal in type, shape and content, one delivery per datagram that the network delivers, in the order it delivers them. The value receiver always shows the value that arrived last and keeps it while nothing arrives; the message receiver passes on every arrived message once. Once loss stops, the next value or message sent is received by the next cycle after its arrival.',
  ['fault_sequences', 'inputs', 'schedules'],
  'all sequences of objects, all interleavings of sender and receiver cycles, all sequences of loss, duplication, reordering and delay; UDP and Unix addresses',
  'No test touches the network; fidelity depends on object shapes, sizes and on what the network does between cycles.',
  ['klang/network.py', 'klang/messages.py'],
  [('JSON encoding with object hook', 'klang/network.py KlangJSONEncoder, klang_object_hook'), ('non-blocking drain', 'klang/network.py receive_all_from')],
  ['output of the receiving network blocks'])
p('P05', 'Bad datagrams and network errors never stop a patch',
  'No datagram, however malformed, truncated or foreign, and no transient send failure (peer missing, buffer full, message too large) stops a patch or makes a network block raise in its cycle. Valid objects that precede the fault in the same datagram and all valid datagrams before and after it are still delivered exactly once, and a failed send loses at most that one object. After the failures stop, later sends get through.',
  ['fault_sequences', 'inputs', 'histories'],
  'all byte strings as datagrams interleaved with valid ones; all sequences of send errors and peer restarts',
  'No test sends anything malformed or makes a socket call fail.',
  ['klang/network.py', 'klang/messages.py'],
  [('decoding loop', 'klang/network.py JsonCourier.receive_objects'), ('sending', 'klang/network.py JsonCourier.send_object')],
  ['exceptions from block updates', 'objects delivered'])
p('P06', 'Every lengthened note ends once, on time',
  'Each note-on given to the note lengthener is passed on at once, and exactly one matching note-off follows it, in the first cycle whose clock has reached the note\'s start plus the duration, never earlier; note-offs on the input are ignored. Note-offs come in the order of their note-ons, and those due in a cycle before the note-ons of that cycle. This holds for overlapping and repeated pitches, for any cycle spacing including stalls and clock jumps, and nothing else is sent.',
  ['schedules', 'inputs', 'histories'],
  'all note sequences and durations, all clocks (regular, jittery, stalled, jumping forward)',
  'Tests advance the clock a few regular steps with one or two notes.',
  ['klang/note_effects.py', 'klang/clock.py', 'klang/messages.py'],
  [('active note queue', 'klang/note_effects.py NoteLengthener'), ('note-off from note-on', 'klang/messages.py Note.silence')],
  ['messages on the lengthener output per cycle'])
p('P07', 'A sequencer plays every step once, in order, on the beat',
  'A running sequencer emits each pattern step exactly once per pass in pattern order, starting with the first step, within one buffer (one more behind a micro rhythm) of the time given by tempo, grid and beat value and without drift over time; rests are silent, every emitted note is followed by its note-off after the configured length, and channels do not influence each other. This holds for any pattern length including a single step and for tempi so fast that several steps fall into one buffer, as long as a pass takes longer than two buffers. A micro rhythm shifts the steps of its channel only, by as much as its phrasing (which may change or be patched while running) says; applying one while running, applying it again, removing it or moving it on to another channel reroutes only that channel\'s timing and never leaves a channel silent, doubled, early or out of order, not even for a moment when another thread does it than the one which plays.',
  ['inputs', 'histories', 'configurations', 'schedules'],
  'all patterns, tempi, grids, note lengths and output modes; running times of thousands of cycles; micro-rhythm changes at any cycle and at any point within a cycle (other thread)',
  'Tests check construction and a few cycles; drift, wrap-around and mid-run rerouting only show over long runs.',
  ['klang/sequencer.py', 'klang/audio/oscillators.py', 'klang/note_effects.py', 'klang/music/rhythm.py', 'klang/music/tempo.py'],
  [('phase to step', 'klang/sequencer.py PizzaSlicer, pizza_slice_number'), ('phase accumulation', 'klang/audio/oscillators.py Phasor'), ('insert point', 'klang/sequencer.py Sequence.apply_micro_rhythm')],
  ['notes on sequencer outputs per cycle'])
p('P08', 'An arpeggiator plays one held note at a time and stops with them',
  'An arpeggiator has at most one note sounding: each note it starts is ended exactly once, before or with the next one, and it only starts notes held at that moment. It steps once per interval (of at least one buffer) within one buffer, through the held notes in the chosen order, visiting every held note in each round while the held notes do not change. After the last held note is released the sounding note ends within one interval and nothing more is sent until a new note is held.',
  ['histories', 'inputs', 'configurations'],
  'all histories of presses and releases (including duplicates and releases of notes not held), all orders and intervals, long runs',
  'Tests exercise the note container and one or two steps; pairing of on and off across changes of the held notes needs histories.',
  ['klang/arpeggiator.py', 'klang/audio/oscillators.py'],
  [('note container', 'klang/arpeggiator.py Arpeggio'), ('step on phase wrap', 'klang/arpeggiator.py Arpeggiator.update')],
  ['notes on the arpeggiator output per cycle'])
p('P09', 'A polyphonic synthesizer has no stuck, lost or wrong notes',
  'Every note-on sounds on a voice of its own with that note\'s frequency and velocity while no more notes sound than there are voices, and a note-off releases exactly the sounding notes of that pitch, even when both arrive in the same cycle. After all notes were released the output becomes exactly silent within the release time and all voices are free again. Beyond the number of voices the newest note sounds in place of others, whose late note-offs end nothing else. Sounding notes never influence each other: the output is the scaled sum of the voices as played alone.',
  ['histories', 'inputs', 'configurations'],
  'all note histories up to and beyond the number of voices, any grouping of notes into cycles, envelopes and oscillators',
  'Tests play a few notes spaced apart; stuck notes need particular groupings and overlaps.',
  ['klang/audio/synthesizer.py', 'klang/audio/voices.py', 'klang/audio/envelopes.py'],
  [('voice allocation and release', 'klang/audio/synthesizer.py PolyphonicSynthesizer.process_note'), ('voice', 'klang/audio/voices.py Voice')],
  ['synthesizer audio output', 'active voices'])
p('P10', 'A monophonic synthesizer plays the held note its policy picks',
  'At the end of each cycle a monophonic synthesizer sounds exactly the note that its policy (newest, oldest, highest, lowest) picks from the notes currently held, at that note\'s frequency and velocity, returning to the right remaining note after each release. With no note held it goes silent within the release time and stays silent. Repeated note-ons of a held pitch (which may count as new or keep their place) and note-offs of pitches not held never leave a note stuck or cut a held one.',
  ['histories', 'inputs', 'configurations'],
  'all note histories, policies and groupings into cycles',
  'Tests cover one short history per policy.',
  ['klang/audio/synthesizer.py', 'klang/audio/voices.py'],
  [('priority queue of held notes', 'klang/audio/synthesizer.py NoteScheduler')],
  ['synthesizer audio output', 'voice activity'])
p('P11', 'Note limiting and message merging lose, invent and reorder nothing',
  'Behind the note limiter (limit of at least one) never more than the configured number of notes are on: each new note is passed on after the oldest ones above the limit were ended exactly once, and no note is ended that was not on; incoming note-offs are not passed on. A message merger passes on every message of every input exactly once, keeping the order within each input. Chained with other note processing in any execution order within a patch, nothing is lost within a cycle beyond the queue limit.',
  ['histories', 'inputs', 'configurations'],
  'all note histories, limits and numbers of inputs, groupings into cycles, inputs added while running',
  'No test covers these blocks.',
  ['klang/note_effects.py', 'klang/connections.py'],
  [('bounded active notes', 'klang/note_effects.py MaxNotes'), ('merge', 'klang/note_effects.py MessageMixer')],
  ['messages on the outputs'])
p('P12', 'Envelopes stay in range, follow their stages and always finish',
  'An envelope\'s samples stay within 0 and 1 and, except where a stage time is zero or the sustain level itself is changed, change without jumps; after note-on it rises to full, falls to the sustain level and holds it, and after note-off it falls to exactly zero and becomes inactive, each stage taking at most its configured time. A looping envelope repeats while the note is held and finishes after release; retriggering restarts only if enabled. The samples do not depend on how the stream is cut into buffers, and any gate sequence or parameter change mid-stage keeps all of this. The pure Python generator, used where the compiled one could not be built, follows its stages likewise in whole buffers and takes parameter changes with the next stage.',
  ['histories', 'inputs', 'configurations'],
  'all parameters, gate histories at sample granularity, parameter changes mid-stage, chunkings of the sample stream',
  'Tests compare a few fixed curves; chunking, retrigger and parameter histories are unbounded.',
  ['klang/audio/_envelope.c', 'klang/audio/envelopes.py', 'klang/audio/envelope.py'],
  [('sample-wise state machine', 'klang/audio/_envelope.c Envelope_single_sample'), ('coefficient recomputation', 'klang/audio/_envelope.c Envelope_compute_base_values_and_coefficients')],
  ['envelope samples', 'active flag'])
p('P13', 'The live engine runs one cycle per callback and always releases the device',
  'For patches with sound output, sound input or as many channels of both, and while the sound card is active, each callback runs the whole patch exactly once, with the clock advanced by exactly one buffer per callback, input samples of that callback visible to the patch, and returns exactly one buffer of correctly interleaved samples of the declared channel count. A patch without input needs no input device. It stops by itself after the configured duration, with the first callback that reaches it. However the run ends (duration reached, interrupt, device lost, no or too small device, open failure, error in a block, wrong number of channels), every stream and audio session that was opened is stopped, closed and terminated exactly once, and status flags from the device never disturb the sound.',
  ['schedules', 'fault_sequences', 'configurations', 'crash_points'],
  'all channel counts, durations, device timings, status flags, device and interrupt faults at any point of the run',
  'No test opens a stream; there is no sound card in the test environment.',
  ['klang/audio/klanggeber.py', 'klang/klang.py', 'klang/clock.py'],
  [('stream callback', 'klang/audio/klanggeber.py run_audio_engine stream_callback'), ('shutdown', 'klang/audio/klanggeber.py run_audio_engine try/finally')],
  ['calls on the audio device', 'bytes returned to it', 'clock seen by blocks'])
p('P14', 'A recording contains exactly what was played',
  'Recording a run, live or offline, yields a file holding every buffer that was played, once, in order, at the right rate and channel count, up to the overall level, with the fade-out applied only over its configured time. Offline bouncing of any duration renders exactly that many whole buffers, equals the live recording of the same patch (sound inputs being silent), and neither the progress display nor the wall clock (jumps, stalls, standstill) disturbs it. Silent, very short and interrupted live runs produce a valid recording as well instead of an error.',
  ['configurations', 'fault_sequences', 'schedules', 'inputs'],
  'all patches, durations, fade-outs, channel counts, end reasons and clock behaviours',
  'No test runs the engine; the interesting cases are durations, faults and clocks.',
  ['klang/audio/klanggeber.py', 'klang/audio/wavfile.py', 'klang/progress_bar.py'],
  [('captured frames', 'klang/audio/klanggeber.py run_audio_engine capturedFrames'), ('offline loop', 'klang/audio/klanggeber.py run_audio_engine offline'), ('progress', 'klang/progress_bar.py ProgressBar')],
  ['file contents', 'buffers given to the device'])
p('P15', 'Audio files are read back as written or refused, never silently wrong',
  'Audio written to a file and loaded again has the same sampling rate, number of channels and length, and the same samples up to overall level and 16-bit resolution. If writing is cut short at any point (crash, full disk, I/O error), the writer reports the error, and the incomplete file is refused when loaded rather than played as a complete recording. Files made by other programs are read right as well, whatever other chunks they contain, or refused if their kind of samples is not supported (16 bit PCM is). Reading under short reads or read errors yields the full correct data or an error.',
  ['crash_points', 'fault_sequences', 'inputs'],
  'all audio contents, lengths and channel counts; all points at which a write, seek or read fails, is short, or the process dies',
  'Tests round-trip one or two arrays on a healthy disk.',
  ['klang/audio/wavfile.py', 'klang/math.py'],
  [('write', 'klang/audio/wavfile.py write_wave'), ('load', 'klang/audio/wavfile.py load_wave')],
  ['loaded rate and samples', 'exceptions'])
p('P16', 'Key presses and releases become paired notes, whatever is pressed between',
  'Each press of a note key sends one note-on with the current octave, velocity and tuning, auto-repeat (the key pressed again without release) sends nothing, and its release sends one note-off that ends exactly that note, even if octave, velocity, tuning, Shift or Caps Lock were changed in between (a note key shifted when pressed is no note key). Control keys change octave (0 to 9), velocity (0.1 to 1) and tuning and stay within these limits, other keys are passed on only if asked for, and no key event whatsoever ends the listening. Presses handled by the keyboard thread at any moment of an audio cycle are neither lost nor doubled.',
  ['histories', 'schedules', 'inputs'],
  'all histories of key events incl. auto-repeat, spurious releases, control keys in any number, unknown keys; all interleavings of the keyboard thread with the audio cycle',
  'No test covers the keyboard; no keyboard exists in the test environment.',
  ['klang/keyboard.py', 'klang/connections.py', 'klang/messages.py'],
  [('debouncing', 'klang/keyboard.py Keyboard.on_press, on_release'), ('key mapping', 'klang/keyboard.py MusicalKeyboard.on_key_event')],
  ['notes received by the patch', 'listener alive'])
p('P17', 'MIDI output mirrors the notes of the patch',
  'Every note of integer pitch reaching the MIDI output block is sent to the chosen port as exactly one message in the same order: note-on or note-off status on the configured channel, the note\'s pitch, and its velocity scaled to 0-127, never turning an audible note-on into one of zero velocity. The port is opened once and closed once however the block ends, with a virtual port when no port exists. A failing port loses at most the messages sent while it fails.',
  ['histories', 'inputs', 'fault_sequences', 'configurations'],
  'all note histories, channels, port configurations, and send failures',
  'No test covers MIDI output.',
  ['klang/midi.py', 'klang/messages.py'],
  [('conversion', 'klang/midi.py note_to_midi_message'), ('port handling', 'klang/midi.py open_midiout, MidiOut')],
  ['messages and calls on the MIDI port'])
p('P18', 'Without audio the main loop ticks once per grid interval',
  'A patch without audio runs its cycles on a fixed grid of one buffer duration: every cycle gets a strictly later clock value that is a multiple of the buffer duration, no cycle runs before its time (except by as much as a sleep ends early), each grid point is used at most once, and after a late or long cycle the loop resumes at the next grid point instead of bursting. While cycles and sleeps are on time no grid point is skipped.',
  ['schedules', 'fault_sequences'],
  'all cycle costs, sleep overshoots and undershoots, clock resolutions and stalls',
  'The loop never ends and depends on the wall clock, so no test runs it.',
  ['klang/klang.py', 'klang/clock.py'],
  [('grid sleep', 'klang/klang.py sleep_until_next_cycle'), ('main loop', 'klang/klang.py run_klang')],
  ['clock values seen by blocks', 'time of each cycle'])
p('P19', 'Sound streams are seamless across buffers',
  'Processing a signal buffer by buffer gives the same result as the ideal unbroken stream (cut-off frequencies come in fine steps): delay lines, comb and echo filters, reverb and low-pass filters carry their state so that every echo appears at its exact delay and level, oscillators and modulators keep their phase across buffers, frequency changes and long runs, settings changed between two buffers (suddenly or gliding by a little each time) take effect from the next buffer on without disturbing what the block remembers, and no block alters the buffers other blocks read. Blocks of the same kind do not share state. Endless running needs no growing memory.',
  ['inputs', 'histories', 'configurations'],
  'all delay lengths, gains, input signals and memory layouts, frequencies over time, and run lengths',
  'Tests check one or two buffers of a few fixed signals.',
  ['klang/ring_buffer.py', 'klang/audio/filters.py', 'klang/audio/_filters.c', 'klang/audio/effects.py', 'klang/audio/oscillators.py', 'klang/audio/mixer.py'],
  [('ring buffers', 'klang/ring_buffer.py RingBuffer, klang/audio/_filters.c RingBuffer'), ('phase carry', 'klang/audio/oscillators.py sample_phase'), ('filter state', 'klang/audio/effects.py _Filter')],
  ['block audio outputs over consecutive cycles'])
p('P20', 'Sample playback is gapless, complete and controllable',
  'A played audio file comes out sample by sample in file order, complete, once, or seamlessly repeated within its trim points when looping; pause resumes where it stopped, rewind and stop return to the start, and after the end it stays silent and stopped. The output always has the shape of one buffer per channel, so playback can be patched straight to the sound card for mono and stereo files in every playing state. Controls given by other threads at any moment take effect before or after the current buffer and are never lost. Playback speed changes the rate of progress only (a resampler may hold back the last two samples); the reported position stays within the file, stands still while nothing plays and is otherwise ahead of what is heard by no more than the resampler reads ahead.',
  ['histories', 'inputs', 'configurations'],
  'all file lengths, channel counts, trim points, loop settings, and histories of play, pause, rewind, stop and cycles',
  'Tests check lengths of a few reads, not content across wraps and control histories.',
  ['klang/audio/sampling.py', 'klang/audio/wavfile.py'],
  [('wrap and trim', 'klang/audio/sampling.py Sample.callback'), ('transport', 'klang/audio/sampling.py AudioFile')],
  ['audio output of the playback block'])
p('P21', 'A whole patch renders the same music however it is built and driven',
  'Rendering a given feedback-free patch gives the same audio and the same notes whatever the wiring order, the start blocks, the iteration order of connections, or whether it is driven offline or by a jittery sound card. Notes travel from their source through note effects, the network of composites and synthesizers to the output within the cycle that produced them. Removing and restoring a connection or replanning between cycles changes nothing else, and blocks which are added, removed or exchanged in a running patch are heard from the next cycle on once the composite around them (or the patch) was planned again.',
  ['schedules', 'programs', 'configurations'],
  'all feedback-free patches assembled from the library\'s sources, note effects, synthesizers, effects and mixers; all wiring, start and iteration orders; offline and live driving',
  'Tests exercise blocks one at a time; no test runs a whole patch.',
  ['klang/klang.py', 'klang/execution.py', 'klang/composite.py', 'klang/block.py', 'klang/audio/klanggeber.py'],
  [('planning', 'klang/execution.py determine_execution_order'), ('driving', 'klang/audio/klanggeber.py run_audio_engine')],
  ['rendered samples', 'messages at probes'])
p('P22', 'Pitch, tuning and frequency conversions agree with each other',
  'For every pitch and temperament the frequency and the pitch convert back and forth, octaves double the frequency and the concert pitch is exact in equal temperament.',
  ['inputs'], 'all pitches and temperaments',
  'Tests check a few pitches.',
  ['klang/music/tunings.py', 'klang/music/pitch.py'], [('conversion', 'klang/music/tunings.py')], ['returned values'])
p('P23', 'Musical notation is parsed and formatted consistently',
  'Note names, chords, scales, metres and note values parse to the right numbers, format back to equivalent text, and unknown names are refused with suggestions.',
  ['inputs'], 'all names and values', 'Tests check examples.',
  ['klang/music/pitch.py', 'klang/music/chords.py', 'klang/music/scales.py', 'klang/music/note_formatting.py', 'klang/util.py'],
  [('lookup', 'klang/util.py find_item')], ['returned values'])
p('P24', 'Panning keeps the loudness law it promises',
  'For every pan position the left and right amplitudes follow the chosen panning mode and pan law, are symmetric and never exceed full level.',
  ['inputs', 'configurations'], 'all pan levels, modes and laws', 'Tests check examples.',
  ['klang/audio/panning.py'], [('amplitudes', 'klang/audio/panning.py panning_amplitudes')], ['returned values'])
p('P25', 'A drum sounds the same at every hit and only when hit',
  'Each note-on of positive pitch strikes the kick drum anew at the start of the cycle it arrives in: it sounds exactly like every hit before, however long ago that was, at its falling pitch, without clicks between buffers and never louder than its exponential decay; note-offs and notes of pitch zero do not change it. The hi-hat is fresh noise (or the same looped noise) which follows its decay envelope after each note-on, once the note before was released, and is silent when it has decayed. Before the first hit a drum is silent, and drums do not influence each other.',
  ['histories', 'inputs', 'configurations'],
  'all histories of hits and releases, any number of drums, all decay times, frequencies and intensities',
  'No test plays a drum at all.',
  ['klang/audio/synthesizer.py', 'klang/audio/waves.py', 'klang/audio/envelopes.py'],
  [('kick drum', 'klang/audio/synthesizer.py Kick.update'), ('hi-hat', 'klang/audio/synthesizer.py HiHat.update')],
  ['audio output of the drum blocks'])
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
print(len(P))
