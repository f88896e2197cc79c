From 494dd84edc9ae13e09a4d8e79d665a7a98d02f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:11 +0000
Subject: [PATCH 01/56] fix: restore connections of composite also if planning
 is interrupted

---
 klang/composite.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/klang/composite.py b/klang/composite.py
index b7fdbee..ee3d97d 100644
--- a/klang/composite.py
+++ b/klang/composite.py
@@ -43,10 +43,11 @@ def temporarily_unpatch(block):
     for src, dst in connections:
         src.disconnect(dst)
 
-    yield block
-
-    for src, dst in connections:
-        src.connect(dst)
+    try:
+        yield block
+    finally:
+        for src, dst in connections:
+            src.connect(dst)
 
 
 class Composite(Block):
-- 
2.43.0


From 58cd7fb8af40cab33d97fcb68625a84ce9f4b85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:09 +0000
Subject: [PATCH 02/56] fix: progress bar of length one

---
 klang/progress_bar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/progress_bar.py b/klang/progress_bar.py
index 6c204ff..9850489 100644
--- a/klang/progress_bar.py
+++ b/klang/progress_bar.py
@@ -28,7 +28,7 @@ class ProgressBar:
 
     def render(self, i) -> str:
         """Render progress bar."""
-        progress = max(0, min(1, i / (self.length - 1)))
+        progress = max(0, min(1, i / max(1, self.length - 1)))
 
         # ETA
         now = self.clock()
-- 
2.43.0


From 534216d16e3c6ff98bfdc5c9095e7544e155bcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:07 +0000
Subject: [PATCH 03/56] fix: running only an empty composite

---
 klang/klang.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/klang.py b/klang/klang.py
index cf2c6f4..ab69b97 100644
--- a/klang/klang.py
+++ b/klang/klang.py
@@ -33,7 +33,7 @@ def validate_global_execution_order(execOrder, logger):
     """
     flattenedExecOrder = unravel(execOrder)
     counter = collections.Counter(flattenedExecOrder)
-    hasDuplicates = max(counter.values()) > 1
+    hasDuplicates = max(counter.values(), default=0) > 1
     if hasDuplicates:
         fmt = (
             'Found duplicates in flattened execOrder! Following blocks will '
-- 
2.43.0


From 329657e977647fcfdb54ac6051a7ec79761f2bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:07 +0000
Subject: [PATCH 04/56] fix: do not treat composite as a waypoint between its
 internal blocks

Connections between internal blocks got delayed by one buffer if they closed a
loop only via the relays of the composite itself.
---
 klang/composite.py | 41 ++++++++++++++++++++++++++++++++++-------
 klang/execution.py | 19 +++++++++++++++----
 2 files changed, 49 insertions(+), 11 deletions(-)

diff --git a/klang/composite.py b/klang/composite.py
index ee3d97d..6d0afe0 100644
--- a/klang/composite.py
+++ b/klang/composite.py
@@ -3,7 +3,7 @@ import contextlib
 
 from klang.block import Block, collect_connections
 from klang.connections import RelayBase
-from klang.execution import determine_execution_order, execute
+from klang.execution import execute, sort_network, traverse_network
 
 
 def introspect(composite):
@@ -50,6 +50,31 @@ def temporarily_unpatch(block):
             src.connect(dst)
 
 
+def internal_edges(composite, edges):
+    """Filter edges between the internal blocks of a composite. The composite
+    itself is no waypoint between its internal blocks, only connections from
+    its out- to its input relays are (insert points).
+    """
+    for src, dst in edges:
+        if src is not composite and dst is not composite:
+            yield src, dst
+
+    for relay in composite.outputs:
+        if not isinstance(relay, RelayBase) or not relay.connected:
+            continue
+
+        src = relay.incomingConnection.owner
+        queue = list(relay.outgoingConnections)
+        visited = set()
+        while queue:
+            dst = queue.pop()
+            if dst.owner is not composite:
+                yield src, dst.owner
+            elif dst not in visited:
+                visited.add(dst)
+                queue.extend(dst.outgoingConnections)
+
+
 class Composite(Block):
 
     """A composite is a collection of blocks which get bundled. Each composite
@@ -71,12 +96,14 @@ class Composite(Block):
             blocks = introspect(self)
 
         with temporarily_unpatch(self):
-            execOrder = determine_execution_order(blocks)
-
-        while self in execOrder:
-            execOrder.remove(self)
-
-        self.execOrder = execOrder
+            vertices, edges = traverse_network(blocks)
+            edges = set(internal_edges(self, edges))
+
+        vertices = [block for block in vertices if block is not self]
+        self.execOrder = sort_network(vertices, {
+            (src, dst) for src, dst in edges
+            if src in vertices and dst in vertices
+        })
 
     def update(self):
         """Execute internal composite blocks."""
diff --git a/klang/execution.py b/klang/execution.py
index 6e7d16a..edb9b7e 100644
--- a/klang/execution.py
+++ b/klang/execution.py
@@ -34,10 +34,16 @@ def traverse_network(blocks):
     return vertices, edges
 
 
-def determine_execution_order(blocks):
-    """Get appropriate execution order for block network."""
-    blocks = list(blocks)
-    vertices, edges = traverse_network(blocks)
+def sort_network(vertices, edges):
+    """Sort traversed network.
+
+    Args:
+        vertices (list): Blocks of the network.
+        edges (iterable): Connections between these blocks (block tuples).
+
+    Returns:
+        list: Appropriate execution order.
+    """
     if not edges:
         return vertices
 
@@ -58,6 +64,11 @@ def determine_execution_order(blocks):
     return execOrder
 
 
+def determine_execution_order(blocks):
+    """Get appropriate execution order for block network."""
+    return sort_network(*traverse_network(list(blocks)))
+
+
 def execute(blocks):
     """Execute blocks."""
     for block in blocks:
-- 
2.43.0


From f8123983fcc9893617a7c2ebe1e94fe2420c87d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:57 +0000
Subject: [PATCH 05/56] fix: receive_latest() may discard a message sent by
 another thread unseen

---
 klang/connections.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/klang/connections.py b/klang/connections.py
index 9cfb7d3..b937605 100644
--- a/klang/connections.py
+++ b/klang/connections.py
@@ -339,11 +339,10 @@ class _MessageQueue:
 
     def receive_latest(self):
         """Return latest received messages (if any). Discard the rest."""
-        if not self.queue:
-            return None
+        latestMsg = None
+        for latestMsg in self.receive():
+            pass
 
-        latestMsg = self.queue.pop()
-        self.queue.clear()
         return latestMsg
 
 
-- 
2.43.0


From 2a684c8171bcffecc06df44cf8893f18784c499e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:20 +0000
Subject: [PATCH 06/56] fix: rejected connection leaves a dangling mixer
 channel

---
 klang/audio/mixer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/klang/audio/mixer.py b/klang/audio/mixer.py
index fcbbdb5..e2cbe51 100644
--- a/klang/audio/mixer.py
+++ b/klang/audio/mixer.py
@@ -2,7 +2,7 @@
 from klang.audio.helpers import MONO_SILENCE, STEREO_SILENCE
 from klang.audio.panning import CENTER, panning_amplitudes
 from klang.block import fetch_output, Block
-from klang.connections import Input
+from klang.connections import Input, validate_connection
 
 
 __all__ = ['Mixer', 'StereoMixer']
@@ -52,8 +52,9 @@ class Mixer(Block):
         """Inplace add a new block.output or output to the mixer. Return mixer
         for concatenation.
         """
-        self.add_new_channel()
         output = fetch_output(other)
+        validate_connection(output, Input())
+        self.add_new_channel()
         output.connect(self.inputs[-1])
         return self
 
-- 
2.43.0


From fbcedf6e720e6adc7d123269f36b27ece992531e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:02 +0000
Subject: [PATCH 07/56] fix: audio buffers do not fit network buffer and get
 truncated

---
 klang/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/network.py b/klang/network.py
index dc361d1..8d4ab48 100644
--- a/klang/network.py
+++ b/klang/network.py
@@ -11,7 +11,7 @@ from klang.connections import MessageOutput, MessageInput
 from klang.messages import Note
 
 
-NETWORK_BUFFER_SIZE = 1024
+NETWORK_BUFFER_SIZE = 65536
 """int: Network buffer size for receiving datagram messages."""
 
 LOGGER = logging.getLogger(__name__)
-- 
2.43.0


From ebef654ddcd8494fc022f2355ca04decbbc83362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:02 +0000
Subject: [PATCH 08/56] fix: send non-contiguous arrays over network

---
 klang/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/network.py b/klang/network.py
index 8d4ab48..108f145 100644
--- a/klang/network.py
+++ b/klang/network.py
@@ -70,7 +70,7 @@ def array_to_dict(arr):
     """Convert numpy array to JSON compatible dictionary using base 64
     encoding.
     """
-    raw = base64.b64encode(arr.data)
+    raw = base64.b64encode(arr.tobytes())
     return {
         'type': 'ndarray',
         'dtype': str(arr.dtype),
-- 
2.43.0


From 21e9603607ab592fec90b4cf14a4c19e71daca91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:02 +0000
Subject: [PATCH 09/56] fix: send numpy scalars (e.g. pitches from array
 patterns) over network

---
 klang/network.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/klang/network.py b/klang/network.py
index 108f145..33b7bd5 100644
--- a/klang/network.py
+++ b/klang/network.py
@@ -110,7 +110,7 @@ class KlangJSONEncoder(json.JSONEncoder):
 
     def encode(self, o):
         if isinstance(o, Note):
-            return o.to_json()
+            return super().encode(o.to_dict())
 
         if isinstance(o, np.ndarray):
             dct = array_to_dict(o)
@@ -118,6 +118,12 @@ class KlangJSONEncoder(json.JSONEncoder):
 
         return super().encode(o)
 
+    def default(self, o):
+        if isinstance(o, np.generic):
+            return o.item()
+
+        return super().default(o)
+
 
 class JsonCourier:
 
-- 
2.43.0


From 783757e8d001ada4e8f331e414f47402b35cf076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:02 +0000
Subject: [PATCH 10/56] fix: empty datagrams hold up the ones behind them

---
 klang/network.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/klang/network.py b/klang/network.py
index 33b7bd5..5ba9b71 100644
--- a/klang/network.py
+++ b/klang/network.py
@@ -52,16 +52,13 @@ def receive_all_from(sock, bufsize=NETWORK_BUFFER_SIZE):
         bytes: Received data chunks.
     """
     try:
-        # This would be a use case for the Walrus Operator but we want support
-        # for <3.8
-        data = sock.recv(bufsize)
-        while data:
+        while True:
+            data = sock.recv(bufsize)
             if len(data) == bufsize:
                 fmt = 'Full input buffer (%d bytes)! Overflow?'
                 LOGGER.warning(fmt, bufsize)
 
             yield data
-            data = sock.recv(bufsize)
     except BlockingIOError:
         return
 
-- 
2.43.0


From 39424c4c67c0d46236a5ece5ece9d2e4df9cb4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:06 +0000
Subject: [PATCH 11/56] fix: malformed datagrams stop the patch

---
 klang/network.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/klang/network.py b/klang/network.py
index 5ba9b71..ecfccc8 100644
--- a/klang/network.py
+++ b/klang/network.py
@@ -149,16 +149,24 @@ class JsonCourier:
         """Yields all JSON decoded objects."""
         for data in receive_all_from(self.sock):
             #print('Received:', data)
-            string = data.decode()
+            try:
+                string = data.decode()
+            except UnicodeDecodeError as err:
+                self.logger.error(err, exc_info=True)
+                string = data[:err.start].decode()
+
+            string = string.strip()
             while string:
                 try:
                     obj, stop = self.decoder.raw_decode(string)
-                    yield obj
-                    string = string[stop:]
-                except json.JSONDecodeError as err:
+                except Exception as err:  # pylint: disable=broad-except
+                    # Malformed JSON or Klang object. Data comes from outside.
                     self.logger.error(err, exc_info=True)
                     break
 
+                yield obj
+                string = string[stop:].lstrip()
+
     def send_object(self, obj):
         """Send object to address as JSON."""
         string = self.encoder.encode(obj)
-- 
2.43.0


From d1386ab3496146a822e788855be2ffe32a06c08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:06 +0000
Subject: [PATCH 12/56] fix: failing send stops the patch

---
 klang/network.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/klang/network.py b/klang/network.py
index ecfccc8..61a1896 100644
--- a/klang/network.py
+++ b/klang/network.py
@@ -172,7 +172,11 @@ class JsonCourier:
         string = self.encoder.encode(obj)
         data = string.encode()
         #print('Sending', data)
-        return self.sock.sendto(data, self.address)
+        try:
+            return self.sock.sendto(data, self.address)
+        except OSError as err:
+            self.logger.error(err, exc_info=True)
+            return 0
 
     def __del__(self):
         self.logger.info('Closing socket %s', self.sock)
-- 
2.43.0


From 85073de27a10eca1f9e66be838c344614bef0f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:06 +0000
Subject: [PATCH 13/56] fix: failing receive stops the patch

---
 klang/network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/klang/network.py b/klang/network.py
index 61a1896..678410b 100644
--- a/klang/network.py
+++ b/klang/network.py
@@ -61,6 +61,9 @@ def receive_all_from(sock, bufsize=NETWORK_BUFFER_SIZE):
             yield data
     except BlockingIOError:
         return
+    except OSError as err:
+        LOGGER.error(err, exc_info=True)
+        return
 
 
 def array_to_dict(arr):
-- 
2.43.0


From 003c2b358afe0597ca19f73e49556614a9e72ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:33 +0000
Subject: [PATCH 14/56] fix: single step sequences are silent, phase moving
 backwards replays the pattern

---
 klang/sequencer.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/klang/sequencer.py b/klang/sequencer.py
index b3334b8..5ef09af 100644
--- a/klang/sequencer.py
+++ b/klang/sequencer.py
@@ -11,7 +11,7 @@ from klang.audio.oscillators import Phasor
 from klang.block import Block
 from klang.composite import Composite
 from klang.connections import MessageInput, MessageOutput, MessageRelay, Relay
-from klang.constants import TAU
+from klang.constants import PI, TAU
 from klang.messages import Note
 from klang.music.note_values import QUARTER_NOTE, SIXTEENTH_NOTE
 from klang.music.rhythm import MicroRhyhtm
@@ -111,17 +111,29 @@ class PizzaSlicer(Block):
         self.outputs = [MessageOutput(owner=self)]
         self.nSlices = nSlices
         self.currentIdx = -1
+        self.prevPhase = None
+        self.nTurns = 0
+        self.nSent = 0
 
     def increment(self):
         """Increment current index by one."""
         self.currentIdx = (self.currentIdx + 1) % self.nSlices
 
     def update(self):
-        phase = self.input.value
+        phase = self.input.value % TAU
+        if self.prevPhase is not None:
+            # Full turns. The phase may also move backwards (micro rhythm).
+            if phase - self.prevPhase < -PI:
+                self.nTurns += 1
+            elif phase - self.prevPhase > PI:
+                self.nTurns -= 1
+
+        self.prevPhase = phase
         idx = pizza_slice_number(phase, self.nSlices)
-        missing = (idx - self.currentIdx) % self.nSlices
-        for _ in range(missing):
+        nReached = self.nTurns * self.nSlices + idx + 1
+        for _ in range(nReached - self.nSent):
             self.increment()
+            self.nSent += 1
             self.output.send(self.currentIdx)
 
     def __str__(self):
-- 
2.43.0


From b0a40637e4e9b3b57b45868cec5cf176ef88685f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:06 +0000
Subject: [PATCH 15/56] fix: refused micro rhythm silences channel, phase jump
 when applying

---
 klang/sequencer.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/klang/sequencer.py b/klang/sequencer.py
index 5ef09af..e787b61 100644
--- a/klang/sequencer.py
+++ b/klang/sequencer.py
@@ -10,7 +10,14 @@ import numpy as np
 from klang.audio.oscillators import Phasor
 from klang.block import Block
 from klang.composite import Composite
-from klang.connections import MessageInput, MessageOutput, MessageRelay, Relay
+from klang.connections import (
+    InputAlreadyConnected,
+    MessageInput,
+    MessageOutput,
+    MessageRelay,
+    Relay,
+    are_connected,
+)
 from klang.constants import PI, TAU
 from klang.messages import Note
 from klang.music.note_values import QUARTER_NOTE, SIXTEENTH_NOTE
@@ -225,8 +232,12 @@ class Sequence(Composite):
 
     def apply_micro_rhythm(self, microRhythm: MicroRhyhtm):
         """Patch microRhythm to sequence."""
+        if microRhythm.input.connected and not are_connected(self.phaseOut, microRhythm.input):
+            raise InputAlreadyConnected('%s is already in use!' % microRhythm)
+
         self.disconnect_phase_insert()
         self.phaseOut | microRhythm | self.phaseIn
+        microRhythm.update()  # No phase jump in the first cycle
         self.sequencer.update_internal_exec_order()
 
     def reset_micro_rhythm(self):
-- 
2.43.0


From 70371eb8dfa3a56d68653bd2ca6bf34d24a17e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:50 +0000
Subject: [PATCH 16/56] fix: arpeggiator keeps ending its last note

---
 klang/arpeggiator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/klang/arpeggiator.py b/klang/arpeggiator.py
index 2900ba0..6ce0ac2 100644
--- a/klang/arpeggiator.py
+++ b/klang/arpeggiator.py
@@ -185,6 +185,7 @@ class Arpeggiator(Composite):
             if self.prevNote:
                 noteOff = self.prevNote.silence()
                 self.output.send(noteOff)
+                self.prevNote = None
 
             if self.arpeggio:
                 note = next(self.arpeggio)
-- 
2.43.0


From 6e22885ef26f2d5014e89e66f59057068e08513f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:06 +0000
Subject: [PATCH 17/56] fix: repeated note-on of a held pitch gets stuck in
 monophonic synthesizer

---
 klang/audio/synthesizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/klang/audio/synthesizer.py b/klang/audio/synthesizer.py
index b688f77..072bc92 100644
--- a/klang/audio/synthesizer.py
+++ b/klang/audio/synthesizer.py
@@ -117,6 +117,7 @@ class NoteScheduler:
 
     def add_note(self, note):
         """Add new note-on to note scheduler."""
+        self.remove_note(note)  # Only one note-off per pitch to expect
         key = self.get_key(note)
         item = (key, note)
         heapq.heappush(self.notes, item)
-- 
2.43.0


From 64ce7645156a77c9849736c241ffcb984847d0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:06 +0000
Subject: [PATCH 18/56] fix: stuck and stolen notes in polyphonic synthesizer

---
 klang/audio/synthesizer.py | 13 ++++++++++++-
 klang/audio/voices.py      |  4 ++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/klang/audio/synthesizer.py b/klang/audio/synthesizer.py
index 072bc92..cf0b6c6 100644
--- a/klang/audio/synthesizer.py
+++ b/klang/audio/synthesizer.py
@@ -198,15 +198,26 @@ class PolyphonicSynthesizer(Synthesizer):
         self.voices = duplicate_voice(voice, self.MAX_VOICES)
         self.freeVoice = itertools.cycle(self.voices)
 
+    def next_voice(self):
+        """Get next free voice. If there is none a sounding one."""
+        for _ in self.voices:
+            voice = next(self.freeVoice)
+            if not voice.active:
+                return voice
+
+        return next(self.freeVoice)
+
     def process_note(self, note):
         if note.on:
             #print('Play new note', note)
-            voice = next(self.freeVoice)
+            voice = self.next_voice()
+            voice.currentPitch = note.pitch
             voice.input.push(note)
         else:
             #print('Kill old note', note)
             for voice in self.voices:
                 if voice.currentPitch == note.pitch:
+                    voice.currentPitch = None
                     voice.input.push(note)
 
     def update(self):
diff --git a/klang/audio/voices.py b/klang/audio/voices.py
index 02f8bf8..de4608f 100644
--- a/klang/audio/voices.py
+++ b/klang/audio/voices.py
@@ -39,7 +39,7 @@ class Voice(Composite):
         self.oscillator = oscillator
         self.envelope = envelope
         self.amplitude = 0.
-        self.currentPitch = 0
+        self.currentPitch = None
         self.update_internal_exec_order(self.oscillator, self.envelope)
 
     @property
@@ -61,7 +61,7 @@ class Voice(Composite):
                 self.oscillator.frequency.set_value(note.frequency)
                 self.currentPitch = note.pitch
             else:
-                self.currentPitch = 0
+                self.currentPitch = None
 
     def update(self):
         self.process_incoming_notes()
-- 
2.43.0


From fb6c476d2bdac9673c4bf016d26fdee5deade6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:07 +0000
Subject: [PATCH 19/56] fix: audio session left open if device is refused or
 shutdown is disturbed

---
 klang/audio/klanggeber.py | 51 +++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 23 deletions(-)

diff --git a/klang/audio/klanggeber.py b/klang/audio/klanggeber.py
index 05ccd10..0da1d45 100644
--- a/klang/audio/klanggeber.py
+++ b/klang/audio/klanggeber.py
@@ -266,32 +266,37 @@ def run_audio_engine(adc: Adc, dac: Dac, execute_all_blocks: Callable, duration:
         # Example: Callback Mode Audio I/O from
         # https://people.csail.mit.edu/hubert/pyaudio/docs/
         pa = pyaudio.PyAudio()
-        validate_sound_card_channels(pa, adc, dac)
-        assert D_TYPE is np.float32
-        capturedFrames = []
-        stream = pa.open(
-            rate=SAMPLING_RATE,
-            frames_per_buffer=BUFFER_SIZE,
-            channels=dac.nChannels,  # TODO: How to 1x input, 2x outputs?
-            format=pyaudio.paFloat32,
-            input=(adc.nChannels > 0),
-            output=(dac.nChannels > 0),
-            stream_callback=stream_callback,
-        )
-
         try:
-            logger.info('Starting up audio engine with default devices')
-            stream.start_stream()
-            while stream.is_active():
-                time.sleep(0.1)
-
-        except KeyboardInterrupt:
-            pass
+            validate_sound_card_channels(pa, adc, dac)
+            assert D_TYPE is np.float32
+            capturedFrames = []
+            stream = pa.open(
+                rate=SAMPLING_RATE,
+                frames_per_buffer=BUFFER_SIZE,
+                channels=dac.nChannels,  # TODO: How to 1x input, 2x outputs?
+                format=pyaudio.paFloat32,
+                input=(adc.nChannels > 0),
+                output=(dac.nChannels > 0),
+                stream_callback=stream_callback,
+            )
+
+            try:
+                logger.info('Starting up audio engine with default devices')
+                stream.start_stream()
+                while stream.is_active():
+                    time.sleep(0.1)
+
+            except KeyboardInterrupt:
+                pass
+
+            finally:
+                logger.info('Shutting down audio engine')
+                try:
+                    stream.stop_stream()
+                finally:
+                    stream.close()
 
         finally:
-            logger.info('Shutting down audio engine')
-            stream.stop_stream()
-            stream.close()
             pa.terminate()
 
     if filepath:
-- 
2.43.0


From 353a90d1e2e373b1cc3b4b83a9d27d226824fb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:34 +0000
Subject: [PATCH 20/56] fix: playing without a microphone

---
 klang/audio/klanggeber.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/klang/audio/klanggeber.py b/klang/audio/klanggeber.py
index 0da1d45..6cbbd90 100644
--- a/klang/audio/klanggeber.py
+++ b/klang/audio/klanggeber.py
@@ -69,13 +69,16 @@ def validate_sound_card_channels(pa, adc, dac):
         adc (Adc): Audio input block.
         dac (dac): Audio output block.
     """
-    inputDeviceInfo = pa.get_default_input_device_info()
-    if adc.nChannels > inputDeviceInfo['maxInputChannels']:
-        raise ValueError('Not enough sound card inputs!')
-
-    outputDeviceInfo = pa.get_default_output_device_info()
-    if dac.nChannels > outputDeviceInfo['maxOutputChannels']:
-        raise ValueError('Not enough sound card outputs!')
+    # Note: There might be no default device at all
+    if adc.nChannels > 0:
+        inputDeviceInfo = pa.get_default_input_device_info()
+        if adc.nChannels > inputDeviceInfo['maxInputChannels']:
+            raise ValueError('Not enough sound card inputs!')
+
+    if dac.nChannels > 0:
+        outputDeviceInfo = pa.get_default_output_device_info()
+        if dac.nChannels > outputDeviceInfo['maxOutputChannels']:
+            raise ValueError('Not enough sound card outputs!')
 
 
 def pack_signals(signals):
-- 
2.43.0


From 909572190002bfca466dc6c1d69b6bce554fa52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:34 +0000
Subject: [PATCH 21/56] fix: fade-out starts late, silences very short runs

---
 klang/audio/klanggeber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/audio/klanggeber.py b/klang/audio/klanggeber.py
index 6cbbd90..3c5e44b 100644
--- a/klang/audio/klanggeber.py
+++ b/klang/audio/klanggeber.py
@@ -243,7 +243,7 @@ def run_audio_engine(adc: Adc, dac: Dac, execute_all_blocks: Callable, duration:
             silence = get_silence((frame_count, dac.nChannels), D_TYPE)
             return silence, pyaudio.paAbort
 
-        if playTime >= fadeOutStart:
+        if fadeout > 0 and playTime + INTERVAL > fadeOutStart:
             outData *= fade_out_envelope(playTime)
 
         if filepath:
-- 
2.43.0


From 9458df6ea487acec608b645fc28c9ce8412f830f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:34 +0000
Subject: [PATCH 22/56] fix: audio input without audio output

---
 klang/audio/klanggeber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/audio/klanggeber.py b/klang/audio/klanggeber.py
index 3c5e44b..7139a9c 100644
--- a/klang/audio/klanggeber.py
+++ b/klang/audio/klanggeber.py
@@ -276,7 +276,7 @@ def run_audio_engine(adc: Adc, dac: Dac, execute_all_blocks: Callable, duration:
             stream = pa.open(
                 rate=SAMPLING_RATE,
                 frames_per_buffer=BUFFER_SIZE,
-                channels=dac.nChannels,  # TODO: How to 1x input, 2x outputs?
+                channels=dac.nChannels or adc.nChannels,  # TODO: How to 1x input, 2x outputs?
                 format=pyaudio.paFloat32,
                 input=(adc.nChannels > 0),
                 output=(dac.nChannels > 0),
-- 
2.43.0


From e4a94a7096df01f834cda778d661cc38f63edba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:54 +0000
Subject: [PATCH 23/56] fix: recording silence or nothing at all

---
 klang/audio/klanggeber.py | 3 ++-
 klang/audio/wavfile.py    | 9 ++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/klang/audio/klanggeber.py b/klang/audio/klanggeber.py
index 7139a9c..b02223d 100644
--- a/klang/audio/klanggeber.py
+++ b/klang/audio/klanggeber.py
@@ -304,5 +304,6 @@ def run_audio_engine(adc: Adc, dac: Dac, execute_all_blocks: Callable, duration:
 
     if filepath:
         logger.info('Writing audio dump to WAV file %r', filepath)
-        samples = np.concatenate(capturedFrames)
+        nothing = np.empty((0, dac.nChannels), dtype=D_TYPE)
+        samples = np.concatenate([nothing] + capturedFrames)
         write_wave(samples, filepath)
diff --git a/klang/audio/wavfile.py b/klang/audio/wavfile.py
index 0b5a614..039b17e 100644
--- a/klang/audio/wavfile.py
+++ b/klang/audio/wavfile.py
@@ -56,8 +56,11 @@ def write_wave(audio, filepath, samplingRate=SAMPLING_RATE, dtype=np.int16):
     # TODO: 8 bit -> uint8, 24 bit -> ???, 32 bit -> int32
     audio = np.asarray(audio)
 
-    # Scale to full Wertebereich of target bit depth.
-    samples = (normalize_values(audio) * np.iinfo(dtype).max).astype(dtype)
+    # Scale to full Wertebereich of target bit depth. Silence stays silent.
+    if np.any(audio):
+        audio = normalize_values(audio)
+
+    samples = (audio * np.iinfo(dtype).max).astype(dtype)
     m, n = samples.shape
-    assert m > n
+    assert m > n or m == 0
     scipy.io.wavfile.write(filepath, samplingRate, samples)
-- 
2.43.0


From 974dcf5f29f696cec1680623575a3e0c2c1f37a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:54 +0000
Subject: [PATCH 24/56] fix: write mono samples

---
 klang/audio/wavfile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/klang/audio/wavfile.py b/klang/audio/wavfile.py
index 039b17e..fc4e8c9 100644
--- a/klang/audio/wavfile.py
+++ b/klang/audio/wavfile.py
@@ -55,6 +55,8 @@ def write_wave(audio, filepath, samplingRate=SAMPLING_RATE, dtype=np.int16):
     """Write mono / stereo audio to WAV file."""
     # TODO: 8 bit -> uint8, 24 bit -> ???, 32 bit -> int32
     audio = np.asarray(audio)
+    if audio.ndim == 1:
+        audio = audio[:, np.newaxis]
 
     # Scale to full Wertebereich of target bit depth. Silence stays silent.
     if np.any(audio):
-- 
2.43.0


From 3e2ed5df23be5806a24653ba3e97e1d0f922c396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:31 +0000
Subject: [PATCH 25/56] fix: running a keyboard with current Python versions

---
 klang/keyboard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/keyboard.py b/klang/keyboard.py
index 5334f94..e35e7b0 100644
--- a/klang/keyboard.py
+++ b/klang/keyboard.py
@@ -59,7 +59,7 @@ class Keyboard(Block):
     def __str__(self):
         return '%s(%s)' % (
             self.__class__.__name__,
-            'running' if self.keyWorker.isAlive() else 'not running'
+            'running' if self.keyWorker.is_alive() else 'not running'
         )
 
 
-- 
2.43.0


From daaedf3270e2f33b0345c6ceb02ba57d22641929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:31 +0000
Subject: [PATCH 26/56] fix: number keys stop the keyboard

---
 klang/keyboard.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/klang/keyboard.py b/klang/keyboard.py
index e35e7b0..4180cf1 100644
--- a/klang/keyboard.py
+++ b/klang/keyboard.py
@@ -148,8 +148,8 @@ class MusicalKeyboard(Keyboard):
         except ValueError:
             return
 
-        if 0 <= nr < len(TEMPERAMENTS):
-            self.temperament = TEMPERAMENTS[nr]
+        if 0 <= nr < len(self.TEMPERAMENTS):
+            self.temperament = self.TEMPERAMENTS[nr]
             print('Switched to %s' % self.temperament)
 
     def bypass_other_keys(self, key):
-- 
2.43.0


From 48284d38e8b81a1e448b6933c86006beabc0de4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:31 +0000
Subject: [PATCH 27/56] fix: changing octave while holding a key leaves note
 stuck

---
 klang/keyboard.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/klang/keyboard.py b/klang/keyboard.py
index 4180cf1..4ec3b2b 100644
--- a/klang/keyboard.py
+++ b/klang/keyboard.py
@@ -109,13 +109,19 @@ class MusicalKeyboard(Keyboard):
         self.octave = REF_OCTAVE
         self.velocity = 1.
         self.temperament = defaultTemperament
+        self.playing = {}  # Character -> note currently held
 
     def play_note(self, char, noteOn=True):
         """Play music note (note-on and note-off)."""
-        pitch = self.CHAR_2_BASE_PITCH[char] + self.octave * DODE
-        frequency = self.temperament.pitch_2_frequency(pitch)
-        velocity = self.velocity if noteOn else self.SILENT
-        note = Note(pitch, velocity=velocity, frequency=frequency)
+        if noteOn:
+            pitch = self.CHAR_2_BASE_PITCH[char] + self.octave * DODE
+            frequency = self.temperament.pitch_2_frequency(pitch)
+            note = Note(pitch, velocity=self.velocity, frequency=frequency)
+            self.playing[char] = note
+        else:
+            # Octave or tuning could have been changed in the meantime
+            note = self.playing.pop(char).silence()
+
         self.output.send(note)
 
     def change_octave(self, char):
-- 
2.43.0


From 340744415b96144d956a220cef5e5c465420d2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:31 +0000
Subject: [PATCH 28/56] fix: pitches out of range stop the keyboard

---
 klang/keyboard.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/klang/keyboard.py b/klang/keyboard.py
index 4ec3b2b..3f697a5 100644
--- a/klang/keyboard.py
+++ b/klang/keyboard.py
@@ -90,6 +90,9 @@ class MusicalKeyboard(Keyboard):
     QUIETER = -.1
     """float: Quieter decrement."""
 
+    MAX_OCTAVE = 9
+    """int: Highest octave for which all keys are still valid pitches."""
+
     TEMPERAMENTS = list(TEMPERAMENTS.values())
     """list: Temperament values. Makes the first 10 temperament accessible."""
 
@@ -128,10 +131,12 @@ class MusicalKeyboard(Keyboard):
         """Change current octave up / down."""
         if char == 'y':
             fmt = 'One octave down to %d'
-            self.octave -= 1
+            octave = self.octave - 1
         else:
             fmt = 'One octave up to %d'
-            self.octave += 1
+            octave = self.octave + 1
+
+        self.octave = clip(octave, 0, self.MAX_OCTAVE)
 
         print(fmt % self.octave)
 
-- 
2.43.0


From 67860245cb9514985219a4570fa2bde8e878c6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:31 +0000
Subject: [PATCH 29/56] fix: unknown keys stop the keyboard

---
 klang/keyboard.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/klang/keyboard.py b/klang/keyboard.py
index 3f697a5..1cdbb8b 100644
--- a/klang/keyboard.py
+++ b/klang/keyboard.py
@@ -28,6 +28,9 @@ class Keyboard(Block):
 
     def on_press(self, key):
         """On key press event handler with debouncing."""
+        if key is None:  # Unknown to pynput
+            return
+
         key.pressed = True
         if self.keyState[key]:
             return
@@ -37,6 +40,9 @@ class Keyboard(Block):
 
     def on_release(self, key):
         """On key release event handler with debouncing."""
+        if key is None:  # Unknown to pynput
+            return
+
         key.pressed = False
         if not self.keyState[key]:
             return
-- 
2.43.0


From d6334d8cdf6a48cddf1b9cee0f86a422be22c254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:31 +0000
Subject: [PATCH 30/56] fix: MIDI output ignores its channel

---
 klang/midi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/midi.py b/klang/midi.py
index df26b93..788888f 100644
--- a/klang/midi.py
+++ b/klang/midi.py
@@ -53,7 +53,7 @@ class MidiOut(Block):
 
     def update(self):
         for note in self.input.receive():
-            msg = note_to_midi_message(note)
+            msg = note_to_midi_message(note, self.channel)
             self.midiout.send_message(msg)
 
     def __del__(self):
-- 
2.43.0


From 78b0b9149ce3a35e79c7e60a1d93ea2404c3a265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:31 +0000
Subject: [PATCH 31/56] fix: quiet notes become note-offs in MIDI output

---
 klang/midi.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/klang/midi.py b/klang/midi.py
index 788888f..e07f6de 100644
--- a/klang/midi.py
+++ b/klang/midi.py
@@ -38,6 +38,9 @@ def note_to_midi_message(note, channel=0):
         statusByte = MIDI_NOTE_OFF + channel
 
     velocity = int(note.velocity * 127)
+    if note.on:
+        velocity = max(velocity, 1)  # Note-on with zero velocity is a note-off
+
     return [statusByte, note.pitch, velocity]
 
 
-- 
2.43.0


From 0d4929e3178990a4ae9e4b41103515ff27a4e92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:31 +0000
Subject: [PATCH 32/56] fix: failing MIDI port stops the patch

---
 klang/midi.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/klang/midi.py b/klang/midi.py
index e07f6de..3645b03 100644
--- a/klang/midi.py
+++ b/klang/midi.py
@@ -1,4 +1,6 @@
 """MIDI stuff. Work in progress."""
+import logging
+
 import rtmidi
 
 from klang.block import Block
@@ -52,15 +54,20 @@ class MidiOut(Block):
         super().__init__()
         self.channel = channel
         self.inputs = [MessageInput(owner=self)]
+        self.midiout = None
         self.midiout = open_midiout(portNumber)
 
     def update(self):
         for note in self.input.receive():
             msg = note_to_midi_message(note, self.channel)
-            self.midiout.send_message(msg)
+            try:
+                self.midiout.send_message(msg)
+            except rtmidi.RtMidiError as err:
+                logging.getLogger('MidiOut').warning('Could not send %s: %s', msg, err)
 
     def __del__(self):
-        self.midiout.close_port()
+        if self.midiout is not None:
+            self.midiout.close_port()
 
 
 if __name__ == '__main__':
-- 
2.43.0


From f22346dac34d6d83f0c17968de747b695dd18caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:31 +0000
Subject: [PATCH 33/56] fix: same cycle time twice if sleep ends right on or
 before the grid

---
 klang/klang.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/klang/klang.py b/klang/klang.py
index ab69b97..81cf4bf 100644
--- a/klang/klang.py
+++ b/klang/klang.py
@@ -10,6 +10,7 @@ from klang.audio.klanggeber import Dac, Adc
 from klang.audio.klanggeber import look_for_audio_blocks, run_audio_engine
 from klang.clock import ClockMixin
 from klang.composite import Composite
+from klang.constants import INF
 from klang.execution import determine_execution_order
 
 
@@ -48,10 +49,13 @@ def validate_global_execution_order(execOrder, logger):
         logger.warning(fmt, duplicates)
 
 
-def sleep_until_next_cycle():
-    """Sleep until next cycle and return timestamp."""
+def sleep_until_next_cycle(previous=-INF):
+    """Sleep until next cycle (after the previous one) and return timestamp."""
     now = time.perf_counter()
     then = math.ceil(now / INTERVAL) * INTERVAL
+    if then <= previous:
+        then = (round(previous / INTERVAL) + 1) * INTERVAL
+
     time.sleep(max(0, then - now))
     return then
 
@@ -84,7 +88,8 @@ def run_klang(*blocks, **kwargs):
 
     logger.warning('Did not find any audio activity')
     logger.info('Starting non-audio main loop')
+    now = -INF
     while True:
-        now = sleep_until_next_cycle()
+        now = sleep_until_next_cycle(now)
         ClockMixin.set_current_time(now)
         execute_all_blocks()
-- 
2.43.0


From 135dae3ba43cabb07568a4e176d7deaf8d8b016b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:08 +0000
Subject: [PATCH 34/56] fix: delay overwrites echo before it is heard

---
 klang/audio/effects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/audio/effects.py b/klang/audio/effects.py
index 7023a79..ae7d445 100644
--- a/klang/audio/effects.py
+++ b/klang/audio/effects.py
@@ -169,7 +169,7 @@ class Delay(Block):
             nChannels, _ = new.shape
             new = new.sum(axis=0) / nChannels
 
-        old = self.ring.peek()
+        old = self.ring.peek().copy()
         self.ring.extend(new + self.feedback * old)
         self.output.set_value(blend(new, old, self.drywet))
 
-- 
2.43.0


From c201ce1f2ed9a8cb4644bd47b0f65a7a1bba4a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:08 +0000
Subject: [PATCH 35/56] fix: note values as delay times are not validated

---
 klang/audio/effects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/audio/effects.py b/klang/audio/effects.py
index ae7d445..1c802c0 100644
--- a/klang/audio/effects.py
+++ b/klang/audio/effects.py
@@ -146,12 +146,12 @@ class Delay(Block):
             feedback (float): Amount of feedback.
             drywet (float): Mixture between dry and effected signal.
         """
+        time = compute_duration(time)
         self.validate_delay_time(time)
         super().__init__(nInputs=1, nOutputs=1)
         self.feedback = feedback
         self.drywet = drywet
 
-        time = compute_duration(time)
         length = int(time * SAMPLING_RATE)
         capacity = int(self.MAX_TIME * SAMPLING_RATE)
 
-- 
2.43.0


From b074a625dece18504291cfc7f6074ed4fbfa4dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:08 +0000
Subject: [PATCH 36/56] fix: delays shorter than a buffer

---
 klang/audio/effects.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/klang/audio/effects.py b/klang/audio/effects.py
index 1c802c0..416cefe 100644
--- a/klang/audio/effects.py
+++ b/klang/audio/effects.py
@@ -169,8 +169,14 @@ class Delay(Block):
             nChannels, _ = new.shape
             new = new.sum(axis=0) / nChannels
 
-        old = self.ring.peek().copy()
-        self.ring.extend(new + self.feedback * old)
+        # Echos of delays shorter than a buffer arise within the same buffer
+        old = np.empty(BUFFER_SIZE)
+        step = min(self.ring.length, BUFFER_SIZE)
+        for start in range(0, BUFFER_SIZE, step):
+            chunk = slice(start, min(start + step, BUFFER_SIZE))
+            old[chunk] = self.ring.peek(chunk.stop - start)
+            self.ring.extend(new[chunk] + self.feedback * old[chunk])
+
         self.output.set_value(blend(new, old, self.drywet))
 
 
-- 
2.43.0


From de9cf55d84b0fa3859b2086f33b8b49a7c2d7912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:36 +0000
Subject: [PATCH 37/56] fix: crash when filtering something which is not
 numeric

---
 klang/audio/_filters.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/klang/audio/_filters.c b/klang/audio/_filters.c
index 3430019..57900c3 100644
--- a/klang/audio/_filters.c
+++ b/klang/audio/_filters.c
@@ -199,6 +199,10 @@ parse_input_array(PyObject *args)
     }
 
     inArray = PyArray_FROM_OT(inArray, NPY_DOUBLE);
+    if (!inArray) {
+        return NULL;
+    }
+
     if (PyArray_NDIM(inArray) != 1) {
         PyErr_SetString(PyExc_ValueError, "samples have to be ndim 1!");
         return NULL;
-- 
2.43.0


From 70bf26a8ed352c9170ab321b9722ad5b006e82d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:36 +0000
Subject: [PATCH 38/56] fix: filters never release the samples they have
 filtered

---
 klang/audio/_filters.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/klang/audio/_filters.c b/klang/audio/_filters.c
index 57900c3..2ed3685 100644
--- a/klang/audio/_filters.c
+++ b/klang/audio/_filters.c
@@ -205,6 +205,7 @@ parse_input_array(PyObject *args)
 
     if (PyArray_NDIM(inArray) != 1) {
         PyErr_SetString(PyExc_ValueError, "samples have to be ndim 1!");
+        Py_DECREF(inArray);
         return NULL;
     }
 
@@ -244,6 +245,7 @@ ForwardCombFilter_filter(RingBufferFilterObject *self, PyObject *args)
     npy_intp *dims = PyArray_DIMS(inArray);
     PyArrayObject *outArray = init_output_array(nd, dims);
     if (!outArray) {
+        Py_DECREF(inArray);
         return NULL;
     }
 
@@ -254,6 +256,7 @@ ForwardCombFilter_filter(RingBufferFilterObject *self, PyObject *args)
         RingBuffer_append(self->ringBuffer, x[i]);
     }
 
+    Py_DECREF(inArray);
     return PyArray_Return(outArray);
 }
 
@@ -270,6 +273,7 @@ BackwardCombFilter_filter(RingBufferFilterObject *self, PyObject *args)
     npy_intp *dims = PyArray_DIMS(inArray);
     PyArrayObject *outArray = init_output_array(nd, dims);
     if (!outArray) {
+        Py_DECREF(inArray);
         return NULL;
     }
 
@@ -280,6 +284,7 @@ BackwardCombFilter_filter(RingBufferFilterObject *self, PyObject *args)
         RingBuffer_append(self->ringBuffer, y[i]);
     }
 
+    Py_DECREF(inArray);
     return PyArray_Return(outArray);
 }
 
@@ -296,6 +301,7 @@ EchoFilter_filter(RingBufferFilterObject *self, PyObject *args)
     npy_intp *dims = PyArray_DIMS(inArray);
     PyArrayObject *outArray = init_output_array(nd, dims);
     if (!outArray) {
+        Py_DECREF(inArray);
         return NULL;
     }
 
@@ -306,6 +312,7 @@ EchoFilter_filter(RingBufferFilterObject *self, PyObject *args)
         RingBuffer_append(self->ringBuffer, self->alpha * y[i] + x[i]);
     }
 
+    Py_DECREF(inArray);
     return PyArray_Return(outArray);
 }
 
-- 
2.43.0


From 46b2eb06c94d714b3dfe09aac9987de181968ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:36 +0000
Subject: [PATCH 39/56] fix: filtering of non-contiguous samples

---
 klang/audio/_filters.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/klang/audio/_filters.c b/klang/audio/_filters.c
index 2ed3685..c993501 100644
--- a/klang/audio/_filters.c
+++ b/klang/audio/_filters.c
@@ -198,7 +198,8 @@ parse_input_array(PyObject *args)
         return NULL;
     }
 
-    inArray = PyArray_FROM_OT(inArray, NPY_DOUBLE);
+    // Samples are accessed one after the other
+    inArray = PyArray_FROM_OTF(inArray, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
     if (!inArray) {
         return NULL;
     }
-- 
2.43.0


From 7f67eb6e38b1781ea5da8ae8c248ab0720455255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:36 +0000
Subject: [PATCH 40/56] fix: filters of length zero end the process

---
 klang/audio/_filters.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/klang/audio/_filters.c b/klang/audio/_filters.c
index c993501..ed36a9e 100644
--- a/klang/audio/_filters.c
+++ b/klang/audio/_filters.c
@@ -121,6 +121,11 @@ RingBufferFilter_new(PyTypeObject *type, PyObject *args, PyObject *kwargs)
         return NULL;
     }
 
+    if (length < 1) {
+        PyErr_SetString(PyExc_ValueError, "length has to be at least one!");
+        return NULL;
+    }
+
     RingBufferFilterObject *self;
     self = (RingBufferFilterObject *) type->tp_alloc(type, 0);
     if (!self) {
-- 
2.43.0


From 59c20be23782b712179d6f3c21598add560ffdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:54 +0000
Subject: [PATCH 41/56] fix: clock calculates with its frequency connection
 instead of the value

---
 klang/audio/sync.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/klang/audio/sync.py b/klang/audio/sync.py
index ca6c27b..af2d57e 100644
--- a/klang/audio/sync.py
+++ b/klang/audio/sync.py
@@ -3,6 +3,7 @@ from klang.audio.helpers import get_silence, get_time
 from klang.audio.oscillators import Phasor
 from klang.block import Block
 from klang.constants import TAU
+from klang.music.tempo import compute_rate
 
 
 class Clock(Block):
@@ -33,7 +34,8 @@ class Clock(Block):
     def update(self):
         t = get_time(BUFFER_SIZE)
         currentPhase = self.phasor.currentPhase
-        phase = (TAU * self.frequency * t + currentPhase) % TAU
+        frequency = compute_rate(self.frequency.value)
+        phase = (TAU * frequency * t + currentPhase) % TAU
         if self.edge == 'rising':
             active = (phase < self.duty)
         else:
-- 
2.43.0


From 2c48d91e9ee60e9fef00b07b1f217f37a0220bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:25 +0000
Subject: [PATCH 42/56] fix: copy of FM oscillator forgets phase of its
 modulator

---
 klang/audio/oscillators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/klang/audio/oscillators.py b/klang/audio/oscillators.py
index 912ec3c..142b4cf 100644
--- a/klang/audio/oscillators.py
+++ b/klang/audio/oscillators.py
@@ -225,13 +225,15 @@ class FmOscillator(Oscillator):
         self.output.set_value(samples)
 
     def __deepcopy__(self, memo):
-        return type(self)(
+        ret = type(self)(
             frequency=self.frequency.value,
             intensity=self.intensity,
             modFrequency=self.modulator.frequency.value,
             wave_func=self.wave_func,
             startPhase=self.currentPhase,
         )
+        ret.modulator.currentPhase = self.modulator.currentPhase
+        return ret
 
 
 class PwmOscillator(Phasor):
-- 
2.43.0


From 6d86de4ba537dc035f5b41ef28f28d0f48354e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:51 +0000
Subject: [PATCH 43/56] fix: phase jump of chirper after the end of its chirp

---
 klang/audio/oscillators.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/klang/audio/oscillators.py b/klang/audio/oscillators.py
index 142b4cf..c44fb5a 100644
--- a/klang/audio/oscillators.py
+++ b/klang/audio/oscillators.py
@@ -20,12 +20,18 @@ def chirp_phase(t, freqStart, tEnd, freqEnd, method='linear', vertex_zero=True):
     scipy.signal.waveforms._chirp_phase with constant frequency extension for
     t >= tEnd.
     """
-    if (tEnd <= t[0]) or (freqStart == freqEnd):
+    if freqStart == freqEnd:
         # Only constant frequency
         return TAU * freqEnd * t
 
-    phase = _chirp_phase(t, f0=freqStart, t1=tEnd, f1=freqEnd, method=method,
-                         vertex_zero=vertex_zero)
+    kwargs = dict(f0=freqStart, t1=tEnd, f1=freqEnd, method=method,
+                  vertex_zero=vertex_zero)
+    phaseEnd = _chirp_phase(tEnd, **kwargs)
+    if tEnd <= t[0]:
+        # Constant frequency after chirp
+        return TAU * freqEnd * (t - tEnd) + phaseEnd
+
+    phase = _chirp_phase(t, **kwargs)
     if t[-1] < tEnd:
         # Only chirping
         return phase
@@ -33,8 +39,7 @@ def chirp_phase(t, freqStart, tEnd, freqEnd, method='linear', vertex_zero=True):
     # Mixture between chirp and constant frequency
     constFreq = (t >= tEnd)
     mid = constFreq.argmax()
-    phaseOffset = phase[mid] - TAU * freqEnd * t[mid]
-    phase[mid:] = TAU * freqEnd * t[mid:] + phaseOffset
+    phase[mid:] = TAU * freqEnd * (t[mid:] - tEnd) + phaseEnd
     return phase
 
 
-- 
2.43.0


From d54c9593aaa99f94f430b07acc2f980495d9aa77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:13 +0000
Subject: [PATCH 44/56] fix: audio file puts out channels and samples in wrong
 order

---
 klang/audio/sampling.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/klang/audio/sampling.py b/klang/audio/sampling.py
index fd0ee98..74ac325 100644
--- a/klang/audio/sampling.py
+++ b/klang/audio/sampling.py
@@ -315,7 +315,11 @@ class AudioFile(Block):
 
         self.sample = Sample(rate, data, *args, **kwargs)
         self.playing = False
-        shape = (self.sample.nChannels, BUFFER_SIZE)
+        if self.sample.nChannels == MONO:
+            shape = BUFFER_SIZE
+        else:
+            shape = (self.sample.nChannels, BUFFER_SIZE)
+
         self.silence = get_silence(shape)
         self.mute_outputs()
 
@@ -357,8 +361,7 @@ class AudioFile(Block):
         data = self.sample.read(BUFFER_SIZE)
         self.playing = self.sample.playing
         samples = extend_with_silence(data.T)
-        samples = (samples.T).squeeze()
-        self.output.set_value(samples)
+        self.output.set_value(samples.reshape(self.silence.shape))
 
     def __str__(self):
         infos = []
-- 
2.43.0


From b1ed1210ab9540a511f90b50456fed87550cc103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:13 +0000
Subject: [PATCH 45/56] fix: looped samples wrap in wrong order and outside of
 their trim points

---
 klang/audio/sampling.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/klang/audio/sampling.py b/klang/audio/sampling.py
index 74ac325..fdbb309 100644
--- a/klang/audio/sampling.py
+++ b/klang/audio/sampling.py
@@ -268,21 +268,19 @@ class Sample:
         start = self.currentIndex
         stop = start + nFrames
         reachedEnd = (stop >= self.stop)
+        if reachedEnd and self.loop:
+            # Wrap around, more than once if sample is shorter than nFrames
+            period = self.stop - self.start
+            indices = self.start + (np.arange(start, stop) - self.start) % period
+            self.currentIndex = self.start + (stop - self.start) % period
+            return self.data[indices]
+
         if reachedEnd:
-            if self.loop:
-                stop = (stop % self.stop) + self.start
-            else:
-                # Block for future uses
-                stop = self.stop
+            # Block for future uses
+            stop = self.stop
 
         self.currentIndex = stop
-        if start <= stop:
-            return self.data[start:stop]
-
-        return np.concatenate([
-            self.data[self.start:stop],
-            self.data[start:self.stop],
-        ])
+        return self.data[start:stop]
 
     def read(self, nFrames=BUFFER_SIZE):
         """Get next samples."""
-- 
2.43.0


From 321f94babc9bb6ffbf2d10f0fecf57c9b6f8e9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:13 +0000
Subject: [PATCH 46/56] fix: end of audio file is cut off when played slowly

---
 klang/audio/sampling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/klang/audio/sampling.py b/klang/audio/sampling.py
index fdbb309..0f2476e 100644
--- a/klang/audio/sampling.py
+++ b/klang/audio/sampling.py
@@ -357,7 +357,8 @@ class AudioFile(Block):
             return self.mute_outputs()
 
         data = self.sample.read(BUFFER_SIZE)
-        self.playing = self.sample.playing
+        # Resampler reads ahead. There is more to come until it runs dry.
+        self.playing = self.sample.playing or len(data) == BUFFER_SIZE
         samples = extend_with_silence(data.T)
         self.output.set_value(samples.reshape(self.silence.shape))
 
-- 
2.43.0


From 9588ed2143c335ef7316770b9f27647c788010e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:19 +0000
Subject: [PATCH 47/56] fix: kick drum sounds once without being hit

---
 klang/audio/synthesizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/klang/audio/synthesizer.py b/klang/audio/synthesizer.py
index cf0b6c6..f271e9d 100644
--- a/klang/audio/synthesizer.py
+++ b/klang/audio/synthesizer.py
@@ -13,7 +13,7 @@ from klang.audio.waves import sample_wave
 from klang.block import Block
 from klang.config import BUFFER_SIZE
 from klang.connections import MessageInput
-from klang.constants import PI
+from klang.constants import INF, PI
 
 
 __all__ = ['MonophonicSynthesizer', 'PolyphonicSynthesizer', 'HiHat', 'Kick']
@@ -280,7 +280,7 @@ class Kick(Block):
         self.pitchDecay = pitchDecay
 
         self.inputs = [MessageInput(self)]
-        self.currentTime = 0.
+        self.currentTime = INF  # Time since last hit, silent until the first one
         self.currentPhase = 0.
 
     def update(self):
-- 
2.43.0


From a5e28dd96d41e7fd38abe968f4b68592c38da988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:19 +0000
Subject: [PATCH 48/56] fix: pure Python envelope drops the samples at the end
 of its stages and leaves its range

---
 klang/audio/envelope.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/klang/audio/envelope.py b/klang/audio/envelope.py
index 89d8502..d15557f 100644
--- a/klang/audio/envelope.py
+++ b/klang/audio/envelope.py
@@ -134,7 +134,7 @@ def calculate_transfer_function(duration, overshoot=DEFAULT_OVERSHOOT):
     Returns:
         tuple: Transfer function coefficients.
     """
-    coeff = calculate_coefficient(duration, overshoot)
+    coeff = -math.expm1(-calculate_coefficient(duration, overshoot))
     numerator = (coeff, )
     denominator = (1., coeff - 1.)
     return numerator, denominator
@@ -173,28 +173,29 @@ def curve_samples(start, target, duration, overshoot=DEFAULT_OVERSHOOT, prepend=
             sample buffer from another sample generator.
 
     Yields:
-        tuple: Samples array and last filter state (or target value if there was
-        no crossover).
+        tuple: Samples array and last value (or target value if the target got
+        reached).
     """
     rate = SAMPLING_RATE * duration
-    nSamples = int(time_needed(start, target, rate, overshoot))  # rate -> samples
+    nSamples = math.ceil(time_needed(start, target, rate, overshoot) - 1e-6)  # rate -> samples
 
     # Arguments for lfilter
     tf = calculate_transfer_function(rate, overshoot)
     targetArr = full(BUFFER_SIZE, target + sign(target - start) * overshoot)
-    zi = [start]
+    zi = [start - tf[0][0] * targetArr[0]]  # First sample is `start`
+    lower, upper = sorted([start, target])
 
     # Prepend samples to first output
     if prepend is not None:
         missing = BUFFER_SIZE - prepend.size
         available = min(nSamples, missing)
         tail, zi = lfilter(*tf, targetArr[:available], zi=zi)
-        samples = np.concatenate([prepend, tail])
+        samples = np.concatenate([prepend, tail.clip(lower, upper)])
         if generator_finished(samples):
             yield samples, target
             return
 
-        yield samples, zi[0]
+        yield samples, samples[-1]
         nSamples -= available
 
     assert nSamples >= 0
@@ -202,11 +203,12 @@ def curve_samples(start, target, duration, overshoot=DEFAULT_OVERSHOOT, prepend=
     fullCycles, remainder = divmod(nSamples, BUFFER_SIZE)
     for _ in range(fullCycles):
         samples, zi = lfilter(*tf, targetArr, zi=zi)
-        yield samples, zi[0]
+        samples = samples.clip(lower, upper)
+        yield samples, samples[-1]
 
     if remainder > 0:
         samples, zi = lfilter(*tf, targetArr[:remainder], zi=zi)
-        yield samples, zi[0]
+        yield samples.clip(lower, upper), target
     else:
         yield SENTINEL_ARRAY, target
 
@@ -371,10 +373,14 @@ class Envelope:
         else:
             return self.stage
 
-    def go_to_next_stage(self):
-        """Advance to next envelope stage."""
+    def go_to_next_stage(self, prepend=None):
+        """Advance to next envelope stage.
+
+        Kwargs:
+            prepend (array): Last samples of current stage.
+        """
         nextStage = self.determine_next_stage()
-        self.switch_stage(nextStage)
+        self.switch_stage(nextStage, prepend)
 
     def sample(self, bufferSize=UNUSED):
         """Get next BUFFER_SIZE envelope samples.
@@ -387,7 +393,7 @@ class Envelope:
         """
         samples, self.value = next(self.sampleGenerator)
         while generator_finished(samples):
-            self.go_to_next_stage()
+            self.go_to_next_stage(prepend=samples)
             samples, self.value = next(self.sampleGenerator)
 
         return samples
-- 
2.43.0


From 8270f6a56f9cc0d823077ad13bfcf54d090fd8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:47 +0000
Subject: [PATCH 49/56] fix: falling pitch of kick drum is reset with every
 buffer

---
 klang/audio/synthesizer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/klang/audio/synthesizer.py b/klang/audio/synthesizer.py
index f271e9d..4e2dc03 100644
--- a/klang/audio/synthesizer.py
+++ b/klang/audio/synthesizer.py
@@ -9,7 +9,8 @@ import numpy as np
 
 from klang.audio.envelopes import D
 from klang.audio.helpers import DT, MONO_SILENCE, T
-from klang.audio.waves import sample_wave
+from klang.audio.oscillators import sample_phase
+from klang.audio.waves import sine
 from klang.block import Block
 from klang.config import BUFFER_SIZE
 from klang.connections import MessageInput
@@ -291,5 +292,5 @@ class Kick(Block):
 
         frequency, _ = sample_pitch_decay(self.frequency, self.pitchDecay, self.intensity, self.currentTime)
         env, self.currentTime = sample_exponential_decay(self.decay, self.currentTime)
-        signal, self.currentPhase = sample_wave(frequency, startPhase=self.currentPhase)
-        self.output.set_value(env * signal)
+        phase, self.currentPhase = sample_phase(frequency, self.currentPhase)
+        self.output.set_value(env * sine(phase))
-- 
2.43.0


From 5093144278b757fc10c6bb1965fcad9ce29f20b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:41 +0000
Subject: [PATCH 50/56] fix: clock generator whose frequency is patched runs
 twice or not at all

---
 klang/audio/sync.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/klang/audio/sync.py b/klang/audio/sync.py
index af2d57e..779b499 100644
--- a/klang/audio/sync.py
+++ b/klang/audio/sync.py
@@ -2,6 +2,7 @@ from klang.config import BUFFER_SIZE
 from klang.audio.helpers import get_silence, get_time
 from klang.audio.oscillators import Phasor
 from klang.block import Block
+from klang.connections import Relay
 from klang.constants import TAU
 from klang.music.tempo import compute_rate
 
@@ -24,12 +25,15 @@ class Clock(Block):
         self.duty = dutyCycle * TAU
         self.edge = edge
         self.output.set_value(get_silence(BUFFER_SIZE))
+        self.inputs = [Relay(owner=self)]
+        self.frequency.set_value(frequency)
         self.phasor = Phasor(frequency)
+        self.frequency.connect(self.phasor.frequency)
 
     @property
     def frequency(self):
         """Clock frequency."""
-        return self.phasor.frequency
+        return self.input
 
     def update(self):
         t = get_time(BUFFER_SIZE)
-- 
2.43.0


From 2dc864a6daf9e20ec972de800354361e7f4ec1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 51/56] fix: a UNIX socket address can not be received on again
 after a crash

Closing a UNIX socket, or the end of its process, leaves the socket file
behind. Every later receiver on the same address failed to bind with 'Address
already in use'. Remove the socket file if nobody is bound to it anymore.
---
 klang/network.py | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/klang/network.py b/klang/network.py
index 678410b..e1c604d 100644
--- a/klang/network.py
+++ b/klang/network.py
@@ -2,7 +2,9 @@
 import base64
 import json
 import logging
+import os
 import socket
+import stat
 
 import numpy as np
 
@@ -41,6 +43,32 @@ def create_socket_from_address(address):
     return sock
 
 
+def remove_stale_socket_file(address):
+    """Remove the socket file of a UNIX socket address if nobody is bound to it
+    anymore. Closing a UNIX socket (or terminating its process) leaves the
+    socket file behind, which prevents the address from being bound again.
+
+    Args:
+        address (str): UNIX socket address.
+    """
+    try:
+        if not stat.S_ISSOCK(os.stat(address).st_mode):
+            return
+    except (OSError, ValueError):
+        return
+
+    probe = socket.socket(socket.AF_UNIX, type=socket.SOCK_DGRAM)
+    probe.setblocking(False)
+    try:
+        probe.connect(address)
+    except ConnectionRefusedError:
+        os.unlink(address)
+    except OSError:
+        pass
+    finally:
+        probe.close()
+
+
 def receive_all_from(sock, bufsize=NETWORK_BUFFER_SIZE):
     """Receive all data from a socket and yield raw bytes.
 
@@ -146,6 +174,9 @@ class JsonCourier:
         self.logger = logging.getLogger(type(self).__name__)
         if bind:
             self.logger.info('Binding address %s', self.address)
+            if isinstance(self.address, str):
+                remove_stale_socket_file(self.address)
+
             self.sock.bind(self.address)
 
     def receive_objects(self):
-- 
2.43.0


From 8f6158aecbaac5683db2fa01ede957c2cc7793a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:34 +0000
Subject: [PATCH 52/56] fix: patching while another thread sends or reads

A thread which sends (e.g. the keyboard listener) died if inputs were connected
or disconnected meanwhile, and reading an input raised an AttributeError if it
was disconnected by another thread between the check and the access.
---
 klang/connections.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/klang/connections.py b/klang/connections.py
index b937605..bbeb277 100644
--- a/klang/connections.py
+++ b/klang/connections.py
@@ -284,8 +284,9 @@ class Input(InputBase, _ValueContainer):
     @property
     def value(self):
         """Try to fetch value from connected output."""
-        if self.connected:
-            return self.incomingConnection.value
+        source = self.incomingConnection  # Once, other threads might disconnect
+        if source is not None:
+            return source.value
 
         return self._value
 
@@ -296,8 +297,9 @@ class Input(InputBase, _ValueContainer):
 
     def get_value(self):
         """Try to fetch value from connected output."""
-        if self.connected:
-            return self.incomingConnection.value
+        source = self.incomingConnection  # Once, other threads might disconnect
+        if source is not None:
+            return source.value
 
         return self._value
 
@@ -363,7 +365,8 @@ class MessageOutput(OutputBase):
 
     def send(self, message):
         """Send message to all connected message inputs."""
-        for con in self.outgoingConnections:
+        # Snapshot. Other threads might change the connections meanwhile.
+        for con in tuple(self.outgoingConnections):
             con.push(message)
 
 
-- 
2.43.0


From 9393cd2ac869796ed0bfaae80c43f683b1403b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:34 +0000
Subject: [PATCH 53/56] fix: play, pause, rewind and stop of an audio file from
 another thread

A pause or stop during a cycle was overwritten by the cycle, a rewind by the
position the resampler had read up to.
---
 klang/audio/sampling.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/klang/audio/sampling.py b/klang/audio/sampling.py
index 0f2476e..7bef5ad 100644
--- a/klang/audio/sampling.py
+++ b/klang/audio/sampling.py
@@ -14,6 +14,8 @@ TODO:
   - class Sampler
   - class Looper
 """
+import threading
+
 import numpy as np
 import samplerate
 
@@ -291,7 +293,7 @@ class AudioFile(Block):
 
     """Audio file block.
 
-    Single sample playback from WAV.
+    Single sample playback from WAV. Can be controlled from other threads.
     """
 
     def __init__(self, filepath, mono=False, *args, **kwargs):
@@ -313,6 +315,7 @@ class AudioFile(Block):
 
         self.sample = Sample(rate, data, *args, **kwargs)
         self.playing = False
+        self.lock = threading.RLock()
         if self.sample.nChannels == MONO:
             shape = BUFFER_SIZE
         else:
@@ -333,26 +336,35 @@ class AudioFile(Block):
 
     def play(self):
         """Start playback."""
-        self.playing = True
+        with self.lock:
+            self.playing = True
 
     def pause(self):
         """Pause playback."""
-        self.playing = False
+        with self.lock:
+            self.playing = False
 
     def rewind(self):
         """Rewind to beginning."""
-        self.sample.rewind()
+        with self.lock:
+            self.sample.rewind()
 
     def stop(self):
         """Stop playback."""
-        self.pause()
-        self.rewind()
+        with self.lock:
+            self.pause()
+            self.rewind()
 
     def mute_outputs(self):
         """Set outputs to zero signal."""
         self.output.set_value(self.silence)
 
     def update(self):
+        with self.lock:
+            self.update_playback()
+
+    def update_playback(self):
+        """Play next buffer."""
         if not self.playing:
             return self.mute_outputs()
 
-- 
2.43.0


From e07cb58c4da66e5c00669635a851507700f9860e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:41 +0000
Subject: [PATCH 54/56] fix: a note key held while Shift or Caps Lock changes
 gets stuck

pynput reports the release of the other letter. The note was never ended
and the key ignored from then on.
---
 klang/keyboard.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/klang/keyboard.py b/klang/keyboard.py
index 1cdbb8b..e3079f3 100644
--- a/klang/keyboard.py
+++ b/klang/keyboard.py
@@ -1,5 +1,6 @@
 """Keyboard input."""
 import collections
+import copy
 import string
 
 from pynput.keyboard import Listener
@@ -26,11 +27,27 @@ class Keyboard(Block):
         )
         self.keyState = collections.defaultdict(bool)
 
+    def as_pressed(self, key):
+        """Key as it was when it got pressed. With shift or caps lock in the
+        meantime a held letter key comes back as another key.
+        """
+        char = getattr(key, 'char', None)
+        if char is None or self.keyState[key]:
+            return key
+
+        for heldKey, pressed in self.keyState.items():
+            heldChar = getattr(heldKey, 'char', None)
+            if pressed and heldChar is not None and heldChar.lower() == char.lower():
+                return copy.copy(heldKey)
+
+        return key
+
     def on_press(self, key):
         """On key press event handler with debouncing."""
         if key is None:  # Unknown to pynput
             return
 
+        key = self.as_pressed(key)
         key.pressed = True
         if self.keyState[key]:
             return
@@ -43,6 +60,7 @@ class Keyboard(Block):
         if key is None:  # Unknown to pynput
             return
 
+        key = self.as_pressed(key)
         key.pressed = False
         if not self.keyState[key]:
             return
-- 
2.43.0


From 89d6ff817a4eb35354213b1b05138c09f0dc1c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:56 +0000
Subject: [PATCH 55/56] fix: planning a composite again disturbs a running
 patch

---
 klang/composite.py | 7 +++----
 klang/execution.py | 8 +++++++-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/klang/composite.py b/klang/composite.py
index 6d0afe0..7db3569 100644
--- a/klang/composite.py
+++ b/klang/composite.py
@@ -95,10 +95,9 @@ class Composite(Block):
         if not blocks:
             blocks = introspect(self)
 
-        with temporarily_unpatch(self):
-            vertices, edges = traverse_network(blocks)
-            edges = set(internal_edges(self, edges))
-
+        # Outside connections stay as they are. Audio thread might be running.
+        vertices, edges = traverse_network(blocks, border=self)
+        edges = set(internal_edges(self, edges))
         vertices = [block for block in vertices if block is not self]
         self.execOrder = sort_network(vertices, {
             (src, dst) for src, dst in edges
diff --git a/klang/execution.py b/klang/execution.py
index edb9b7e..eed8f12 100644
--- a/klang/execution.py
+++ b/klang/execution.py
@@ -5,7 +5,7 @@ from klang.block import input_neighbors, output_neighbors
 from klang.graph import graph_matrix, topological_sorting
 
 
-def traverse_network(blocks):
+def traverse_network(blocks, border=None):
     """Traverse block network and collect vertices and edges. Vertices are
     returned as a list, not as a set, for preserving sequence order / better
     edge case handling.
@@ -13,6 +13,9 @@ def traverse_network(blocks):
     Args:
         blocks (iterable): Starting blocks for graph traversal.
 
+    Kwargs:
+        border (Block): Block where to stop. Nothing beyond it gets visited.
+
     Returns:
         tuple: Network vertices and edges.
     """
@@ -23,6 +26,9 @@ def traverse_network(blocks):
         block = queue.popleft()
         if block not in vertices:
             vertices.append(block)
+            if block is border:
+                continue
+
             for successor in output_neighbors(block):
                 edges.add((block, successor))
                 queue.append(successor)
-- 
2.43.0


From fbfc39c1bf0387772efa096c1066f34667d8921b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:56 +0000
Subject: [PATCH 56/56] fix: phase jump while the micro rhythm of a running
 sequence is changed

---
 klang/sequencer.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/klang/sequencer.py b/klang/sequencer.py
index e787b61..5e247c8 100644
--- a/klang/sequencer.py
+++ b/klang/sequencer.py
@@ -223,21 +223,24 @@ class Sequence(Composite):
 
     def disconnect_phase_insert(self):
         """Disconnect phaseOut & phaseIn connections."""
-        for dst in set(self.phaseOut.outgoingConnections):
-            self.phaseOut.disconnect(dst)
-
+        # No phase jump in between. Audio thread might be running.
+        self.phaseIn.set_value(self.phaseIn.value)
         if self.phaseIn.connected:
             src = self.phaseIn.incomingConnection
             src.disconnect(self.phaseIn)
 
+        for dst in set(self.phaseOut.outgoingConnections):
+            self.phaseOut.disconnect(dst)
+
     def apply_micro_rhythm(self, microRhythm: MicroRhyhtm):
         """Patch microRhythm to sequence."""
         if microRhythm.input.connected and not are_connected(self.phaseOut, microRhythm.input):
             raise InputAlreadyConnected('%s is already in use!' % microRhythm)
 
         self.disconnect_phase_insert()
-        self.phaseOut | microRhythm | self.phaseIn
+        self.phaseOut.connect(microRhythm.input)
         microRhythm.update()  # No phase jump in the first cycle
+        microRhythm.output.connect(self.phaseIn)
         self.sequencer.update_internal_exec_order()
 
     def reset_micro_rhythm(self):
-- 
2.43.0

