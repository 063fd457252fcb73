From 7140f39717c4b7b2315957fe5c2642c1281a5ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:26 +0000
Subject: [PATCH 01/40] fix: read the MIDI spelling of a black key ('C#/Db') as
 a TPC pitch instead of raising KeyError

---
 harmonic_inference/utils/harmonic_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/utils/harmonic_utils.py b/harmonic_inference/utils/harmonic_utils.py
index 770bd5e..a26a884 100755
--- a/harmonic_inference/utils/harmonic_utils.py
+++ b/harmonic_inference/utils/harmonic_utils.py
@@ -1021,7 +1021,7 @@ def get_pitch_from_string(pitch_string: str, pitch_type: PitchType) -> int:
     pitch : int
         An integer representing the given pitch string as the given type.
     """
-    if pitch_type == PitchType.MIDI and "/" in pitch_string:
+    if "/" in pitch_string:
         pitch_string = pitch_string.split("/")[0]
 
     accidental_adjustment, pitch_string = get_accidental_adjustment(pitch_string, in_front=False)
-- 
2.43.0


From 0b6d9f76364ae414c70601ad76765dcb6d30c527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:40 +0000
Subject: [PATCH 02/40] fix: HashedBeam.empty() resets its hash table to a
 dict, so that an emptied beam can be filled again

---
 harmonic_inference/utils/beam_search_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/utils/beam_search_utils.py b/harmonic_inference/utils/beam_search_utils.py
index d91cc34..6a1d4fd 100644
--- a/harmonic_inference/utils/beam_search_utils.py
+++ b/harmonic_inference/utils/beam_search_utils.py
@@ -1095,7 +1095,7 @@ class HashedBeam(Beam):
         Empty this beam.
         """
         self.beam = []
-        self.state_dict = []
+        self.state_dict = {}
 
     def __iter__(self) -> Iterator[State]:
         return self.state_dict.values().__iter__()
-- 
2.43.0


From 30ceb6bde67736632422d97e3d865de47a37a99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:03 +0000
Subject: [PATCH 03/40] fix: a copied State keeps the model log-probs a later
 rejoin has to remove

---
 harmonic_inference/utils/beam_search_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/harmonic_inference/utils/beam_search_utils.py b/harmonic_inference/utils/beam_search_utils.py
index 6a1d4fd..5c1d9f6 100644
--- a/harmonic_inference/utils/beam_search_utils.py
+++ b/harmonic_inference/utils/beam_search_utils.py
@@ -158,6 +158,9 @@ class State:
             csm_log_prior=self.csm_log_prior,
             key_obj=self.key_obj,
             must_key_transition=self._must_key_transition,
+            most_recent_csm=self.most_recent_csm,
+            most_recent_ksm=self.most_recent_ksm,
+            most_recent_ktm=self.most_recent_ktm,
         )
 
     def chord_transition(
-- 
2.43.0


From ebd79890abcd59c41e177f84773ed445fcba894a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:03 +0000
Subject: [PATCH 04/40] fix: beam search adds the no-key-change log-prob to the
 state that keeps its key, not to the one that changes it

---
 harmonic_inference/models/joint_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index d283949..28dda50 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -1064,7 +1064,7 @@ class HarmonicInferenceModel:
                         to_ksm_states.append(change_state)
 
                 if can_not_change:
-                    change_state.add_ktm_log_prob(no_change_log_prob * range_length)
+                    state.add_ktm_log_prob(no_change_log_prob * range_length)
                     if current_start == 0 or all_states[state.change_index].fits_in_beam(
                         state, check_hash=True
                     ):
-- 
2.43.0


From c1b7b668da1ea2d67934c594d19d099d26d83802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:53 +0000
Subject: [PATCH 05/40] fix: count the first input's duration once when
 limiting the length of a piece's first chord

---
 harmonic_inference/models/joint_model.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index 28dda50..8c518f7 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -714,8 +714,7 @@ class HarmonicInferenceModel:
             start = heapq.heappop(starts)
 
             running_log_prob = 0.0
-            # Special case for start == 0 because it is always invalid, but can have duration > 0
-            running_duration = self.duration_cache[start] if start == 0 else Fraction(0)
+            running_duration = Fraction(0)
             reached_end = True
             forced_chords = set()
             forced_keys = set()
-- 
2.43.0


From 9e4068e656692adc7768817b7136186de3ba2ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:54 +0000
Subject: [PATCH 06/40] fix: no chord range reaching the end of a piece
 contains two different forced labels

---
 harmonic_inference/models/joint_model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index 8c518f7..8e4b349 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -778,6 +778,11 @@ class HarmonicInferenceModel:
                 # No change can occur
                 running_log_prob += no_change_log_prob
 
+            # The loop does not see the last input: check its forced labels here
+            for forced_ids in (self.forced_chord_ids, self.forced_key_ids):
+                if len(set(forced_ids[start:]) - set([-1])) > 1:
+                    reached_end = False
+
             # Detect if a chord reaches the end of the piece and add it here if so
             if reached_end:
                 chord_ranges.append((start, len(change_probs)))
-- 
2.43.0


From c6fbaf816ea4c8c31182fea46b7489e4cae1b8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:48 +0000
Subject: [PATCH 07/40] fix: the MIDI note number of a MIDI note counts twelve
 pitches per octave

---
 harmonic_inference/data/note.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/data/note.py b/harmonic_inference/data/note.py
index d1c8402..36524cc 100644
--- a/harmonic_inference/data/note.py
+++ b/harmonic_inference/data/note.py
@@ -125,7 +125,7 @@ class Note:
             The MIDI note number of this Note's pitch.
         """
         if self.pitch_type == PitchType.MIDI:
-            return NUM_PITCHES[PitchType.TPC] * self.octave + self.pitch_class
+            return NUM_PITCHES[PitchType.MIDI] * self.octave + self.pitch_class
 
         midi_pitch_class = get_pitch_from_string(
             get_pitch_string(self.pitch_class, self.pitch_type), PitchType.MIDI
-- 
2.43.0


From 65cd5784ef1d5f907d0000476ff5d16c02585dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:14 +0000
Subject: [PATCH 08/40] fix: reduce_chord_types keeps the chord types that a
 reduction maps to themselves

---
 harmonic_inference/data/vector_decoding.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/harmonic_inference/data/vector_decoding.py b/harmonic_inference/data/vector_decoding.py
index ca2ad2f..6006036 100644
--- a/harmonic_inference/data/vector_decoding.py
+++ b/harmonic_inference/data/vector_decoding.py
@@ -445,9 +445,6 @@ def reduce_chord_types(
     new_chord_type_vectors = np.zeros_like(chord_type_vectors)
 
     for from_type, to_type in reduction.items():
-        if from_type == to_type:
-            continue
-
         from_index = from_type.value
         to_index = to_type.value
 
-- 
2.43.0


From 474ea610d045e8614e58a701da16a45ce627d691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:25 +0000
Subject: [PATCH 09/40] fix: transposing a note vector refuses pitches beyond
 the range instead of writing into another block

---
 harmonic_inference/data/vector_decoding.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/harmonic_inference/data/vector_decoding.py b/harmonic_inference/data/vector_decoding.py
index 6006036..5566663 100644
--- a/harmonic_inference/data/vector_decoding.py
+++ b/harmonic_inference/data/vector_decoding.py
@@ -20,6 +20,7 @@ from harmonic_inference.utils.harmonic_utils import (
     get_chord_from_one_hot_index,
     get_chord_one_hot_index,
     get_pitch_string,
+    transpose_pitch,
 )
 
 
@@ -557,13 +558,7 @@ def transpose_note_vector(
     new_note_vector = copy(note_vector)
 
     old_pitch = np.arange(NUM_PITCHES[pitch_type])[np.where(note_vector == 1)[0][0]]
-    new_pitch = old_pitch + interval
-
-    if not (0 <= old_pitch < NUM_PITCHES[pitch_type]):
-        raise ValueError(
-            f"Transposed note {decode_note_vector(note_vector)} + {interval} "
-            f"outside of valid range (0 - {NUM_PITCHES[pitch_type]}"
-        )
+    new_pitch = transpose_pitch(old_pitch, interval, pitch_type)
 
     new_note_vector[old_pitch] = 0
     new_note_vector[new_pitch] = 1
-- 
2.43.0


From 9d1027127f4d98364511ffa2eea9fa6b41dd0fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:25 +0000
Subject: [PATCH 10/40] fix: decode note, chord and key change vectors by their
 actual layout (decoding raised on every vector)

---
 harmonic_inference/data/vector_decoding.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/harmonic_inference/data/vector_decoding.py b/harmonic_inference/data/vector_decoding.py
index 5566663..835adb7 100644
--- a/harmonic_inference/data/vector_decoding.py
+++ b/harmonic_inference/data/vector_decoding.py
@@ -64,17 +64,17 @@ def decode_note_vector(note_vector: np.array) -> Note:
     offset_level = np.where(offset_level_vector == 1)[0][0]
 
     current_idx += 4
-    mc, onset, dur, dur_from_prev, dur_to_next = note_vector[current_idx : current_idx + 3]
-    is_min = note_vector[-1] == 1
+    onset, offset, dur, dur_from_prev, dur_to_next = note_vector[current_idx : current_idx + 5]
+    is_min = note_vector[current_idx + 5] == 1
 
     print(f"Pitch: {get_pitch_string(pitch, pitch_type)}, octave {octave}")
     print(f"Onset level: {onset_level}")
     print(f"Offset level: {offset_level}")
-    print(f"Onset position: ({mc}, {onset})")
+    print(f"Position relative to chord: {onset} - {offset}")
     print(f"Duration: {dur} (from prev: {dur_from_prev}, to_next: {dur_to_next}")
-    print(f"Is{' not ' if is_min else ' '}lowest pitch")
+    print(f"Is{' ' if is_min else ' not '}lowest pitch")
 
-    return Note(pitch, octave, onset, onset_level, dur, None, offset_level, pitch_type)
+    return Note(pitch, octave, (None, onset), onset_level, dur, None, offset_level, pitch_type)
 
 
 def decode_key_change_vector(key_change_vector: np.array) -> Key:
@@ -106,7 +106,7 @@ def decode_key_change_vector(key_change_vector: np.array) -> Key:
         relative_tonic += MIN_KEY_CHANGE_INTERVAL_TPC
 
     # Absolute mode of next key
-    key_mode = np.array(KeyMode)[key_change_vector[-2:] == 1]
+    key_mode = np.array(list(KeyMode))[key_change_vector[-2:] == 1][0]
 
     print(f"Relative tonic: {relative_tonic}, Mode: {key_mode}")
 
@@ -156,7 +156,7 @@ def decode_chord_vector(
         relative_root += to_add
 
     chord_type_vector = chord_vector[num_pitches : num_pitches + len(ChordType)]
-    chord_type = np.array(ChordType)[chord_type_vector == 1][0]
+    chord_type = np.array(list(ChordType))[chord_type_vector == 1][0]
 
     bass_vector = chord_vector[num_pitches + len(ChordType) : 2 * num_pitches + len(ChordType)]
     relative_bass = np.where(bass_vector == 1)[0][0]
-- 
2.43.0


From 803b1f73679dd7f90263ad94e05de03001633417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:55 +0000
Subject: [PATCH 11/40] fix: reading a key dataset item no longer overwrites
 the stored piece inputs

---
 harmonic_inference/data/datasets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/harmonic_inference/data/datasets.py b/harmonic_inference/data/datasets.py
index e9d8284..a0d783b 100755
--- a/harmonic_inference/data/datasets.py
+++ b/harmonic_inference/data/datasets.py
@@ -832,7 +832,8 @@ class KeyHarmonicDataset(HarmonicDataset):
                 target = h5_file["targets"][item]
 
         else:
-            piece_input = self.inputs[piece_idx]
+            # Copy, because the key change replacement and any reduction are written into it
+            piece_input = self.inputs[piece_idx].copy()
             input_length = self.input_lengths[item]
             start_index = self.input_lengths[item - 1] if prev_in_piece else 0
             if self.max_input_length is None:
-- 
2.43.0


From 4aa98f3e580495aba159890f4f5a4bf953059f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:36 +0000
Subject: [PATCH 12/40] fix: reduce chord types and inversions of sequence
 model inputs, which carry a key change vector

---
 harmonic_inference/data/vector_decoding.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/harmonic_inference/data/vector_decoding.py b/harmonic_inference/data/vector_decoding.py
index 835adb7..a4565a9 100644
--- a/harmonic_inference/data/vector_decoding.py
+++ b/harmonic_inference/data/vector_decoding.py
@@ -202,7 +202,9 @@ def decode_chord_vector(
     )
 
 
-def infer_chord_vector_pitch_type(vector_length: int, pad: bool) -> PitchType:
+def infer_chord_vector_pitch_type(
+    vector_length: int, pad: bool, allow_key_change: bool = False
+) -> PitchType:
     """
     Infer the pitch type used in a chord vector of the given length with the given padding.
 
@@ -212,6 +214,9 @@ def infer_chord_vector_pitch_type(vector_length: int, pad: bool) -> PitchType:
         The length of a chord vector.
     pad : bool
         Whether padding is used in the chord vector.
+    allow_key_change : bool
+        True if the chord vector may be followed by a key change vector and the binary
+        is_key_change entry, as in the inputs of the sequence models.
 
     Returns
     -------
@@ -227,6 +232,15 @@ def infer_chord_vector_pitch_type(vector_length: int, pad: bool) -> PitchType:
         if vector_length == get_chord_vector_length(pitch_type, one_hot=False, pad=pad):
             return pitch_type
 
+        if allow_key_change and any(
+            vector_length
+            == get_chord_vector_length(pitch_type, one_hot=False, pad=pad)
+            + get_key_change_vector_length(tonic_type, one_hot=False)
+            + 1
+            for tonic_type in PitchType
+        ):
+            return pitch_type
+
     raise ValueError(f"Could not find valid pitch type for vector length {vector_length}.")
 
 
@@ -402,7 +416,7 @@ def remove_chord_inversions(tensor: np.array, pad: bool, pitch_type: PitchType =
         The pitch type used in the tensor. If known, this will speed up computation.
     """
     if pitch_type is None:
-        pitch_type = infer_chord_vector_pitch_type(len(tensor[0]), pad)
+        pitch_type = infer_chord_vector_pitch_type(len(tensor[0]), pad, allow_key_change=True)
 
     inversion_index = get_chord_vector_inversion_index(len(tensor[0]), pad, pitch_type=pitch_type)
 
@@ -438,7 +452,7 @@ def reduce_chord_types(
         return tensor
 
     if pitch_type is None:
-        pitch_type = infer_chord_vector_pitch_type(len(tensor[0]), pad)
+        pitch_type = infer_chord_vector_pitch_type(len(tensor[0]), pad, allow_key_change=True)
 
     chord_type_index = get_chord_vector_chord_type_index(len(tensor[0]), pad, pitch_type=pitch_type)
 
-- 
2.43.0


From 2b2e78bc82267ada6b57caa8df79690f99cfe097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:37 +0000
Subject: [PATCH 13/40] fix: at inference, reduce the inputs of the sequence
 models as they were reduced in training

---
 harmonic_inference/data/datasets.py      |  4 ++++
 harmonic_inference/models/joint_model.py | 10 ++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/harmonic_inference/data/datasets.py b/harmonic_inference/data/datasets.py
index a0d783b..9ba14ce 100755
--- a/harmonic_inference/data/datasets.py
+++ b/harmonic_inference/data/datasets.py
@@ -690,6 +690,10 @@ class ChordSequenceDataset(HarmonicDataset):
         if not self.use_inversions_input:
             remove_chord_inversions(data["inputs"], pad=False)
 
+        # During inference, we have no targets
+        if "targets" not in data:
+            return
+
         data["targets"] = reduce_chord_one_hots(
             data["targets"],
             False,
diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index 8e4b349..a2d8e59 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -1145,7 +1145,9 @@ class HarmonicInferenceModel:
             )
 
         # Generate KTM loader
-        reduce = ds.KeyTransitionDataset([], self.key_transition_model.get_dataset_kwargs()).reduce
+        reduce = ds.KeyTransitionDataset(
+            [], **self.key_transition_model.get_dataset_kwargs()
+        ).reduce
         ktm_dataset = ds.HarmonicDataset()
         ktm_dataset.inputs = ktm_inputs
         ktm_dataset.set_hidden_states(ktm_hidden_states)
@@ -1218,7 +1220,7 @@ class HarmonicInferenceModel:
             )
 
         # Generate KSM loader
-        reduce = ds.KeySequenceDataset([], self.key_sequence_model.get_dataset_kwargs()).reduce
+        reduce = ds.KeySequenceDataset([], **self.key_sequence_model.get_dataset_kwargs()).reduce
         ksm_dataset = ds.HarmonicDataset([])
         ksm_dataset.inputs = ksm_inputs
         ksm_dataset.set_hidden_states(ksm_hidden_states)
@@ -1352,8 +1354,8 @@ class HarmonicInferenceModel:
             )
 
         # Generate CSM loader
-        reduce = ds.ChordTransitionDataset(
-            [], self.key_transition_model.get_dataset_kwargs()
+        reduce = ds.ChordSequenceDataset(
+            [], **self.chord_sequence_model.get_dataset_kwargs()
         ).reduce
         csm_dataset = ds.HarmonicDataset([])
         csm_dataset.inputs = csm_inputs
-- 
2.43.0


From e44928fafdb425cc5dea427940895a0edacb893b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:06 +0000
Subject: [PATCH 14/40] fix: key dataset items have room for the key change
 replacement in the longest piece

---
 harmonic_inference/data/datasets.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/harmonic_inference/data/datasets.py b/harmonic_inference/data/datasets.py
index 9ba14ce..5acb092 100755
--- a/harmonic_inference/data/datasets.py
+++ b/harmonic_inference/data/datasets.py
@@ -830,6 +830,8 @@ class KeyHarmonicDataset(HarmonicDataset):
             assert self.h5_path is not None, "Data must be either in ram or in an h5_file."
             with h5py.File(self.h5_path, "r") as h5_file:
                 piece_input = h5_file["inputs"][piece_idx]
+                if self.max_input_length is None:
+                    self.max_input_length = np.max(h5_file["input_lengths"])
                 input_length = h5_file["input_lengths"][item]
                 start_index = h5_file["input_lengths"][item - 1] if prev_in_piece else 0
                 key_change_replacement = h5_file["key_change_replacements"][item]
@@ -845,10 +847,11 @@ class KeyHarmonicDataset(HarmonicDataset):
             key_change_replacement = self.key_change_replacements[item]
             target = self.targets[item]
 
-            if len(piece_input) < self.max_input_length:
-                padded_input = np.zeros((self.max_input_length + 1, piece_input.shape[1]))
-                padded_input[: len(piece_input)] = piece_input
-                piece_input = padded_input
+        # Leave room for the key change replacement, even in the longest piece
+        if len(piece_input) <= self.max_input_length:
+            padded_input = np.zeros((self.max_input_length + 1, piece_input.shape[1]))
+            padded_input[: len(piece_input)] = piece_input
+            piece_input = padded_input
 
         # Create target list (if KTD)
         if isinstance(self, KeyTransitionDataset):
-- 
2.43.0


From 12040b854552ba65d84a044cce0d080d37df7bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:55 +0000
Subject: [PATCH 15/40] fix: the chords within a range that starts before the
 first chord begin with the first chord, not the last

---
 harmonic_inference/data/piece.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/harmonic_inference/data/piece.py b/harmonic_inference/data/piece.py
index 1ec1f9a..b5ca006 100755
--- a/harmonic_inference/data/piece.py
+++ b/harmonic_inference/data/piece.py
@@ -280,12 +280,13 @@ class Piece:
         start_index = bisect.bisect_left(chord_change_indices, start)
         if start_index == len(chord_change_indices) or chord_change_indices[start_index] != start:
             # Subtract 1 to get end of partial chord if exact match is not found
-            start_index -= 1
+            # (no chord is sounding yet before the first one)
+            start_index = max(start_index - 1, 0)
 
         if stop is None:
             return chords[start_index:]
 
-        end_index = bisect.bisect_left(chord_change_indices, stop, lo=max(start_index, 0))
+        end_index = bisect.bisect_left(chord_change_indices, stop, lo=start_index)
 
         return chords[start_index:end_index]
 
-- 
2.43.0


From d93faeddba711f5e3302bd766596c946eb64b548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:53 +0000
Subject: [PATCH 16/40] fix: a piece with a single readable note or chord can
 be built from data frames

---
 harmonic_inference/data/piece.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/harmonic_inference/data/piece.py b/harmonic_inference/data/piece.py
index b5ca006..feac6d7 100755
--- a/harmonic_inference/data/piece.py
+++ b/harmonic_inference/data/piece.py
@@ -636,8 +636,8 @@ def get_score_piece_from_data_frames(
         ]
     )
     notes, note_ilocs = np.hsplit(notes_list, 2)
-    notes = np.squeeze(notes)
-    note_ilocs = np.squeeze(note_ilocs).astype(int)
+    notes = np.squeeze(notes, axis=1)
+    note_ilocs = np.squeeze(note_ilocs, axis=1).astype(int)
 
     if chords_df is None:
         # Quick check for pieces without ground truth chords
@@ -671,8 +671,8 @@ def get_score_piece_from_data_frames(
         ]
     )
     chords_list, chord_ilocs = np.hsplit(chords_list, 2)
-    chords_list = np.squeeze(chords_list)
-    chord_ilocs = np.squeeze(chord_ilocs).astype(int)
+    chords_list = np.squeeze(chords_list, axis=1)
+    chord_ilocs = np.squeeze(chord_ilocs, axis=1).astype(int)
 
     # Remove accidentally repeated chords
     non_repeated_mask = get_reduction_mask(
-- 
2.43.0


From a309f0ebdb49cb8924f3e6898a819aaa2d2ae922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:55 +0000
Subject: [PATCH 17/40] fix: the end of a note read from a score is right in
 and after incomplete measures

---
 harmonic_inference/data/note.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/harmonic_inference/data/note.py b/harmonic_inference/data/note.py
index 36524cc..686a326 100644
--- a/harmonic_inference/data/note.py
+++ b/harmonic_inference/data/note.py
@@ -473,7 +473,7 @@ class Note:
 
         # Find the offset measure
         offset_measure = onset_measure
-        tmp_duration = note_duration + note_start - onset_measure[MEASURE_OFFSET]
+        tmp_duration = note_duration + note_start
         while tmp_duration >= offset_measure["act_dur"] and not pd.isna(offset_measure["next"]):
             tmp_duration -= offset_measure["act_dur"]
             offset_measure = measures_df.loc[measures_df["mc"] == offset_measure["next"]].iloc[0]
@@ -482,7 +482,6 @@ class Note:
         offset_beat = tmp_duration + offset_measure[MEASURE_OFFSET]
 
         onset_beat += onset_measure[MEASURE_OFFSET]
-        offset_beat += offset_measure[MEASURE_OFFSET]
 
         levels = [None, None]
 
-- 
2.43.0


From 4842a8282855bee41ed7f25be913a65fe74d1c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:44 +0000
Subject: [PATCH 18/40] fix: a chord read from a label line has the bass of its
 stored type and inversion

---
 harmonic_inference/data/chord.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/harmonic_inference/data/chord.py b/harmonic_inference/data/chord.py
index 5164800..6da0a5f 100644
--- a/harmonic_inference/data/chord.py
+++ b/harmonic_inference/data/chord.py
@@ -668,10 +668,12 @@ class Chord:
             root = transpose_pitch(key.relative_tonic, interval, pitch_type=pitch_type)
 
             # How we handle augmented 6th chords
-            inversion = chord_row["inv"]
+            inversion = chord_row["inv"] if use_inversion else 0
             if chord_row["type"] in ["Gr+6", "Fr+6", "It+6"]:
                 inversion = 0
 
+            chord_type = reduction[chord_type]
+
             # Bugfix for triads in 3rd inversion
             inversion = inversion % len(CHORD_PITCHES[PitchType.TPC][chord_type])
 
@@ -712,8 +714,8 @@ class Chord:
                 get_bass_note(chord_type, root, inversion, pitch_type, modulo=True),
                 key.relative_tonic if use_relative else key.local_tonic,
                 key.relative_mode if use_relative else key.local_mode,
-                reduction[chord_type],
-                inversion if use_inversion else 0,
+                chord_type,
+                inversion,
                 (onset_measure["mc"], onset_beat),
                 onset_level,
                 (offset_measure["mc"], offset_beat),
-- 
2.43.0


From 85f45b94269efb81082792c271ab30bff82d0927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:47 +0000
Subject: [PATCH 19/40] fix: a time signature that begins in a skipped first
 ending still applies to the measures after it

---
 harmonic_inference/data/piece.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/harmonic_inference/data/piece.py b/harmonic_inference/data/piece.py
index feac6d7..2167bc1 100755
--- a/harmonic_inference/data/piece.py
+++ b/harmonic_inference/data/piece.py
@@ -796,15 +796,6 @@ def get_measures_df_from_music21_score(m21_score: music21.stream.Score) -> pd.Da
         offset = Fraction(offset) / 4 - skipped_dur
         measure = measures_list[0]
 
-        skip = False
-        for start, end in first_endings:
-            if measure.measureNumber in range(start, end + 1):
-                skip = True
-                break
-        if skip:
-            skipped_dur += Fraction(measure.duration.quarterLength) / 4
-            continue
-
         if measure.timeSignature is not None:
             if measure.timeSignature.ratioString != time_signature:
                 # Time Signature change
@@ -815,6 +806,15 @@ def get_measures_df_from_music21_score(m21_score: music21.stream.Score) -> pd.Da
                 if mc != 0:
                     ts_epoch = offset
 
+        skip = False
+        for start, end in first_endings:
+            if measure.measureNumber in range(start, end + 1):
+                skip = True
+                break
+        if skip:
+            skipped_dur += Fraction(measure.duration.quarterLength) / 4
+            continue
+
         if lengths:
             # Set the length of each bar to the difference between consecutive measure offsets
             lengths[-1] = offset - starts[-1]
-- 
2.43.0


From 6df857d384f4884078ace3ba75c1dde24a71db89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:52 +0000
Subject: [PATCH 20/40] fix: a score with a single measure can be read

---
 harmonic_inference/data/piece.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/harmonic_inference/data/piece.py b/harmonic_inference/data/piece.py
index 2167bc1..01a4f15 100755
--- a/harmonic_inference/data/piece.py
+++ b/harmonic_inference/data/piece.py
@@ -777,7 +777,8 @@ def get_measures_df_from_music21_score(m21_score: music21.stream.Score) -> pd.Da
     mns = []
 
     # The start of the 2nd measure (the first full measure in the case of an anacrusis)
-    ts_epoch = Fraction(list(m21_score.measureOffsetMap().keys())[1] / 4)
+    measure_offsets = list(m21_score.measureOffsetMap().keys())
+    ts_epoch = Fraction(measure_offsets[1] / 4) if len(measure_offsets) > 1 else Fraction(0)
 
     # Default time signature
     time_signature = "4/4"
-- 
2.43.0


From 5fe6ffc5530ab57eae0ae00c457f7069931be9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:35 +0000
Subject: [PATCH 21/40] fix: the beam search skips no range while its beam
 still has room

---
 harmonic_inference/models/joint_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index a2d8e59..6754ab8 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -971,7 +971,7 @@ class HarmonicInferenceModel:
 
                 if (
                     current_start != 0
-                    and len(all_states[range_end]) > 0
+                    and len(all_states[range_end]) >= self.beam_size
                     and all_states[range_end].beam[0].log_prob >= state.log_prob + range_log_prob
                 ):
                     # Quick exit if range will never get into resulting beam
-- 
2.43.0


From 438e0220103454c68b60f972f45b35a4cbbddc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:54 +0000
Subject: [PATCH 22/40] fix: when the branching target mass is never reached,
 branch up to the branching factor instead of once

---
 harmonic_inference/models/joint_model.py | 30 ++++++++++--------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index 6754ab8..ec90aec 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -871,16 +871,13 @@ class HarmonicInferenceModel:
 
         priors = np.exp(chord_classifications)
         priors_argsort = np.argsort(-priors)  # Negative to sort descending
+        reached = (
+            np.cumsum(np.take_along_axis(priors, priors_argsort, -1), axis=-1)
+            >= self.target_chord_branch_prob
+        )
+        # If the target is never reached (e.g., due to rounding), only the max factor applies
         max_indexes = np.clip(
-            np.argmax(
-                np.cumsum(
-                    np.take_along_axis(priors, priors_argsort, -1),
-                    axis=-1,
-                )
-                >= self.target_chord_branch_prob,
-                axis=-1,
-            )
-            + 1,
+            np.where(np.any(reached, axis=-1), np.argmax(reached, axis=-1) + 1, reached.shape[-1]),
             1,
             self.max_chord_branching_factor,
         )
@@ -1252,16 +1249,13 @@ class HarmonicInferenceModel:
 
         key_log_priors = np.array(key_log_priors)
         priors_argsort = np.argsort(-key_log_priors)  # Negative to sort descending
+        reached = (
+            np.cumsum(np.take_along_axis(np.exp(key_log_priors), priors_argsort, -1), axis=-1)
+            >= self.target_key_branch_prob
+        )
+        # If the target is never reached (e.g., due to rounding), only the max factor applies
         max_indexes = np.clip(
-            np.argmax(
-                np.cumsum(
-                    np.take_along_axis(np.exp(key_log_priors), priors_argsort, -1),
-                    axis=-1,
-                )
-                >= self.target_key_branch_prob,
-                axis=-1,
-            )
-            + 1,
+            np.where(np.any(reached, axis=-1), np.argmax(reached, axis=-1) + 1, reached.shape[-1]),
             1,
             self.max_key_branching_factor,
         )
-- 
2.43.0


From 14935560fe631257bbd899dc2e556134cd9ce9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:04 +0000
Subject: [PATCH 23/40] fix: a forced key is no reason to change key on the
 first chord (probability 0, then NaN when rejoined)

---
 harmonic_inference/models/joint_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index ec90aec..9417c5c 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -1051,7 +1051,8 @@ class HarmonicInferenceModel:
                         can_not_change = state.is_valid(check_key=True)
                     else:
                         can_not_change = False
-                        can_change = True  # Drop the min_key_change_prob requirement
+                        # Drop the min_key_change_prob requirement but keep the other
+                        can_change = state.can_key_transition()
 
                 # Make a copy only if necessary
                 change_state = state.copy() if can_change and can_not_change else state
-- 
2.43.0


From 3c7e29a1900446cb02b5ca4b1ed255d808166033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:01 +0000
Subject: [PATCH 24/40] fix: inconsistent forced labels and changes are refused
 with their message instead of a TypeError or KeyError

---
 harmonic_inference/models/joint_model.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index 9417c5c..e87b8d2 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -392,12 +392,14 @@ class HarmonicInferenceModel:
 
             if len(forced_changes) > 0 and max(forced_changes) >= len(self.duration_cache):
                 raise ArgumentError(
+                    None,
                     f"Maximum forced change ({max(forced_changes)}) is beyond the end of the piece"
                     f" (maximum index {len(self.duration_cache) - 1})."
                 )
 
             if len(forced_non_changes) > 0 and max(forced_non_changes) >= len(self.duration_cache):
                 raise ArgumentError(
+                    None,
                     f"Maximum forced non-change ({max(forced_non_changes)}) is beyond the end of "
                     f"the piece (maximum index {len(self.duration_cache) - 1})."
                 )
@@ -405,6 +407,7 @@ class HarmonicInferenceModel:
             # Ensure that no index is both a forced change and a force non-change
             if len(forced_changes & forced_non_changes) > 0:
                 raise ArgumentError(
+                    None,
                     f"{forced_changes & forced_non_changes} are both forced {type_str} "
                     f"changes and forced {type_str} non-changes."
                 )
@@ -413,6 +416,7 @@ class HarmonicInferenceModel:
             for change_index in forced_changes:
                 if self.duration_cache[change_index - 1] == 0:
                     raise ArgumentError(
+                        None,
                         f"{change_index} is an invalid index for a forced change because it is not "
                         "the first note at its metrical postiion."
                     )
@@ -435,6 +439,7 @@ class HarmonicInferenceModel:
             for (start, end), label_id in forced_labels.items():
                 if label_id < 0 or label_id >= max_id:
                     raise ArgumentError(
+                        None,
                         f"Forced {type_str}_id {label_id} is outside of the valid range for "
                         f"{type_str}s (0-{max_id})."
                     )
@@ -442,7 +447,8 @@ class HarmonicInferenceModel:
                 valid_indexes = np.isin(forced_ids[start:end], [-1, label_id])
                 if not np.all(valid_indexes):
                     raise ArgumentError(
-                        f"The following indexes are forced to multiple different {type_str}s: ",
+                        None,
+                        f"The following indexes are forced to multiple different {type_str}s: "
                         f"{np.where(valid_indexes == False)[0] + start}",
                     )
 
@@ -455,6 +461,7 @@ class HarmonicInferenceModel:
                     and forced_ids[change_index] != -1
                 ):
                     raise ArgumentError(
+                        None,
                         f"Forced {type_str} change at index {change_index} but forced {type_str} "
                         f"is {forced_ids[change_index]} both before and after."
                     )
@@ -465,10 +472,11 @@ class HarmonicInferenceModel:
                     and -1 not in forced_ids[change_index - 1 : change_index + 1]
                 ):
                     raise ArgumentError(
+                        None,
                         f"Forced non {type_str} change at index {change_index} but forced "
                         f"{type_str} changes at that index are "
-                        f"({self.forced_chords[change_index - 1]} before and "
-                        f"{self.forced_chords[change_index]} after)."
+                        f"({forced_ids[change_index - 1]} before and "
+                        f"{forced_ids[change_index]} after)."
                     )
 
         # Second, check compatability between chord and key forces
@@ -477,6 +485,7 @@ class HarmonicInferenceModel:
         for change_index in self.forced_key_changes:
             if change_index in self.forced_chord_non_changes:
                 raise ArgumentError(
+                    None,
                     f"Index {change_index} has a forced key change, but a forced non-chord change."
                     " This is illegal: all key changes must be accompanied by a chord change."
                 )
@@ -486,6 +495,7 @@ class HarmonicInferenceModel:
                 and self.forced_chord_ids[change_index] != -1
             ):
                 raise ArgumentError(
+                    None,
                     f"Index {change_index} has a forced key change, but the chord is forced to id "
                     f"{self.forced_chord_ids[change_index]} both before and after."
                 )
@@ -494,9 +504,10 @@ class HarmonicInferenceModel:
         for change_index in self.forced_chord_non_changes:
             if (
                 self.forced_key_ids[change_index - 1] != self.forced_key_ids[change_index]
-                and -1 not in self.forced_chord_ids[change_index]
+                and -1 not in self.forced_key_ids[change_index - 1 : change_index + 1]
             ):
                 raise ArgumentError(
+                    None,
                     f"Index {change_index} has a forced non-chord change, but the key changes from"
                     f" {self.forced_key_ids[change_index - 1]} to "
                     f"{self.forced_key_ids[change_index]} at that index."
-- 
2.43.0


From 82a53667464f4a326f43bad8d2d30a98345f90a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:25 +0000
Subject: [PATCH 25/40] fix: forced key changes and non-changes, and forced
 changes between equal chords, are enforced

---
 harmonic_inference/models/joint_model.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index e87b8d2..ddb078e 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -674,7 +674,8 @@ class HarmonicInferenceModel:
             A List of the chord change probability on each input of the given Piece. This
             will be modified in place.
         """
-        change_probs[list(self.forced_chord_changes)] = 1.0
+        # Every key change is also a chord change
+        change_probs[list(self.forced_chord_changes | self.forced_key_changes)] = 1.0
         change_probs[list(self.forced_chord_non_changes)] = 0.0
 
     def get_chord_ranges(
@@ -998,6 +999,10 @@ class HarmonicInferenceModel:
                 # Branch
                 for chord_id in chord_priors_argsort[:max_index]:
                     if chord_id == state.chord:
+                        if current_start in self.forced_chord_changes | self.forced_key_changes:
+                            # The chord must change here
+                            continue
+
                         # Same chord as last range: rejoin a split range
                         new_state = state.rejoin(
                             range_end,
@@ -1065,6 +1070,15 @@ class HarmonicInferenceModel:
                         # Drop the min_key_change_prob requirement but keep the other
                         can_change = state.can_key_transition()
 
+                if state.prev_state.change_index in self.forced_key_changes:
+                    can_not_change = False
+                    can_change = state.can_key_transition()
+                elif state.prev_state.change_index in self.forced_key_non_changes:
+                    can_change = False
+                    can_not_change = state.is_valid(check_key=True) and (
+                        len(forced_key_ids) == 0 or state.key in forced_key_ids
+                    )
+
                 # Make a copy only if necessary
                 change_state = state.copy() if can_change and can_not_change else state
 
-- 
2.43.0


From 23551cb8f471db94be204bc45d596a8ad77feebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:04 +0000
Subject: [PATCH 26/40] fix: the beam search finds nothing, rather than
 raising, when no chord range is possible

---
 harmonic_inference/models/joint_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index ddb078e..29060cf 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -878,6 +878,10 @@ class HarmonicInferenceModel:
         state : State
             The top state after the beam search.
         """
+        if len(chord_ranges) == 0:
+            # No chord fits (e.g., due to forced non-changes and the maximum chord length)
+            return None
+
         # Dict mapping start of chord range to list of data tuples
         chord_ranges_dict = defaultdict(list)
 
-- 
2.43.0


From 85f9d7cb456aa62ef51dad5efd1363937e405995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:50 +0000
Subject: [PATCH 27/40] fix: no rejoined chord, and no range with simultaneous
 notes, contains two different forced labels

---
 harmonic_inference/models/joint_model.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index 29060cf..9a66a0b 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -750,9 +750,6 @@ class HarmonicInferenceModel:
                 ),
                 start=start + 1,
             ):
-                if invalid[index]:
-                    continue
-
                 # Ensure range doesn't contain multiple different forced chords
                 if forced_chord != -1:
                     forced_chords.add(forced_chord)
@@ -767,6 +764,9 @@ class HarmonicInferenceModel:
                         reached_end = False
                         break
 
+                if invalid[index]:
+                    continue
+
                 # Ensure duration is still <= max_chord_length
                 running_duration += duration
                 if running_duration > self.max_chord_length:
@@ -1063,6 +1063,10 @@ class HarmonicInferenceModel:
                 forced_key_ids = set(
                     self.forced_key_ids[state.prev_state.change_index : state.change_index]
                 ) - set([-1])
+                if len(forced_key_ids) > 1:
+                    # Different keys are forced within this (rejoined) chord
+                    continue
+
                 if len(forced_key_ids) > 0:
                     forced_key_id = list(forced_key_ids)[0]
                     if state.key == forced_key_id:
-- 
2.43.0


From 5d270d7d3c21e3f0a1de71514c36da57c3c2f0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:52 +0000
Subject: [PATCH 28/40] fix: evaluate against ground truth labels in the pitch
 type of the estimates

---
 harmonic_inference/utils/eval_utils.py | 56 +++++++++++++++++---------
 1 file changed, 36 insertions(+), 20 deletions(-)

diff --git a/harmonic_inference/utils/eval_utils.py b/harmonic_inference/utils/eval_utils.py
index 30ba8dd..9735b76 100755
--- a/harmonic_inference/utils/eval_utils.py
+++ b/harmonic_inference/utils/eval_utils.py
@@ -328,11 +328,13 @@ def evaluate_chords(
     gt_changes = piece.get_chord_change_indices()
     gt_labels = np.zeros(len(piece.get_inputs()), dtype=int)
     for chord, start, end in zip(gt_chords, gt_changes, gt_changes[1:]):
-        gt_labels[start:end] = chord.get_one_hot_index(
+        gt_labels[start:end] = chord.to_pitch_type(pitch_type).get_one_hot_index(
             relative=False, use_inversion=True, pad=False
         )
-    gt_labels[gt_changes[-1] :] = gt_chords[-1].get_one_hot_index(
-        relative=False, use_inversion=True, pad=False
+    gt_labels[gt_changes[-1] :] = (
+        gt_chords[-1]
+        .to_pitch_type(pitch_type)
+        .get_one_hot_index(relative=False, use_inversion=True, pad=False)
     )
 
     chords, changes = state.get_chords()
@@ -452,8 +454,10 @@ def evaluate_keys(
     gt_changes = piece.get_key_change_input_indices()
     gt_labels = np.zeros(len(piece.get_inputs()), dtype=int)
     for key, start, end in zip(gt_keys, gt_changes, gt_changes[1:]):
-        gt_labels[start:end] = key.get_one_hot_index()
-    gt_labels[gt_changes[-1] :] = gt_keys[-1].get_one_hot_index()
+        gt_labels[start:end] = key.to_pitch_type(pitch_type).get_one_hot_index()
+    gt_labels[gt_changes[-1] :] = (
+        gt_keys[-1].to_pitch_type(pitch_type).get_one_hot_index()
+    )
 
     keys, changes = state.get_keys()
     estimated_labels = np.zeros(len(piece.get_inputs()), dtype=int)
@@ -557,11 +561,13 @@ def evaluate_chords_and_keys_jointly(
     gt_changes = piece.get_chord_change_indices()
     gt_chord_labels = np.zeros(len(piece.get_inputs()), dtype=int)
     for chord, start, end in zip(gt_chords, gt_changes, gt_changes[1:]):
-        gt_chord_labels[start:end] = chord.get_one_hot_index(
+        gt_chord_labels[start:end] = chord.to_pitch_type(root_type).get_one_hot_index(
             relative=False, use_inversion=True, pad=False
         )
-    gt_chord_labels[gt_changes[-1] :] = gt_chords[-1].get_one_hot_index(
-        relative=False, use_inversion=True, pad=False
+    gt_chord_labels[gt_changes[-1] :] = (
+        gt_chords[-1]
+        .to_pitch_type(root_type)
+        .get_one_hot_index(relative=False, use_inversion=True, pad=False)
     )
 
     chords, changes = state.get_chords()
@@ -573,8 +579,10 @@ def evaluate_chords_and_keys_jointly(
     gt_changes = piece.get_key_change_input_indices()
     gt_key_labels = np.zeros(len(piece.get_inputs()), dtype=int)
     for key, start, end in zip(gt_keys, gt_changes, gt_changes[1:]):
-        gt_key_labels[start:end] = key.get_one_hot_index()
-    gt_key_labels[gt_changes[-1] :] = gt_keys[-1].get_one_hot_index()
+        gt_key_labels[start:end] = key.to_pitch_type(tonic_type).get_one_hot_index()
+    gt_key_labels[gt_changes[-1] :] = (
+        gt_keys[-1].to_pitch_type(tonic_type).get_one_hot_index()
+    )
 
     keys, changes = state.get_keys()
     estimated_key_labels = np.zeros(len(piece.get_inputs()), dtype=int)
@@ -746,11 +754,13 @@ def get_label_df(
         gt_chords = piece.get_chords()
         gt_changes = piece.get_chord_change_indices()
         for chord, start, end in zip(gt_chords, gt_changes, gt_changes[1:]):
-            gt_chord_labels[start:end] = chord.get_one_hot_index(
+            gt_chord_labels[start:end] = chord.to_pitch_type(root_type).get_one_hot_index(
                 relative=False, use_inversion=True, pad=False
             )
-        gt_chord_labels[gt_changes[-1] :] = gt_chords[-1].get_one_hot_index(
-            relative=False, use_inversion=True, pad=False
+        gt_chord_labels[gt_changes[-1] :] = (
+            gt_chords[-1]
+            .to_pitch_type(root_type)
+            .get_one_hot_index(relative=False, use_inversion=True, pad=False)
         )
 
     chords, changes = state.get_chords()
@@ -764,8 +774,10 @@ def get_label_df(
         gt_changes = piece.get_key_change_input_indices()
         gt_key_labels = np.zeros(len(piece.get_inputs()), dtype=int)
         for key, start, end in zip(gt_keys, gt_changes, gt_changes[1:]):
-            gt_key_labels[start:end] = key.get_one_hot_index()
-        gt_key_labels[gt_changes[-1] :] = gt_keys[-1].get_one_hot_index()
+            gt_key_labels[start:end] = key.to_pitch_type(tonic_type).get_one_hot_index()
+        gt_key_labels[gt_changes[-1] :] = (
+            gt_keys[-1].to_pitch_type(tonic_type).get_one_hot_index()
+        )
 
     keys, changes = state.get_keys()
     estimated_key_labels = np.zeros(len(piece.get_inputs()), dtype=int)
@@ -995,11 +1007,13 @@ def log_state(state: State, piece: Piece, root_type: PitchType, tonic_type: Pitc
     gt_changes = piece.get_chord_change_indices()
     gt_chord_labels = np.zeros(len(piece.get_inputs()), dtype=int)
     for chord, start, end in zip(gt_chords, gt_changes, gt_changes[1:]):
-        gt_chord_labels[start:end] = chord.get_one_hot_index(
+        gt_chord_labels[start:end] = chord.to_pitch_type(root_type).get_one_hot_index(
             relative=False, use_inversion=True, pad=False
         )
-    gt_chord_labels[gt_changes[-1] :] = gt_chords[-1].get_one_hot_index(
-        relative=False, use_inversion=True, pad=False
+    gt_chord_labels[gt_changes[-1] :] = (
+        gt_chords[-1]
+        .to_pitch_type(root_type)
+        .get_one_hot_index(relative=False, use_inversion=True, pad=False)
     )
 
     chords, changes = state.get_chords()
@@ -1011,8 +1025,10 @@ def log_state(state: State, piece: Piece, root_type: PitchType, tonic_type: Pitc
     gt_changes = piece.get_key_change_input_indices()
     gt_key_labels = np.zeros(len(piece.get_inputs()), dtype=int)
     for key, start, end in zip(gt_keys, gt_changes, gt_changes[1:]):
-        gt_key_labels[start:end] = key.get_one_hot_index()
-    gt_key_labels[gt_changes[-1] :] = gt_keys[-1].get_one_hot_index()
+        gt_key_labels[start:end] = key.to_pitch_type(tonic_type).get_one_hot_index()
+    gt_key_labels[gt_changes[-1] :] = (
+        gt_keys[-1].to_pitch_type(tonic_type).get_one_hot_index()
+    )
 
     keys, changes = state.get_keys()
     est_key_labels = np.zeros(len(piece.get_inputs()), dtype=int)
-- 
2.43.0


From b41e4d70c9d131d06828231dde58ba8c5dbdbc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:03 +0000
Subject: [PATCH 29/40] fix: an added tone does not shift the replaced pitches
 of the alterations after it

---
 harmonic_inference/utils/harmonic_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/harmonic_inference/utils/harmonic_utils.py b/harmonic_inference/utils/harmonic_utils.py
index a26a884..fd90cc2 100755
--- a/harmonic_inference/utils/harmonic_utils.py
+++ b/harmonic_inference/utils/harmonic_utils.py
@@ -227,6 +227,7 @@ def get_added_and_removed_pitches(
         if change[0] == "+":
             # Added pitch only - no deletion
             removed_pitches.append("")
+            continue
 
         _, new_change = get_accidental_adjustment(change, in_front=True)
 
-- 
2.43.0


From cee676794ff64f306f782acc3c72f34dbba7f318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:03 +0000
Subject: [PATCH 30/40] fix: several added tones of a chord are all kept, not
 only the last

---
 harmonic_inference/utils/eval_utils.py     |  2 +-
 harmonic_inference/utils/harmonic_utils.py | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/harmonic_inference/utils/eval_utils.py b/harmonic_inference/utils/eval_utils.py
index 9735b76..7568677 100755
--- a/harmonic_inference/utils/eval_utils.py
+++ b/harmonic_inference/utils/eval_utils.py
@@ -184,7 +184,7 @@ def get_labels_df(piece: Piece, tpc_c: int = hc.TPC_C) -> pd.DataFrame:
 
         mappings_midi = []
         mappings_tpc = []
-        for orig, new in change_mapping.items():
+        for orig, new in change_mapping:
             if orig == "":
                 orig_midi = ""
                 orig_tpc = ""
diff --git a/harmonic_inference/utils/harmonic_utils.py b/harmonic_inference/utils/harmonic_utils.py
index fd90cc2..5a52b10 100755
--- a/harmonic_inference/utils/harmonic_utils.py
+++ b/harmonic_inference/utils/harmonic_utils.py
@@ -144,7 +144,7 @@ def get_added_and_removed_pitches(
     changes: str,
     key_tonic_tpc: int,
     key_mode: KeyMode,
-) -> Dict[str, str]:
+) -> List[Tuple[str, str]]:
     """
     Get a mapping of pitch alterations from the given chord. Pitches are given
     and returned with PitchType TPC because accidental-specific math is required
@@ -165,9 +165,9 @@ def get_added_and_removed_pitches(
 
     Returns
     -------
-    changed_pitches : Dict[str, str]
-        A dictionary representing pitch alterations to the given chord. Each entry represents
-        a mapping of original_pitch -> new_pitch, represented as a string of their TPC integer.
+    changed_pitches : List[Tuple[str, str]]
+        A list representing pitch alterations to the given chord. Each entry represents
+        a mapping of (original_pitch, new_pitch), represented as a string of their TPC integer.
         If original_pitch is empty, then the new_pitch is simply added. If new_pitch begins
         with "+", then it is added in an upper octave.
     """
@@ -253,7 +253,7 @@ def get_added_and_removed_pitches(
             # No removed pitch
             removed_pitches.append("")
 
-    return {removed: added for removed, added in zip(removed_pitches, added_pitches)}
+    return list(zip(removed_pitches, added_pitches))
 
 
 def get_chord_from_one_hot_index(
-- 
2.43.0


From 4086083b3838f186e90e1915503092ffeee06f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:48 +0000
Subject: [PATCH 31/40] fix: the pitch-based chord prior looks up a chord's
 tones where its model has them

---
 harmonic_inference/utils/beam_search_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/harmonic_inference/utils/beam_search_utils.py b/harmonic_inference/utils/beam_search_utils.py
index 5c1d9f6..f8db1e9 100644
--- a/harmonic_inference/utils/beam_search_utils.py
+++ b/harmonic_inference/utils/beam_search_utils.py
@@ -476,6 +476,10 @@ class State:
                 reduction=output_reduction,
             )
 
+            if pitch_type == PitchType.TPC:
+                # The prior's index 0 is the pitch MIN_RELATIVE_TPC
+                relative_root -= hc.MIN_RELATIVE_TPC
+
             chord_vector = hu.get_vector_from_chord_type(
                 chord_type,
                 pitch_type,
-- 
2.43.0


From aa7e8f631a3742f9c7f9a165f5748d614926ebd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:37 +0000
Subject: [PATCH 32/40] fix: loading a key data set from a file keeps each
 piece's chords

The inputs of the key data sets are stored per piece but were cut to the lengths
of the first items (one per key).
---
 harmonic_inference/data/datasets.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/harmonic_inference/data/datasets.py b/harmonic_inference/data/datasets.py
index 5acb092..dbabb12 100755
--- a/harmonic_inference/data/datasets.py
+++ b/harmonic_inference/data/datasets.py
@@ -1119,14 +1119,19 @@ def h5_to_dataset(
             for data in ["input", "target"]:
                 if f"{data}_lengths" in h5_file:
                     lengths = np.array(h5_file[f"{data}_lengths"])
+                    item_lengths = lengths
+                    if data == "input" and "piece_lengths" in h5_file:
+                        # Inputs are saved per piece: the last item of each covers all of it
+                        piece_lengths = np.array(h5_file["piece_lengths"], dtype=int)
+                        item_lengths = lengths[np.cumsum(piece_lengths) - 1]
                     data_list = []
 
                     for chunk_start in tqdm(
-                        range(0, len(lengths), chunk_size),
+                        range(0, len(item_lengths), chunk_size),
                         desc=f"Loading {data} chunks from {h5_path}",
                     ):
                         chunk = h5_file[f"{data}s"][chunk_start : chunk_start + chunk_size]
-                        chunk_lengths = lengths[chunk_start : chunk_start + chunk_size]
+                        chunk_lengths = item_lengths[chunk_start : chunk_start + chunk_size]
                         data_list.extend(
                             [
                                 np.array(item[:length], dtype=np.float16)
-- 
2.43.0


From 8d814c7d4c2ad54a1bf131e9f1e020597735a090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:17 +0000
Subject: [PATCH 33/40] fix: items of a data set that does not fit into memory
 can be read from its file

The piece lengths and the pitch type were not loaded in that case.
---
 harmonic_inference/data/datasets.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/harmonic_inference/data/datasets.py b/harmonic_inference/data/datasets.py
index dbabb12..f5d4299 100755
--- a/harmonic_inference/data/datasets.py
+++ b/harmonic_inference/data/datasets.py
@@ -1115,6 +1115,11 @@ def h5_to_dataset(
         dataset.in_ram = False
         chunk_size = dataset.chunk_size
 
+        # These are small, and also needed when reading items from the h5 file
+        for key in ["piece_lengths", "target_pitch_type"]:
+            if key in h5_file:
+                setattr(dataset, key, np.array(h5_file[key]))
+
         try:
             for data in ["input", "target"]:
                 if f"{data}_lengths" in h5_file:
@@ -1145,9 +1150,8 @@ def h5_to_dataset(
                 else:
                     setattr(dataset, f"{data}s", np.array(h5_file[f"{data}s"], dtype=np.float16))
 
-            for key in ["piece_lengths", "key_change_replacements", "target_pitch_type"]:
-                if key in h5_file:
-                    setattr(dataset, key, np.array(h5_file[key]))
+            if "key_change_replacements" in h5_file:
+                dataset.key_change_replacements = np.array(h5_file["key_change_replacements"])
 
             dataset.in_ram = True
 
-- 
2.43.0


From a9288d9d6fa689f435c92d01474d437cdd3876e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:16 +0000
Subject: [PATCH 34/40] fix: a corpus of a single piece keeps its measures, and
 its last chord lasts to the end

---
 harmonic_inference/utils/corpus_utils.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/harmonic_inference/utils/corpus_utils.py b/harmonic_inference/utils/corpus_utils.py
index ca41395..c9f6acc 100755
--- a/harmonic_inference/utils/corpus_utils.py
+++ b/harmonic_inference/utils/corpus_utils.py
@@ -4,7 +4,6 @@ import warnings
 from fractions import Fraction
 from typing import List, Tuple
 
-import numpy as np
 import pandas as pd
 
 from harmonic_inference.data.corpus_constants import (
@@ -71,9 +70,7 @@ def remove_repeats(measures: pd.DataFrame, remove_unreachable: bool = True) -> p
 
     # Find potential last measures of each piece
     last_measures = (next_lengths == 0) | [-1 in n for n in measures["next"]]  # Default case
-    last_measures |= np.roll(
-        measures.index.get_level_values("file_id").to_numpy(), -1
-    ) != measures.index.get_level_values("file_id")
+    last_measures |= ~measures.index.get_level_values("file_id").duplicated(keep="last")
 
     next_lengths[last_measures] = 0
 
@@ -94,9 +91,7 @@ def remove_repeats(measures: pd.DataFrame, remove_unreachable: bool = True) -> p
     # Remove measures which are unreachable
     if remove_unreachable:
         # Start measures will not be in any next list, but they need to be saved as a special case
-        start_measures = np.roll(
-            measures.index.get_level_values("file_id").to_numpy(), 1
-        ) != measures.index.get_level_values("file_id")
+        start_measures = ~measures.index.get_level_values("file_id").duplicated(keep="first")
         start_indices = list(measures.index.to_numpy()[start_measures])
 
         # Save to reset type later. Needs to be nullable for the merge to work
@@ -179,10 +174,7 @@ def add_chord_metrical_data(chords: pd.DataFrame, measures: pd.DataFrame) -> pd.
     chords.loc[:, f"{CHORD_ONSET_BEAT}_next"] = chords[CHORD_ONSET_BEAT].shift(-1)
 
     # For the last chord of each piece, it is more complicated
-    last_chords = chords.loc[
-        chords.index.get_level_values("file_id")
-        != np.roll(chords.index.get_level_values("file_id"), -1)
-    ]
+    last_chords = chords.loc[~chords.index.get_level_values("file_id").duplicated(keep="last")]
     last_measures = measures.loc[measures.next.isnull()]
     last_merged = pd.merge(
         last_chords.reset_index(),
-- 
2.43.0


From 0acdde6f982aeb8a00872b117260c83720ee69b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:16 +0000
Subject: [PATCH 35/40] fix: an initial chord prior can be reduced or used
 without inversions

---
 .../models/initial_chord_models.py            | 26 ++++++++++++-------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/harmonic_inference/models/initial_chord_models.py b/harmonic_inference/models/initial_chord_models.py
index dab7fa7..9acd7c5 100644
--- a/harmonic_inference/models/initial_chord_models.py
+++ b/harmonic_inference/models/initial_chord_models.py
@@ -10,6 +10,7 @@ from harmonic_inference.data.chord import Chord, get_chord_vector_length
 from harmonic_inference.data.data_types import NO_REDUCTION, ChordType, KeyMode
 from harmonic_inference.data.piece import Piece
 from harmonic_inference.utils.harmonic_utils import (
+    absolute_to_relative,
     get_chord_from_one_hot_index,
     get_chord_label_list,
     get_chord_one_hot_index,
@@ -107,12 +108,14 @@ class SimpleInitialChordModel:
 
                 self.reduction = new_reduction
 
-        if reduction is not None or not use_inversions:
-            num_labels = get_chord_label_list(
-                self.PITCH_TYPE,
-                use_inversions,
-                relative=True,
-                reduction=reduction,
+        if self.reduction != reduction_present or self.use_inversions != inversions_present:
+            num_labels = len(
+                get_chord_label_list(
+                    self.PITCH_TYPE,
+                    use_inversions=self.use_inversions,
+                    relative=True,
+                    reduction=self.reduction,
+                )
             )
             self.major_prior = np.zeros(num_labels)
             self.minor_prior = np.zeros(num_labels)
@@ -130,12 +133,12 @@ class SimpleInitialChordModel:
             ):
                 index = get_chord_one_hot_index(
                     chord_type,
-                    root,
+                    absolute_to_relative(root, 0, self.PITCH_TYPE, False),
                     self.PITCH_TYPE,
                     inversion=inversion,
-                    use_inversion=use_inversions,
+                    use_inversion=self.use_inversions,
                     relative=True,
-                    reduction=reduction,
+                    reduction=self.reduction,
                 )
 
                 self.major_prior[index] += major_prior
@@ -187,7 +190,10 @@ class SimpleInitialChordModel:
 
         for piece in pieces:
             first_chord_one_hot = piece.get_chords()[0].get_one_hot_index(
-                relative=True, use_inversion=True, pad=False
+                relative=True,
+                use_inversion=self.use_inversions,
+                pad=False,
+                reduction=self.reduction,
             )
 
             if piece.get_keys()[0].relative_mode == KeyMode.MAJOR:
-- 
2.43.0


From 36fdf079ac3452b5692cdc7c3792624fe223f733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:16 +0000
Subject: [PATCH 36/40] fix: piece types in json settings are read as piece
 types

---
 harmonic_inference/utils/data_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/harmonic_inference/utils/data_utils.py b/harmonic_inference/utils/data_utils.py
index 79a549e..cb5e4c7 100644
--- a/harmonic_inference/utils/data_utils.py
+++ b/harmonic_inference/utils/data_utils.py
@@ -13,7 +13,7 @@ from tqdm import tqdm
 
 import harmonic_inference.models.initial_chord_models as icm
 from harmonic_inference.data.corpus_reading import load_clean_corpus_dfs
-from harmonic_inference.data.data_types import ChordType, PitchType
+from harmonic_inference.data.data_types import ChordType, PieceType, PitchType
 from harmonic_inference.data.piece import (
     Piece,
     get_measures_df_from_music21_score,
@@ -50,8 +50,10 @@ def load_kwargs_from_json(json_path: Union[Path, str, None]) -> Dict[str, Any]:
 
     for key, value in parsed_kwargs.items():
         if isinstance(value, str):
-            if value.startswith("PitchType") or value.startswith("PieceType"):
+            if value.startswith("PitchType"):
                 parsed_kwargs[key] = PitchType[value[10:]]
+            elif value.startswith("PieceType"):
+                parsed_kwargs[key] = PieceType[value[10:]]
 
         elif isinstance(value, dict) and "reduction" in key:
             parsed_kwargs[key] = {
-- 
2.43.0


From daa26d62780cb0cfeda53664237f1de4e094a4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:24 +0000
Subject: [PATCH 37/40] fix: a score without a label file is loaded without
 labels, not with those of the next score

---
 harmonic_inference/utils/data_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harmonic_inference/utils/data_utils.py b/harmonic_inference/utils/data_utils.py
index cb5e4c7..25bddbd 100644
--- a/harmonic_inference/utils/data_utils.py
+++ b/harmonic_inference/utils/data_utils.py
@@ -104,7 +104,7 @@ def load_pieces(
         csvs = []
 
         if Path(input_path).is_file():
-            xmls = [input_path]
+            xmls = [Path(input_path)]
             csvs = [None]
             input_path = Path(input_path).parent
 
@@ -121,7 +121,7 @@ def load_pieces(
 
                 if music_xml_path.exists():
                     xmls.append(music_xml_path)
-                    csvs.append(label_csv_path) if label_csv_path.exists() else None
+                    csvs.append(label_csv_path if label_csv_path.exists() else None)
 
     else:
         files_df, measures_df, chords_df, notes_df = load_clean_corpus_dfs(input_path)
-- 
2.43.0


From c89d982762c24d4d13b81ca13d049c80ee5d5a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:24 +0000
Subject: [PATCH 38/40] fix: pieces are read from their sources when the file
 of prepared pieces does not exist

---
 harmonic_inference/utils/data_utils.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/harmonic_inference/utils/data_utils.py b/harmonic_inference/utils/data_utils.py
index 25bddbd..ea2a8dd 100644
--- a/harmonic_inference/utils/data_utils.py
+++ b/harmonic_inference/utils/data_utils.py
@@ -130,15 +130,12 @@ def load_pieces(
         file_ids = list(files_df.index) if not xml else list(range(len(xmls)))
 
     # Load from pkl if available
+    piece_dicts = [None] * len(file_ids)
     if piece_dicts_path:
         pkl_path = Path(piece_dicts_path)
         if pkl_path.exists():
             with open(pkl_path, "rb") as pkl_file:
                 piece_dicts = pickle.load(pkl_file)
-    elif xml:
-        piece_dicts = [None] * len(xmls)
-    else:
-        piece_dicts = [None] * len(file_ids)
 
     # Return only one specific file
     if specific_id is not None:
-- 
2.43.0


From a82f23705fe34eff9718feb8c31faf788fccfe50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:23 +0000
Subject: [PATCH 39/40] fix: seventh chords and chords without an inversion are
 read from the forces in a score

---
 harmonic_inference/utils/forces.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/harmonic_inference/utils/forces.py b/harmonic_inference/utils/forces.py
index 7e04281..150bbd9 100644
--- a/harmonic_inference/utils/forces.py
+++ b/harmonic_inference/utils/forces.py
@@ -25,7 +25,10 @@ PITCH_REGEX = r"[A-Ga-g](#{0,2}|b{0,2})"
 
 CHORD_REGEX = re.compile(
     f"C=({PITCH_REGEX})"  # Root
-    "(" + "|".join(list(CHORD_TYPE_TO_STRING.values())).replace("+", "\\+") + ")"  # Chord type
+    # Chord type (longest first, so that a seventh chord is not read as its triad)
+    "("
+    + "|".join(sorted(CHORD_TYPE_TO_STRING.values(), key=len, reverse=True)).replace("+", "\\+")
+    + ")"
     r"(_[0-3])?"  # Inversion
 )
 KEY_REGEX = re.compile(f"K={PITCH_REGEX}")
@@ -171,7 +174,7 @@ def extract_forces_from_musescore(
                 STRING_TO_CHORD_TYPE[label_df[2]],
                 get_pitch_from_string(label_df[0], PitchType.TPC),
                 PitchType.TPC,
-                inversion=0 if len(label_df[3]) == 0 else int(label_df[3][-1]),
+                inversion=0 if pd.isnull(label_df[3]) else int(label_df[3][-1]),
             ),
         )
         for mc, mn_onset, (_, label_df) in zip(
-- 
2.43.0


From 77a2a88f7db68633cc35ec2eb47ca22acdc52b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:23 +0000
Subject: [PATCH 40/40] fix: a key transition model that reads other chord
 pitches than the chord sequence model writes is refused

---
 harmonic_inference/models/joint_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harmonic_inference/models/joint_model.py b/harmonic_inference/models/joint_model.py
index 9a66a0b..183754e 100755
--- a/harmonic_inference/models/joint_model.py
+++ b/harmonic_inference/models/joint_model.py
@@ -340,8 +340,8 @@ class HarmonicInferenceModel:
         # Output from CSM
         assert (
             self.chord_sequence_model.OUTPUT_PITCH_TYPE
-            == self.key_sequence_model.INPUT_CHORD_PITCH_TYPE
-        ), "CSM output pitch type does not match KSM input chord pitch type"
+            == self.key_transition_model.INPUT_CHORD_PITCH_TYPE
+        ), "CSM output pitch type does not match KTM input chord pitch type"
         assert (
             self.chord_sequence_model.OUTPUT_PITCH_TYPE
             == self.key_sequence_model.INPUT_CHORD_PITCH_TYPE
-- 
2.43.0

