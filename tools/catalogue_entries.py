prop(
    "C01",
    "Pitch names and pitch numbers translate into each other without loss",
    "For tonal pitch classes, every number has exactly one spelling (letter and accidentals) and reading that spelling "
    "gives the number back; for MIDI, reading a name gives the sounding pitch class. "
    "A tonal spelling outside the supported range is refused with an error, never turned into another pitch, and the "
    "name printed for a pitch of either kind can be read back as either kind of pitch.",
    "all integers, all letters with any number of sharps or flats, upper and lower case, both pitch types",
    "Spellings form an unbounded set (any number of accidentals); no existing test touches the spelling or the reading of a pitch.",
    [
        ("spelling of a number", HU + ": get_pitch_string"),
        ("reading a spelling", HU + ": get_pitch_from_string, get_accidental_adjustment"),
        ("spelling tables", HC + ": STRING_TO_PITCH, TPC_NATURAL_PITCHES, MIDI tables"),
    ],
    observe=["return values of the spelling and reading functions", "labels in written results"],
    note="Proved for all integers and for spellings of any length (loop invariants over texts of unknown length).",
)
prop(
    "C02",
    "Chord vocabulary: indexes, chords and labels correspond one to one",
    "For every configuration (pitch type, relative or absolute, padded, inversions counted, type reduction) the chord "
    "index is a bijection between the vocabulary and 0..size-1: encoding then decoding gives back the (reduced) chord, "
    "each index has its own label naming exactly that root, type and inversion, and the vector length is the vocabulary size. "
    "Roots or inversions outside the configuration are refused, never mapped to another chord's index.",
    "all roots (any integer), chord types, inversions and all configurations of the encoding",
    "Tests call a handful of chords under one or two configurations; the bijection is a statement about every chord under "
    "every combination of five options.",
    [
        ("encoding", HU + ": get_chord_one_hot_index"),
        ("decoding", HU + ": get_chord_from_one_hot_index"),
        ("labels", HU + ": get_chord_label_list"),
        ("vector length", CH + ": get_chord_vector_length"),
        ("a chord's own index", CH + ": Chord.get_one_hot_index"),
    ],
    over=("inputs", "configurations"),
    observe=["indexes fed to and read from the models", "labels in written results"],
    note="Encoding proved for every integer root; decoding and labels by complete enumeration of the finite vocabulary.",
)
prop(
    "C03",
    "Key and key-change vocabularies: indexes and keys correspond one to one",
    "Every key has one index and every index one key and one label: majors before minors, each in tonic order, in absolute "
    "and in relative (interval) form. "
    "A key change is numbered by the interval between the tonics and the new mode and decodes to exactly these; "
    "tonics or intervals outside the range are refused or marked as unrepresentable, never mapped to another key.",
    "all tonics and intervals (any integer), both modes, both pitch types, absolute and relative",
    "The existing tests cover a few tonics and no key-change encodings.",
    [
        ("encoding and decoding", HU + ": get_key_one_hot_index, get_key_from_one_hot_index"),
        ("labels", HU + ": get_key_label_list"),
        ("key objects", KEY + ": Key.get_one_hot_index, Key.get_key_change_one_hot_index, Key.get_key_change_vector"),
        ("lengths", KEY + ": get_key_change_vector_length"),
    ],
    over=("inputs", "configurations"),
    observe=["indexes fed to and read from the models"],
)
prop(
    "C04",
    "Transposition and tonic-relative pitches",
    "Transposing a pitch adds the interval: MIDI wraps around the octave, a tonal pitch leaving the supported range is an "
    "error; transposing back restores the pitch. "
    "A pitch expressed relative to a tonic does not change when both are transposed together, is always a valid index of "
    "the relative window, and is refused exactly outside it.",
    "all pitches, intervals and tonics (any integer), both pitch types, padded or not",
    "Statements about all integers; the tests evaluate a few sums.",
    [
        ("transposition", HU + ": transpose_pitch"),
        ("relative pitches", HU + ": absolute_to_relative"),
        ("interval conversion", HU + ": tpc_interval_to_midi_interval"),
    ],
    observe=["return values", "inputs of every model"],
)
prop(
    "C05",
    "Accidentals, scale degrees and Roman numerals",
    "Leading or trailing accidentals of a numeral are counted exactly (sharps up, flats down) and split from its core, "
    "for any number of them. "
    "The interval of an altered scale degree is its diatonic interval in the mode plus one chromatic step per accidental, "
    "and the numeral printed for an interval reads back as the same interval.",
    "texts with any number of accidentals, all degrees, both modes, both pitch types, all intervals in range",
    "Unbounded numbers of accidentals; tests check single ones.",
    [
        ("accidentals", HU + ": get_accidental_adjustment"),
        ("degree to interval", HU + ": get_interval_from_scale_degree, get_interval_from_numeral"),
        ("interval to degree", HU + ": get_scale_degree_from_interval"),
    ],
    observe=["roots and keys read from annotation files", "numerals written to results"],
    note="Accidental loops proved for texts of any length by loop invariants.",
)
prop(
    "C06",
    "Local and applied keys are resolved innermost first",
    "A chain of applied numerals of any length (V/V/ii) is resolved from the last numeral to the first, each relative to "
    "the key reached so far. "
    "A label's key is its local key read in the global key, and the applied key is read in the local one and equals it "
    "when nothing is applied; a chain that leaves the pitch range yields no key, never a wrong one.",
    "chains of any length, all numerals, all global keys, both pitch types",
    "Chains have unbounded length and each link can change mode and tonic; tests contain single applied chords only.",
    [
        ("chain", HU + ": decode_relative_keys"),
        ("row to key", KEY + ": Key.from_series, Key.from_labels_csv_row"),
    ],
    files=[KEY, HU],
    observe=["keys of a piece loaded from a corpus"],
    note="Chain proved for every length by a loop invariant; the csv-row entry point only up to the stated bound.",
)
prop(
    "C07",
    "Chord content: bass notes, inversions and pitch vectors",
    "A chord's tones are those of its type above its root: the bass of the n-th inversion is the n-th tone, the pitch vector "
    "marks exactly the chord's tones, and each chord has one inversion per tone. "
    "Inversions a chord does not have, unknown figures and unknown type symbols are errors, and the two pitch "
    "representations of a chord type sound the same.",
    "all roots (any integer), types, inversions (any integer), both pitch types, vectors with arbitrary entries",
    "Tests check single chords; the statement ranges over all roots and arbitrary vectors.",
    [
        ("bass note", HU + ": get_bass_note"),
        ("inversions", HU + ": get_chord_inversion, get_chord_inversion_count"),
        ("types", HU + ": get_chord_type_from_string, get_chord_string"),
        ("vectors", HU + ": get_vector_from_chord_type, transpose_chord_vector"),
        ("tables", HC + ": CHORD_PITCHES, STRING_TO_CHORD_TYPE, FIGBASS_INVERSIONS"),
    ],
    observe=["chord vectors fed to the models", "basses and inversions of loaded and predicted chords"],
)
prop(
    "C08",
    "Metrical levels and distances in the score",
    "A position is a downbeat, beat, sub-beat or below exactly when its distance from the barline is a multiple of the "
    "measure, beat or sub-beat of its time signature (compound meters in threes). "
    "The length of a score range is the sum of what it crosses in each measure, over any number of measures and any change "
    "of meter, is negative when read backwards, and onsets, offsets and durations relative to it are those fractions of it.",
    "all time signatures, rational positions, measure tables of any length with any meters, ranges in either direction",
    "Measure chains have arbitrary length and meters; tests use a few positions of one piece.",
    [
        ("levels", RU + ": get_metrical_level_lengths, get_metrical_level"),
        ("range length", RU + ": get_range_length"),
        ("proportions", RU + ": get_rhythm_info_as_proportion_of_range"),
    ],
    over=("inputs", "histories"),
    observe=["note and chord vectors", "range lengths"],
    note="Range length proved for any number of measures (loop invariant over an abstract measure table).",
)
prop(
    "C09",
    "The search beam keeps exactly the best states",
    "A beam never holds more states than its capacity unless forced, and after any history of insertions everything it "
    "turned away or dropped is no better than anything it kept; the best state it reports is a kept state that none beats. "
    "The hashed beam additionally keeps at most one state per recent history, the best one offered, and its count and "
    "listing are exactly its live states.",
    "all capacities, beams of any size, all insertions (forced or not, same or other hash), all log-probabilities",
    "Histories of insertions are unbounded and the interesting cases (invalidated states inside the heap) need a "
    "particular sequence; the beams have no test.",
    [
        ("plain beam", BSU + ": Beam.add, Beam.fits_in_beam, Beam.get_top_state"),
        ("hashed beam", BSU + ": HashedBeam.add, HashedBeam._fix_beam_min, HashedBeam.empty"),
    ],
    over=("inputs", "histories"),
    state=[
        ("heap", "all live states plus invalidated ones, the top always live", BSU + ": Beam.beam"),
        ("table", "one live state per recent history", BSU + ": HashedBeam.state_dict"),
    ],
    observe=["beam contents after each step of the search"],
    note="Each operation proved for a beam of any size in any state satisfying the representation invariant; histories "
    "against a naive model additionally as a bounded check.",
)
prop(
    "C10",
    "A search state says exactly its own history and what its probability is made of",
    "The chords, keys, boundaries, durations and chord objects read from a search state are exactly those of the steps that "
    "built it, for histories of any length. "
    "Each step changes the log-probability by exactly its model terms, once per input covered, and extending a chord removes "
    "exactly the terms of the step it undoes; a step is refused exactly when the chord is outside the vocabulary around the "
    "key, and a copy behaves like its original without sharing anything with it.",
    "histories of any length, all chords, keys, durations and log-probabilities, both pitch types, all model configurations",
    "Sequences of transitions, key changes and rejoins are unbounded and a wrong term only shows after a particular sequence; "
    "the states have no test.",
    [
        ("steps", BSU + ": State.chord_transition, State.key_transition, State.rejoin, State.copy"),
        ("terms", BSU + ": State.add_csm_prior, State.add_ktm_log_prob, State.get_relative_chord_index"),
        ("reading out", BSU + ": State.get_chords, State.get_keys, State.get_chord, State.get_key"),
    ],
    over=("inputs", "histories"),
    state=[
        ("log_prob", "the probability of the whole analysis so far", BSU + ": State.log_prob"),
        ("csm/ksm/ktm log-probs", "what the latest step contributed and a rejoin removes", BSU + ": State"),
        ("prev_state", "the history before the latest step", BSU + ": State.prev_state"),
    ],
    observe=["the analysis returned by the search", "its log-probability"],
    note="Each operation proved on an arbitrary past; read-out proved by induction over the history.",
)
prop(
    "C11",
    "Candidate chord ranges: exactly the admissible ones, each once",
    "From the start of a piece and from every end of a candidate range, the candidates are exactly the ranges that respect "
    "the maximum length, the change thresholds and the forced labels, each once; together they lead to the end of the piece. "
    "A range's log-probability is that of no change at each onset inside it and a change at its end, forced changes are never "
    "skipped, forced non-changes never cut, and no range contains two different forced labels.",
    "pieces of any length, arbitrary change probabilities and durations, any thresholds and forced labels",
    "The set of ranges depends on every probability in the piece; the existing test fixes a few short vectors.",
    [
        ("ranges", JM + ": HarmonicInferenceModel.get_chord_ranges"),
        ("forced changes", JM + ": HarmonicInferenceModel._apply_forced_chord_changes"),
    ],
    over=("inputs", "configurations"),
    observe=["the ranges offered to the chord classifier and to the search"],
    note="get_chord_ranges proved for pieces of any length by loop contracts; forced changes bounded to 14 inputs.",
)
prop(
    "C12",
    "Model input vectors say exactly the chord, note or key change they stand for",
    "Every model input has the announced length and documented layout, and each block says its own fact only: root, type, "
    "bass and inversion relative to the key, metrical levels, durations, mode; pitch, octave, position in the chord, "
    "neighbours and height above the lowest note; key change and its presence. "
    "A chord or key change that does not fit its window is refused, never written into another block.",
    "all chords, keys, notes, key changes, pitch types and windows, states of any history",
    "The vectors combine ten and more facts over all keys and positions; tests compare single vectors.",
    [
        ("chords", CH + ": Chord.to_vec, get_chord_vector_length"),
        ("notes", NOTE + ": Note.to_vec, get_note_vector_length, Note.get_midi_note_number"),
        ("search steps", BSU + ": State.get_csm_input, State.get_ktm_input, State.get_ksm_input"),
    ],
    over=("inputs", "histories", "configurations"),
    observe=["inputs of every model in training and at inference"],
    note="All proved; float16/float32 rounding left out (reals).",
)
prop(
    "C13",
    "Encodings keep their meaning when reduced, transposed or decoded",
    "Reducing chord types or dropping inversions turns an encoded chord (vector or vocabulary index) into the encoding of the "
    "reduced chord and changes nothing else; a reduction that would need an inversion the reduced chord lacks is an error. "
    "Transposing an encoded note moves its pitch only and refuses pitches beyond the range, and decoding a chord, note or "
    "key change vector gives back what was encoded.",
    "all vectors with arbitrary entries, all vocabulary indexes, reductions, intervals and configurations",
    "No test touches the rewriting or decoding of vectors.",
    [
        ("positions", VD + ": infer_chord_vector_pitch_type, get_chord_vector_inversion_index, get_chord_vector_chord_type_index"),
        ("reductions", VD + ": reduce_chord_types, remove_chord_inversions, reduce_chord_one_hots"),
        ("transposition", VD + ": transpose_note_vector"),
        ("decoding", VD + ": decode_chord_vector, decode_note_vector, decode_key_change_vector"),
    ],
    over=("inputs", "configurations"),
    observe=["model inputs and targets", "decoded descriptions"],
    note="Rewriting proved (row counts 1 and 2: the code is elementwise over rows); decoding is a bounded check.",
)
prop(
    "C14",
    "Data set items say what the piece says, however often they are read",
    "Every item of a training data set is the piece's own content: inputs are the vectors of the right chords or notes with "
    "the right key changes, targets the next chord, key or change, excluded positions marked as such, and transposed items "
    "transpose inputs and target together. "
    "Padding adds zeros behind, records the true lengths and is idempotent, and a data set that was padded, or stored in a file "
    "and loaded again, has the same items. "
    "Reading an item any number of times in any order gives the same answer and leaves the stored pieces as they were.",
    "all pieces, item indexes, transpositions, reductions, padded, stored or not, any order and number of reads",
    "Corruption only shows on a second read or for a particular pair of pieces; the data sets have no test.",
    [
        ("items", DSET + ": HarmonicDataset.__getitem__, KeyHarmonicDataset.__getitem__, ChordClassificationDataset.__getitem__"),
        ("construction", DSET + ": ChordTransitionDataset, ChordClassificationDataset, ChordSequenceDataset, KeyTransitionDataset, KeySequenceDataset"),
        ("reductions", DSET + ": ChordSequenceDataset.reduce, KeyHarmonicDataset.reduce, ChordClassificationDataset.reduce"),
        ("padding and storing", DSET + ": pad_array, HarmonicDataset.pad, HarmonicDataset.to_h5, h5_to_dataset"),
    ],
    over=("inputs", "histories", "configurations"),
    observe=["dataset items"],
    level="other",
    tech=TECH_BOUNDED,
    note="Bounded check, not a proof: executable contracts on the real classes, pieces of at most 8 chords (numpy-array code "
    "with data-dependent shapes is outside the VC generator). h5py is not installed: files are named arrays in memory.",
)
prop(
    "C15",
    "A piece hands every model the notes and chords it asked for",
    "The notes sounding in a chord, the chord windows, chord ranges, key segments and durations a piece hands out are exactly "
    "those of its notes and chords in score order: each window begins window positions before the first note sounding in the "
    "chord, ends as far after its last, repeats of a chord or key are merged and nothing else is. "
    "A piece built from tables or stored and loaded again is the same piece.",
    "all numbers of notes and chords, all positions, windows, overlaps, missing or repeated chords",
    "Off-by-one errors at chord borders, held notes and piece ends only show for particular overlaps.",
    [
        ("ranges", PIECE + ": get_range_start, Piece.get_chords_within_range, Piece.get_key_change_input_indices"),
        ("merging repeats", PIECE + ": get_reduction_mask"),
        ("windows", PIECE + ": get_chord_note_input, ScorePiece.get_chord_note_inputs, ScorePiece.get_duration_cache"),
        ("building", PIECE + ": get_score_piece_from_data_frames, get_score_piece_from_dict"),
    ],
    over=("inputs", "configurations"),
    observe=["returned indexes, windows and pieces"],
    note="Proved for pieces of any length, with note vectors, score distances and comparisons of chords by contract (C08, C13); "
    "building from tables is checked on bounded random tables.",
)
prop(
    "C16",
    "Notes and chords read from a score, a table or a label file are the written ones",
    "A note or chord read from a table row, a label line or a score has exactly the pitch, octave, root, type, inversion, bass, "
    "key, onset, end, metrical levels and duration that the source gives for it, also across incomplete measures, after "
    "reductions and with or without inversions and applied keys. "
    "No chord results exactly when the label says so or the pitches cannot be represented. "
    "A whole score gives each of its notes once (ties joined, first endings left out) and each usable label's chord in order.",
    "all rows, labels and notes; measures of any number, length and meter",
    "Wrong ends only show for particular measure structures; the bass only for particular reductions and settings.",
    [
        ("notes", NOTE + ": Note.from_series, Note.from_music21"),
        ("chords", CH + ": Chord.from_series, Chord.from_labels_csv_row"),
        ("scores", PIECE + ": get_measures_df_from_music21_score, get_notes_from_music_xml, get_score_piece_from_music_xml"),
    ],
    over=("inputs", "configurations"),
    observe=["Note, Chord and ScorePiece objects"],
    note="Note and chord constructors proved (the loop to the end's measure for any number of measures; choices that do not meet "
    "in the code are covered by slices); whole scores are checked on bounded random music21 scores.",
)
prop(
    "C17",
    "The returned analysis is permitted, scored by its parts, none better missed",
    "The state the search returns covers the whole piece with permitted chord ranges and branches, keeps or changes key only where "
    "the key change probability and the forced labels allow it, and its log-probability is exactly the sum of its parts: range, chord, "
    "key change, key and chord sequence terms, each given everything before it, also after split ranges were rejoined. "
    "With a beam that holds everything, no permitted analysis is likelier, and nothing is returned only when nothing is permitted.",
    "all pieces, change probabilities, classifications, model answers, thresholds, branching limits and beams",
    "Only particular combinations of rejoins, key changes and ties show a wrong score or a lost analysis.",
    [
        ("search", JM + ": HarmonicInferenceModel.beam_search"),
        ("key changes", JM + ": HarmonicInferenceModel.get_key_change_probs, HarmonicInferenceModel.get_key_change_states"),
        ("chord priors", JM + ": HarmonicInferenceModel.run_csm_batched; " + BSU + ": State"),
    ],
    over=("inputs", "configurations"),
    observe=["returned State: chords, keys, log_prob"],
    note="Proved for pieces of any length, any beams and any number of states (loop contracts on all eight loops of the search and the "
    "eleven of its helpers): every kept state comes from a kept state by one permitted step with exactly its probabilities and obeys "
    "what is forced; with roomy beams every permitted step is taken. States, beams and ranges by their own contracts (C09, C10, C11), "
    "models as functions of what they are given. Additionally bounded: whole searches against the enumeration of all permitted analyses.",
)
prop(
    "C18",
    "Forced chords, keys, changes and non-changes are obeyed or refused",
    "Forced chords, keys, changes and non-changes that contradict each other or the piece are refused with a message, all others accepted. "
    "In any returned analysis every input has its forced chord and key, every forced change happens and no forced non-change does. "
    "The models are asked about exactly this piece's notes and chord windows, and forces read from a file are those written in it.",
    "all pieces, forces, model answers and thresholds strictly between 0 and 1",
    "A force is only lost in particular combinations with rejoined chords, simultaneous notes or other forces.",
    [
        ("validation", JM + ": HarmonicInferenceModel._validate_and_load_forced_labels"),
        ("analysis", JM + ": HarmonicInferenceModel.get_harmony, HarmonicInferenceModel.get_chord_change_probs, "
         "HarmonicInferenceModel.get_chord_classifications, HarmonicInferenceModel.beam_search"),
        ("force files", "test.py: load_forces_from_json"),
    ],
    over=("inputs", "configurations"),
    observe=["returned State", "raised ArgumentError", "arguments given to the models"],
    note="Proved for pieces and forces of any size: refused exactly when contradictory (the contradiction is exhibited) and loaded "
    "otherwise; forces enter the probabilities; every step of the search obeys them; get_harmony passes on exactly this piece's data. "
    "States, beams, ranges, data sets by their own contracts. Precondition: non-changes from input 1 on. Additionally bounded: whole "
    "analyses of random small pieces with stand-in models, force files.",
)
prop(
    "C19",
    "Accuracies are the share of the duration labelled right",
    "The chord, key and joint accuracies of an estimate are exactly the duration of the inputs whose estimated label agrees with the "
    "true one (root, reduced type, inversion if it counts; tonic, mode if it counts), divided by the duration of all, for any number "
    "of inputs and changes and both pitch types. "
    "The results table has one row per input that lasts, with its duration and its true and estimated chord and key, and averaging a "
    "file of results gives the mean of each accuracy in it.",
    "all pieces, durations, estimates, ground truths, reductions and options",
    "A misplaced boundary or a mixed-up pitch type only shows for particular alignments of estimate and truth.",
    [
        ("accuracies", EU + ": evaluate_chords, evaluate_keys, evaluate_chords_and_keys_jointly"),
        ("agreement", EU + ": get_chord_distance, get_key_distance"),
        ("table", EU + ": get_results_df"),
        ("averages", EU + ": average_results"),
    ],
    over=("inputs", "configurations"),
    observe=["returned accuracies and tables"],
    note="Accuracies, agreement and the table proved for any number of inputs, chords and keys. The first ground truth chord and "
    "key begin at the first input and the duration is not zero. Label names and conversions by their contracts (C01-C03). "
    "Averages of result files: bounded.",
)
prop(
    "C20",
    "Written labels stand where they begin, and alterations name their pitches",
    "The annotation table names each estimated key and chord exactly once, at the position of the first lasting input it applies to; "
    "the label table marks where the estimated or true label changes and colours it by how far it is right. "
    "Annotating pieces writes each analysed piece's own table to a file of its name. "
    "Chord alterations are split in order, and each is the pitch of its degree above the root with its accidentals, the pitches it "
    "replaces removed; the ground truth table has these and the chord and key of each lasting input in both pitch types.",
    "all pieces, estimates, ground truths and alterations",
    "Wrong rows only show for labels that begin at inputs of no duration or change together; wrong pitches for combined alterations.",
    [
        ("tables", EU + ": get_annotation_df, get_label_df, get_labels_df"),
        ("files", "annotate.py: annotate"),
        ("alterations", HU + ": split_changes_into_list, get_added_and_removed_pitches"),
    ],
    over=("inputs", "configurations"),
    observe=["returned tables and pitch lists"],
    note="Annotation and label tables proved for any number of inputs, chords and keys (names and distances by their contracts). "
    "Bounded: the ground truth table on random small pieces, and alterations (at most 4; string matching is outside the verifier's reach), written files.",
)
prop(
    "C21",
    "Corpus tables: repeats cut out, and true ends for notes, ties and chords",
    "Without repeats each measure is followed by the latest of its alternatives, the last of a piece by none, and exactly the measures "
    "reached from the piece's first one remain, with exactly the rows that lie in them. "
    "A note ends its duration after it begins and a chord where the next one of its piece begins (the last one: where the piece ends), "
    "counted through the measures in between, also incomplete ones. "
    "Notes tied together become one note with the first one's onset, the last one's end and the duration of all; unfinished ties stay "
    "marked, other notes and grace notes are unchanged, and the given tables are left as they were.",
    "all corpora of tables in score order whose alternatives do not lead in a circle",
    "Ends only go wrong for notes over several measures, pickups, or the last chord; ties only with several parts or missing ends. "
    "The tests of these functions need data that is not there.",
    [
        ("repeats", CU + ": remove_repeats, remove_unmatched"),
        ("ends", CU + ": add_note_offsets, add_chord_metrical_data"),
        ("ties", CU + ": merge_ties"),
    ],
    observe=["returned tables"],
    note="Bounded: random corpora of up to 3 pieces of 7 measures (pandas is outside the verifier's reach). Ties that the tables leave "
    "ambiguous (same pitch, position, staff and voice) are not specified.",
    level="other",
    tech=TECH_BOUNDED,
)
prop(
    "C22",
    "From corpus files to pieces and splits, nothing is lost or mixed up",
    "Every readable piece of a data set is in exactly one split, together with its own number, and each split has its share of the pieces "
    "(cumulatively rounded), for any number of pieces and splits; each data set of a split has exactly the split's pieces. "
    "Aggregating a directory numbers each file found and keeps every row of its tables under that number. "
    "Loading gives, for each piece, its played measures, their notes (ends added, ties merged, misplaced ones dropped) and their chords "
    "that say something and last, and the pieces asked for in the order asked for, each from its own rows, or its own score and label file (none if it has none), and named after it.",
    "all corpora, selections, shares and seeds",
    "Pieces only get mixed up when some lack a table, are not contiguous, or are asked for in another order.",
    [
        ("splits", DSET + ": get_split_file_ids_and_pieces, get_dataset_splits"),
        ("tables", "harmonic_inference/data/corpus_reading.py: read_dump, load_clean_corpus_dfs, aggregate_annotation_dfs"),
        ("pieces", "harmonic_inference/utils/data_utils.py: load_pieces"),
    ],
    over=("inputs", "configurations"),
    observe=["returned splits, tables and pieces", "written tables"],
    note="The splits, and which pieces are loaded, are proved for any number of pieces and splits (reading and shuffling assumed; real "
    "arithmetic); tables, files and the pieces' content on bounded random corpora.",
)
prop(
    "C23",
    "The prior over a key's first chord is a distribution and stays one",
    "Trained on any number of first chords, the prior of a label in a mode is its smoothed share among the chords of that mode, and the "
    "priors of a mode add up to 1. "
    "However the model is reduced (chord types, inversions; asked for by argument or in the file), the prior of a label is the sum of the "
    "stored priors of the labels it stands for, given out by mode, as probability or logarithm; its accuracy and loss are those of the "
    "pieces' first chords. "
    "Settings read from a json file are what was written, named pitch types, piece types and chord types being what they name.",
    "all lists of first chords, smoothing above zero, priors, reductions under which every inversion still exists",
    "The existing tests never build this model; a wrong sum or label is only seen as a worse analysis.",
    [
        ("training", "harmonic_inference/models/initial_chord_models.py: train_icm"),
        ("use", "harmonic_inference/models/initial_chord_models.py: SimpleInitialChordModel.__init__, SimpleInitialChordModel.get_prior, "
         "SimpleInitialChordModel.evaluate"),
        ("settings", "harmonic_inference/utils/data_utils.py: load_kwargs_from_json"),
    ],
    over=("inputs", "configurations"),
    observe=["written json", "returned priors, accuracy and loss"],
    note="Training proved for any number of chords and labels (real arithmetic); reductions, evaluation and settings bounded: every "
    "combination of options with random priors.",
)
prop(
    "C24",
    "Chords, keys and notes keep what they say when converted, compared or stored",
    "A chord, key or note converted to the other pitch type has every one of its pitches sounding the same and everything else unchanged, and "
    "the original is left as it was. "
    "Two are equal exactly when every field agrees, and one repeats another exactly when the fields that count (root, type, inversion and "
    "alterations if they count; the applied or the local tonic and mode) agree. "
    "The dictionary of one has exactly its fields and gives the same one back, and merging a chord with the next extends its end, end level "
    "and duration and nothing else. A note's MIDI number is twelve per octave plus its sounding pitch class.",
    "all chords, keys and notes, both pitch types, all options",
    "Evaluation and merging of repeats convert and compare every chord; the existing tests compare a few.",
    [
        ("chords", "harmonic_inference/data/chord.py: Chord.__init__, Chord.to_pitch_type, Chord.__eq__, Chord.is_repeated, Chord.merge_with, Chord.to_dict"),
        ("keys", "harmonic_inference/data/key.py: Key.__init__, Key.to_pitch_type, Key.__eq__, Key.is_repeated, Key.equals, Key.to_dict"),
        ("notes", "harmonic_inference/data/note.py: Note.__init__, Note.to_pitch_type, Note.get_midi_note_number, Note.__eq__, Note.to_dict"),
    ],
    over=("inputs", "configurations"),
    observe=["returned objects, dictionaries and truth values"],
    note="Pitch spelling enters by the contract proved in C01.",
)
prop(
    "C25",
    "Forces written into a score are read as they are written, at their notes",
    "Marks in a score's labels and lyrics are read as what they say, at the position they stand: a chord or key change, none, a forced "
    "chord (its root, its type among all chord types, its inversion or root position) or a forced key (its tonic and mode); other texts "
    "force nothing. "
    "A position is turned into the index of the first note that begins exactly there, each force keeping its label and its place in the "
    "list; a position at which no note begins is refused.",
    "all notes in score order, all forces, all chord types, spellings and inversions",
    "Needs each chord symbol, with and without inversion, and several notes at one position; no existing test reads forces.",
    [
        ("positions", "harmonic_inference/utils/forces.py: convert_score_positions_to_note_indexes"),
        ("marks", "harmonic_inference/utils/forces.py: extract_forces_from_musescore, CHORD_REGEX, KEY_REGEX"),
    ],
    over=("inputs",),
    observe=["returned lists of forces", "raised errors"],
    note="Positions proved for any number of notes and forces (bisect by its contract). Bounded: marks in random scores (stand-in for the "
    "ms3 score reader; regular expressions on text are outside the verifier's reach).",
)
prop(
    "C26",
    "A joint model is built only from fitting parts, with the settings asked for",
    "The joint model accepts its six parts exactly when each takes what the others give (the same inputs, the same pitch type of chords, "
    "the same pitch type of keys), none is missing or of another kind, and no probability could be neither that of a change nor of none. "
    "It then has exactly the settings it was given, directly, from parsed arguments or on the command line, and defaults for the others, "
    "and its labels are all chords, keys and key changes of its pitch types in the order of their indexes.",
    "all combinations of types of the parts, all settings, all command lines",
    "A mismatch that is not refused shows as silently wrong analyses; no existing test builds a joint model.",
    [
        ("assembly", JM + ": HarmonicInferenceModel.__init__, check_input_output_types"),
        ("settings", JM + ": from_args, add_joint_model_args"),
    ],
    over=("inputs", "configurations"),
    observe=["attributes of the model", "raised AssertionError"],
    note="Proved for arbitrary types and settings; labels for every pair of pitch types. Bounded: random command lines (argparse).",
)
