#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": ["sudachipy/" + f for f in files],
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})

p("C01", "Morphemes tile the original text",
  """For every input text the morphemes returned by tokenize are consecutive, non-overlapping slices of the original
  (un-normalised) text: each one's surface is the original text between its begin and end offsets, the first begins
  at 0, each begins where the previous one ended, and the last ends at the end of the text. Begin and end are
  offsets into the original text, not into the normalised text or its bytes.""",
  ["inputs"], "every input text, with any of the input-text and path-rewrite plugins",
  """Tests tokenize a dozen short sentences; offsets go wrong only for particular mixes of multi-byte characters and
  length-changing normalisations.""",
  ["morpheme.py", "morphemelist.py", "utf8inputtext.py", "utf8inputtextbuilder.py"],
  [("MorphemeList.get_begin/get_end/get_surface", "sudachipy/morphemelist.py"),
   ("UTF8InputText.get_original_index", "sudachipy/utf8inputtext.py"),
   ("UTF8InputTextBuilder.build", "sudachipy/utf8inputtextbuilder.py")],
  observe=["Morpheme.begin/end/surface", "str(MorphemeList)"])

p("C02", "Rewriting the input keeps the position map to the original text",
  """Whatever sequence of replacements is applied to an input text before analysis, every position of the rewritten
  text (in characters and in UTF-8 bytes) maps to a position of the original text, monotonically, from 0 to the length
  of the original: the first character of a replacement maps to the start of what it replaced and the rest to its end.
  A replacement with an invalid range is rejected with an error, and one whose end lies beyond the text is cut to it.""",
  ["inputs", "histories"], "every text and every sequence of replacements",
  """The tests apply a few hand-picked replacements; the map must hold for any sequence and any lengths.""",
  ["utf8inputtextbuilder.py", "utf8inputtext.py"],
  [("UTF8InputTextBuilder.replace", "sudachipy/utf8inputtextbuilder.py"),
   ("UTF8InputTextBuilder.build", "sudachipy/utf8inputtextbuilder.py")],
  state=[("modified_to_original", "original position of each rewritten character", "sudachipy/utf8inputtextbuilder.py")])

p("C03", "Default normalisation rewrites exactly the characters it should",
  """The default input-text plugin replaces, scanning left to right, the longest match in the rewrite table at each
  position; any other character is lower-cased and NFKC-normalised, except that characters on the ignore list are only
  lower-cased. Each replacement is applied at the place where its source characters now stand, whatever earlier
  replacements did to the length, and text already replaced is not rewritten again.""",
  ["inputs"], "every text and every rewrite table",
  """Tests use a handful of strings; the running offset is wrong only after particular length-changing sequences.""",
  ["plugin/input_text/default_input_text_plugin.py"],
  [("DefaultInputTextPlugin.rewrite", "sudachipy/plugin/input_text/default_input_text_plugin.py"),
   ("DefaultInputTextPlugin.read_rewrite_lists", "sudachipy/plugin/input_text/default_input_text_plugin.py")])

p("C04", "Runs of prolonged sound marks collapse to one symbol",
  """The prolonged-sound-mark plugin replaces every maximal run of two or more configured marks, wherever it stands in
  the text (including at its end), by the configured replacement symbol, at its current place, and changes nothing
  else. A single mark is left alone.""",
  ["inputs", "configurations"], "every text, mark set and replacement symbol",
  """Tests cover a few runs with a one-character symbol.""",
  ["plugin/input_text/prolongedsoundmark.py"],
  [("ProlongedSoundMarkInputTextPlugin.rewrite", "sudachipy/plugin/input_text/prolongedsoundmark.py")])

p("C05", "Input-text view is consistent across characters, bytes and categories",
  """For every byte position of the text being analysed, the input text reports consistently the character it belongs
  to, that character's categories, how many bytes the run sharing a category still extends, the byte length of the next
  n characters, and the number of characters between two positions. The categories of a range are those shared by all
  its characters, and nothing when the range leaves the run; a substring outside the text is refused.""",
  ["inputs"], "every text and every pair of byte positions",
  """Tests check one or two mixed strings; byte/character confusions need other widths and positions.""",
  ["utf8inputtext.py", "utf8inputtextbuilder.py"],
  [("UTF8InputText accessors", "sudachipy/utf8inputtext.py"),
   ("UTF8InputTextBuilder.get_char_category_continuities", "sudachipy/utf8inputtextbuilder.py")])

p("C06", "Words begin and end only where a word may begin",
  """No dictionary word is considered at a position inside a character or at a position where a word may not begin, nor
  one that would end at such a position other than the end of the text. A word may not begin inside a run of
  alphabetic, Greek or Cyrillic characters of one category; out-of-vocabulary candidates are not generated where the
  category forbids it, and the default fallback extends to the next place where a word may begin.""",
  ["inputs"], "every text and every dictionary",
  """Needs dictionaries with words that end inside alphabetic runs or multi-byte characters.""",
  ["tokenizer.pyx", "utf8inputtext.py", "utf8inputtextbuilder.py"],
  [("build_lattice_c", "sudachipy/tokenizer.pyx"), ("UTF8InputText.can_bow", "sudachipy/utf8inputtext.py"),
   ("UTF8InputTextBuilder._build_can_bow_list", "sudachipy/utf8inputtextbuilder.py")])

p("C07", "The analysis is a least-cost path",
  """The segmentation chosen is a path of connected nodes from the beginning to the end of the text that minimises the
  sum of word costs and connection costs, where a connection cost is that of the left node's right-id and the right
  node's left-id, for texts of any length. A node reached by no path is never used, and a text whose end cannot be
  reached, or a node whose id lies beyond the connection matrix, is reported as an error.""",
  ["inputs"], "every text, dictionary and connection matrix",
  """Tests use one tiny dictionary with a nearly constant matrix, where most segmentations are forced.""",
  ["lattice.pyx", "latticenode.pyx", "tokenizer.pyx"],
  [("Lattice.connect_node", "sudachipy/lattice.pyx"), ("Lattice.insert", "sudachipy/lattice.pyx"),
   ("Lattice.get_best_path", "sudachipy/lattice.pyx")],
  state=[("end_lists", "nodes by the position where they end", "sudachipy/lattice.pyx"),
         ("total_cost", "cost of the cheapest path up to a node", "sudachipy/latticenode.pxd")])

p("C08", "Inhibited connections are never used",
  """A connection whose cost is the inhibited value 0x7fff never appears in the chosen segmentation, whatever the other
  costs are. The connection-inhibiting plugin gives exactly the configured (left node's right-id, right node's left-id)
  pairs this value and changes no other connection.""",
  ["inputs", "configurations"], "every text, matrix and list of inhibited pairs",
  """No test tokenizes with an inhibited connection on the cheapest path.""",
  ["lattice.pyx", "plugin/connect_cost/inhibitconnectioncost.py", "plugin/connect_cost/editconnectioncost.py",
   "dictionarylib/grammar.py"],
  [("Lattice.connect_node", "sudachipy/lattice.pyx"), ("Grammar.set_connect_cost", "sudachipy/dictionarylib/grammar.py"),
   ("InhibitConnectionPlugin.edit", "sudachipy/plugin/connect_cost/inhibitconnectioncost.py")])

p("C09", "An analysis does not depend on earlier ones",
  """Tokenizing a text gives the same result whatever the same tokenizer analysed before, in whatever order, including
  texts whose analysis failed with an error. No text leaves nodes, sizes or parser state behind for the next.""",
  ["histories"], "every sequence of texts given to one tokenizer",
  """Tests use a fresh tokenizer or tokenize independent short texts once.""",
  ["tokenizer.pyx", "lattice.pyx", "plugin/path_rewrite/join_numeric_plugin.py", "plugin/path_rewrite/numericparser.py"],
  [("Lattice.clear", "sudachipy/lattice.pyx"), ("Lattice.resize", "sudachipy/lattice.pyx"),
   ("Tokenizer.tokenize", "sudachipy/tokenizer.pyx"), ("NumericParser.clear", "sudachipy/plugin/path_rewrite/numericparser.py")],
  state=[("Lattice", "reused from one text to the next", "sudachipy/lattice.pyx")])

p("C10", "The analysis is reproducible across processes",
  """The same text, dictionary and configuration give the same morphemes in every process: no result depends on the
  iteration order of an unordered collection, on hash seeds, addresses, clocks or the environment.""",
  ["inputs", "configurations"], "every text and every process environment",
  """One test run sees one hash seed.""",
  ["tokenizer.pyx", "plugin/oov/mecab_oov_plugin.py", "plugin/path_rewrite/path_rewrite_plugin.py", "lattice.pyx"],
  [("MeCabOovPlugin.provide_oov", "sudachipy/plugin/oov/mecab_oov_plugin.py")])

p("C11", "Every reachable position gets a candidate, or the analysis fails loudly",
  """At each position reachable by some word, all dictionary words and, where allowed, all configured
  out-of-vocabulary providers are consulted in order, each provider being told whether candidates already exist; if
  there is still none, the last configured provider is asked regardless of category, and if that gives none the analysis
  raises an error rather than returning an incomplete result. Empty text gives an empty list.""",
  ["inputs", "configurations"], "every text, dictionary and provider list",
  """Tests always have a provider that answers.""",
  ["tokenizer.pyx", "plugin/oov/simple_oov_plugin.py", "plugin/oov/oov_provider_plugin.py"],
  [("build_lattice_c", "sudachipy/tokenizer.pyx"), ("SimpleOovPlugin.provide_oov", "sudachipy/plugin/oov/simple_oov_plugin.py"),
   ("OovProviderPlugin.get_oov", "sudachipy/plugin/oov/oov_provider_plugin.py")])

p("C12", "MeCab-style unknown words follow the category definitions",
  """For each category of the character at a position the MeCab-style provider offers its unknown-word entries only if
  the category is invoked always or nothing else was found; grouped categories offer the whole run, and every category
  offers prefixes of 1 to its defined length in characters, never longer than the run and none of them twice. Each offered word carries the
  ids, cost and part of speech of its entry and covers exactly the bytes it was offered for.""",
  ["inputs", "configurations"], "every text and every category/unknown-word definition",
  """Tests mock the input with one run length and one entry per category.""",
  ["plugin/oov/mecab_oov_plugin.py", "plugin/oov/oov_provider_plugin.py"],
  [("MeCabOovPlugin.provide_oov", "sudachipy/plugin/oov/mecab_oov_plugin.py"),
   ("MeCabOovPlugin.read_character_property/read_oov", "sudachipy/plugin/oov/mecab_oov_plugin.py")])

p("C13", "Split modes A, B and C agree with the dictionary's split information",
  """Mode C returns the path unchanged; modes A and B replace a morpheme by the words listed as its A or B units when
  there are at least two, laid out contiguously from its begin by their headword lengths, and leave it alone otherwise.
  Splitting a mode-C morpheme gives the same words and positions as tokenizing in that mode, and an explicitly given
  mode overrides the tokenizer's own.""",
  ["inputs"], "every text, dictionary and mode",
  """Tests split one or two words.""",
  ["tokenizer.pyx", "morpheme.py", "morphemelist.py"],
  [("Tokenizer._split_path", "sudachipy/tokenizer.pyx"), ("MorphemeList.split", "sudachipy/morphemelist.py")])

p("C14", "Morphemes report the dictionary's information about their own word",
  """Every accessor of a morpheme (part of speech, dictionary, normalized and reading form, synonym groups, word id,
  dictionary id, out-of-vocabulary flag) reports the value belonging to that morpheme's word, and a morpheme list is
  indexed from 0 or, with negative indices, from its end, raising an error outside. Indexing, iterating and asking the
  length agree with one another.""",
  ["inputs"], "every result and every index",
  """Tests look at a few accessors of the first morphemes of short texts.""",
  ["morpheme.py", "morphemelist.py", "latticenode.pyx"],
  [("Morpheme accessors", "sudachipy/morpheme.py"), ("MorphemeList.__getitem__", "sudachipy/morphemelist.py"),
   ("LatticeNode.get_word_info", "sudachipy/latticenode.pyx")])

p("C15", "Out-of-vocabulary words are marked as such",
  """A morpheme reports itself out of vocabulary exactly when it was produced by an out-of-vocabulary provider or joined
  from such by the katakana plugin as a new word, and its dictionary id is then -1; a word from dictionary n (0 for
  system, then user dictionaries in order) reports dictionary id n. Words joined from several others by a plugin also
  report -1.""",
  ["inputs", "configurations"], "every text and dictionary set",
  """Tests use one user dictionary and one provider.""",
  ["latticenode.pyx", "plugin/oov/oov_provider_plugin.py", "plugin/path_rewrite/path_rewrite_plugin.py",
   "dictionarylib/lexiconset.py", "morphemelist.py"],
  [("LatticeNode.get_dictionary_id/is_oov", "sudachipy/latticenode.pyx"),
   ("OovProviderPlugin.create_node", "sudachipy/plugin/oov/oov_provider_plugin.py")])

p("C16", "Word ids identify their dictionary for all fifteen user dictionaries",
  """A word id combines the dictionary's number in the top four bits with the word's number in that dictionary, is the
  same wherever it is obtained, and every query by word id reaches that dictionary and that word, for every dictionary
  slot and word number. A word number that does not fit is rejected rather than mixed into the dictionary number.""",
  ["inputs", "configurations"], "every word of every loaded dictionary, up to the limit of dictionaries",
  """Tests load at most two dictionaries.""",
  ["dictionarylib/lexiconset.py", "tokenizer.pyx", "latticenode.pxd"],
  [("LexiconSet.build_word_id/get_dictionary_id/get_word_id1", "sudachipy/dictionarylib/lexiconset.py"),
   ("build_lattice_c", "sudachipy/tokenizer.pyx")])

p("C17", "Looking up a position returns every dictionary word starting there",
  """A lexicon lookup at an offset yields, for each dictionary key that is a prefix of the text from that offset, every
  word id stored under the key, with the end position of the key in the text; a set of lexicons yields the words of all
  its dictionaries, user dictionaries first. Finding a word by headword, part of speech and reading returns a word with
  exactly those, or -1.""",
  ["inputs", "configurations"], "every text, offset and dictionary set",
  """Tests check a few keys of a small dictionary.""",
  ["dictionarylib/doublearraylexicon.py", "dictionarylib/wordidtable.py", "dictionarylib/lexiconset.py"],
  [("DoubleArrayLexicon.lookup/get_word_id", "sudachipy/dictionarylib/doublearraylexicon.py"),
   ("WordIdTable.get", "sudachipy/dictionarylib/wordidtable.py"),
   ("LexiconSet.lookup", "sudachipy/dictionarylib/lexiconset.py")])

p("C18", "User dictionaries keep their own parts of speech and split references",
  """A word of the n-th user dictionary reports the part of speech its source defined, whether that is one of the system
  dictionary or one the user dictionary added, however many dictionaries are loaded; and its split units and word
  structure refer to the system dictionary or to its own dictionary as its source said.""",
  ["configurations", "histories"], "every combination and order of user dictionaries",
  """Tests load two user dictionaries with few own parts of speech.""",
  ["dictionarylib/lexiconset.py", "dictionary.py", "dictionarylib/grammar.py", "dictionarylib/userdictionarybuilder.py"],
  [("LexiconSet.get_word_info/convert_split", "sudachipy/dictionarylib/lexiconset.py"),
   ("Dictionary._read_user_dictionary", "sudachipy/dictionary.py"),
   ("UserDictionaryBuilder.get_posid/get_wordid", "sudachipy/dictionarylib/userdictionarybuilder.py")],
  state=[("pos_offsets", "first part-of-speech id of each dictionary", "sudachipy/dictionarylib/lexiconset.py")])

p("C19", "Dictionaries load in order, with automatic costs, or not at all",
  """A dictionary object loads the system dictionary, the character definition, the plugins and then the user
  dictionaries in the configured order, refuses a missing system dictionary, a missing out-of-vocabulary provider and a
  user dictionary beyond the limit, and every user word whose cost is -32768 gets the internal cost of its own surface
  as analysed so far, less 20 per morpheme and clamped to 16 bits, while other costs are untouched.""",
  ["configurations"], "every configuration and user dictionary",
  """Tests load at most two user dictionaries and never reach the limit.""",
  ["dictionary.py", "dictionarylib/doublearraylexicon.py", "dictionarylib/lexiconset.py"],
  [("Dictionary.__init__", "sudachipy/dictionary.py"),
   ("DoubleArrayLexicon.calculate_cost", "sudachipy/dictionarylib/doublearraylexicon.py"),
   ("LexiconSet.is_full/add", "sudachipy/dictionarylib/lexiconset.py")])

p("C20", "The dictionary header survives writing and reading",
  """Reading a header that was written gives back its version, creation time and description, for every description
  that fits in 256 bytes of UTF-8 including one of exactly that length; a longer one is refused; and the header always
  occupies the same number of bytes.""",
  ["inputs"], "every version, time and description",
  """Tests use short ASCII descriptions.""",
  ["dictionarylib/dictionaryheader.py", "dictionarylib/jtypedbytebuffer.py"],
  [("DictionaryHeader.to_bytes/from_bytes", "sudachipy/dictionarylib/dictionaryheader.py")])

p("C21", "Only dictionaries of the right kind and version are accepted",
  """A file is accepted as a system dictionary exactly when its version is one of the system versions, as a user
  dictionary exactly when it is one of the user versions, and rejected with an error otherwise; a grammar section is
  read exactly for versions that have one, and synonym groups exactly for versions that have them. The command-line
  builders write the newest version of the kind they build.""",
  ["inputs"], "every version number",
  """Tests read one system and one user version.""",
  ["dictionarylib/dictionaryversion.py", "dictionarylib/binarydictionary.py", "command_line.py"],
  [("is_*/has_* predicates", "sudachipy/dictionarylib/dictionaryversion.py"),
   ("BinaryDictionary._read_dictionary/from_*", "sudachipy/dictionarylib/binarydictionary.py")])

p("C22", "The grammar section reads back as it was written",
  """The part-of-speech table and the connection matrix read from a built dictionary are those of its sources, for any
  number of parts of speech, any string lengths, and any, also non-square, matrix size: the cost for (left node's
  right-id, right node's left-id) is the one the source gives for that pair, and 0 for pairs it does not mention.""",
  ["inputs"], "every part-of-speech table and matrix definition",
  """Tests use a square matrix of a few cells with every entry present and short ASCII-size strings.""",
  ["dictionarylib/grammar.py", "dictionarylib/dictionarybuilder.py", "dictionarylib/jtypedbytebuffer.py"],
  [("DictionaryBuilder.write_grammar/convert_postable/convert_matrix", "sudachipy/dictionarylib/dictionarybuilder.py"),
   ("Grammar.__init__/get_connect_cost", "sudachipy/dictionarylib/grammar.py")])

p("C23", "The lexicon section reads back as it was written",
  """Every word of the sources can be read back from the built dictionary under its own word id with the same
  parameters, surface, headword length, part of speech, normalized, dictionary and reading forms, splits, word structure
  and synonym groups; the sections start where the reader looks for them, and the word-information region does not
  overlap the offset table. Words whose left-id column is -1 are stored but not findable by lookup.""",
  ["inputs"], "every lexicon source",
  """Tests build lexica of two or three words.""",
  ["dictionarylib/dictionarybuilder.py", "dictionarylib/doublearraylexicon.py", "dictionarylib/wordinfolist.py",
   "dictionarylib/wordparameterlist.py", "dictionarylib/wordidtable.py"],
  [("DictionaryBuilder.write_lexicon/write_wordinfo", "sudachipy/dictionarylib/dictionarybuilder.py"),
   ("DoubleArrayLexicon.__init__", "sudachipy/dictionarylib/doublearraylexicon.py"),
   ("WordInfoList.get_word_info", "sudachipy/dictionarylib/wordinfolist.py")])

p("C24", "Binary encodings are lossless or refused",
  """Integers, string lengths, strings and integer arrays are written with the width, sign and byte order with which
  they are read, over their whole range, including lengths above 127 and characters outside the basic plane; a value
  that does not fit its field raises an error instead of being truncated.""",
  ["inputs"], "every value of every encoded field",
  """Tests encode a few small values.""",
  ["dictionarylib/jtypedbytebuffer.py", "dictionarylib/dictionarybuilder.py", "dictionarylib/wordinfolist.py",
   "dictionarylib/grammar.py"],
  [("JTypedByteBuffer.write_int/write_str", "sudachipy/dictionarylib/jtypedbytebuffer.py"),
   ("DictionaryBuilder.write_string/write_stringlength/write_intarray", "sudachipy/dictionarylib/dictionarybuilder.py"),
   ("WordInfoList.buffer_to_*", "sudachipy/dictionarylib/wordinfolist.py")])

p("C25", "Invalid lexicon rows are rejected when building",
  """A lexicon row with too few columns, an over-long string, an empty headword, an unusable part of speech, a
  contradictory or over-long split list, a split reference to a word that does not exist, or too many synonym groups makes
  the build fail with an error, and a valid row is accepted with each column going to its own field. Escapes of the form
  \\uXXXX and \\u{X...} are decoded to the character they name.""",
  ["inputs"], "every lexicon row",
  """Tests reject a few example rows.""",
  ["dictionarylib/dictionarybuilder.py", "dictionarylib/userdictionarybuilder.py"],
  [("DictionaryBuilder.parse_line/parse_splitinfo/check_wordid/decode", "sudachipy/dictionarylib/dictionarybuilder.py")])

p("C26", "Split references resolve to the word they name",
  """In a lexicon source a split unit given as a number, as U and a number, or as an inline headword, part of speech and
  reading is stored as the id of exactly that word: in a user dictionary plain numbers refer to the system dictionary,
  U-numbers to the user dictionary itself, and inline words to the user dictionary first and then to the system one. A
  reference outside the dictionary it refers to is refused.""",
  ["inputs"], "every split column of every system or user lexicon",
  """Tests use one or two references of each form.""",
  ["dictionarylib/dictionarybuilder.py", "dictionarylib/userdictionarybuilder.py"],
  [("DictionaryBuilder.parse_id/word_to_id/get_wordid", "sudachipy/dictionarylib/dictionarybuilder.py"),
   ("UserDictionaryBuilder.get_wordid/check_wordid", "sudachipy/dictionarylib/userdictionarybuilder.py")])

p("C27", "Character categories follow the definition file",
  """The categories of a code point are the union of those of all definition ranges containing it, both ends included,
  however the ranges overlap or are ordered in the file, and DEFAULT for a code point in no range.""",
  ["inputs"], "every code point and every list of ranges",
  """Tests try some points of one small file.""",
  ["dictionarylib/charactercategory.py", "dictionarylib/categorytype.py"],
  [("CharacterCategory._compile/get_category_types", "sudachipy/dictionarylib/charactercategory.py"),
   ("CharacterCategory.read_character_definition", "sudachipy/dictionarylib/charactercategory.py")])

p("C28", "Malformed definition files are rejected",
  """A character definition, rewrite table, category property file or unknown-word file with a malformed line (too few
  columns, unknown or undefined category, duplicate or over-long key, empty range) makes loading fail with an error,
  while blank and comment lines are skipped and every well-formed line is stored as it is written.""",
  ["inputs"], "every definition file",
  """Tests have one example per error at most.""",
  ["dictionarylib/charactercategory.py", "plugin/input_text/default_input_text_plugin.py", "plugin/oov/mecab_oov_plugin.py"],
  [("read_character_definition", "sudachipy/dictionarylib/charactercategory.py"),
   ("read_rewrite_lists", "sudachipy/plugin/input_text/default_input_text_plugin.py"),
   ("read_character_property/read_oov", "sudachipy/plugin/oov/mecab_oov_plugin.py")])

p("C29", "Numbers are joined only as the numeral grammar allows",
  """The numeric plugin joins a maximal run of numeric morphemes (one the numeral grammar can go on reading) only when it
  is a well-formed number, never with a misplaced comma or point, and only if the run starts with a numeral part of
  speech; the parser accepts a character only
  according to its state and gives Arabic and kanji digits and units their own values. With normalisation enabled the
  joined word's normalized form is the number in digits, otherwise the concatenation.""",
  ["inputs"], "every text and every digit string",
  """Tests try some dozens of numerals.""",
  ["plugin/path_rewrite/join_numeric_plugin.py", "plugin/path_rewrite/numericparser.py"],
  [("JoinNumericPlugin.rewrite/_concat", "sudachipy/plugin/path_rewrite/join_numeric_plugin.py"),
   ("NumericParser.append/done/check_comma", "sudachipy/plugin/path_rewrite/numericparser.py")])

p("C30", "Katakana runs are joined around unknown or short words only",
  """The katakana plugin joins a maximal run of katakana morphemes around one that is out of vocabulary or shorter than
  the configured length, leaving out leading morphemes that may not begin an unknown word, and only when at least two
  morphemes remain; morphemes outside such runs are never changed.""",
  ["inputs", "configurations"], "every path and minimum length",
  """Tests cover a few strings.""",
  ["plugin/path_rewrite/join_katakana_oov_plugin.py"],
  [("JoinKatakanaOovPlugin.rewrite", "sudachipy/plugin/path_rewrite/join_katakana_oov_plugin.py")])

p("C31", "Joining morphemes preserves what they cover",
  """A joined morpheme takes the place of exactly the morphemes joined, begins where the first and ends where the last
  one did, and its surface, dictionary and reading forms are the concatenations, and its length the sum, of theirs; a
  katakana join prefers the cheapest existing candidate over the same range. An empty range is refused.""",
  ["inputs"], "every path and range",
  """Tests check one or two joins.""",
  ["plugin/path_rewrite/path_rewrite_plugin.py", "lattice.pyx"],
  [("PathRewritePlugin.concatenate/concatenate_oov", "sudachipy/plugin/path_rewrite/path_rewrite_plugin.py"),
   ("Lattice.get_minimum_node", "sudachipy/lattice.pyx")])

p("C32", "Settings are resolved the same way everywhere",
  """Relative paths in the settings are resolved against the resource directory, which is the given one or else the
  settings file's own, absolute paths are used as they are; a dictionary type given by the caller overrides the settings
  file and must be small, core or full; without one the settings' dictionary, or else the installed core one, is used;
  a missing dictionary package or character definition is an error.""",
  ["configurations"], "every settings file, resource directory and dictionary type",
  """Tests try a few combinations with mocks.""",
  ["config.py", "dictionary.py"],
  [("_Settings.set_up", "sudachipy/config.py"), ("to_absolute_resource_path/find_dict_path", "sudachipy/config.py")])

p("C33", "Configured plugins are loaded completely, in order, and set up once",
  """Every plugin listed in the settings is instantiated from its own settings entry, in the listed order, and set up
  before the first analysis; an unknown class name or a malformed entry is an error, and a missing list means no
  plugins. Input-text plugins run before and path-rewrite plugins after the search, each in order.""",
  ["configurations"], "every plugin list",
  """Tests load each plugin once, alone.""",
  ["plugin/input_text/utils.py", "plugin/oov/utils.py", "plugin/path_rewrite/utils.py", "dictionary.py", "tokenizer.pyx"],
  [("get_*_plugins", "sudachipy/plugin/*/utils.py"), ("Dictionary.__init__", "sudachipy/dictionary.py"),
   ("Tokenizer.tokenize", "sudachipy/tokenizer.pyx")])

p("C34", "The command line prints one line per morpheme and EOS per line",
  """For every input line the tokenize command writes, in order, one tab-separated line per morpheme (surface, comma-joined
  part of speech, normalized form; with -a also dictionary form, reading form, dictionary id, synonym groups and (OOV)
  exactly for out-of-vocabulary words) and then EOS, in the mode, with the settings, dictionary type and output file
  the options ask for.""",
  ["inputs", "configurations"], "every input and option combination",
  """No test runs the command line's output path over more than a sample.""",
  ["command_line.py"],
  [("run/_command_tokenize/main", "sudachipy/command_line.py")])

p("C35", "Build commands check their inputs before writing",
  """The build commands refuse to start, with an error and exit status, when a lexicon, matrix or system dictionary file
  does not exist, and only after those checks create the output file, which holds header, grammar and lexicon in that
  order with the given description and sources.""",
  ["inputs", "configurations", "fault_sequences"], "every command line",
  """No test runs the build commands with missing files.""",
  ["command_line.py", "dictionarylib/dictionarybuilder.py", "dictionarylib/userdictionarybuilder.py"],
  [("_command_build/_command_user_build/_*_checker", "sudachipy/command_line.py"),
   ("DictionaryBuilder.build", "sudachipy/dictionarylib/dictionarybuilder.py")])

p("C36", "Analysis never modifies a dictionary file, and only declared outputs are written",
  """Opening, using and closing dictionaries never changes a file on disk: dictionary files are opened for reading and
  mapped read-only or copy-on-write, and the only files the package opens for writing are the output files named on the
  command line.""",
  ["inputs", "histories"], "every use of the library",
  """Tests do not compare files before and after, and cannot try every use.""",
  ["dictionarylib/binarydictionary.py", "command_line.py", "dictionarylib/wordparameterlist.py", "dictionarylib/grammar.py"],
  [("BinaryDictionary._read_dictionary", "sudachipy/dictionarylib/binarydictionary.py"),
   ("open() call sites", "sudachipy/")])

p("C37", "Every file opened is closed on every path",
  """Every file the package opens with open() is closed again when the operation that opened it ends, whether that
  operation succeeds or raises an error, and no object keeps such a file open without a close of its own.""",
  ["inputs", "fault_sequences"], "every success and error path",
  """Tests do not watch descriptors on error paths.""",
  ["config.py", "command_line.py", "dictionarylib/charactercategory.py", "dictionarylib/dictionarybuilder.py",
   "dictionarylib/binarydictionary.py", "plugin/oov/mecab_oov_plugin.py", "plugin/input_text/default_input_text_plugin.py"],
  [("with statements / finally", "sudachipy/")])

p("C38", "The shipped settings and definition files are consistent with the code",
  """Every plugin class and every key in the shipped settings is one the code knows; every category the shipped character
  definition and unknown-word file use is a category of the code and has properties; no rewrite rule is defined twice; and
  each code point, replacement, ignored character and unknown-word entry has the value that was reviewed.""",
  ["configurations"], "every line of the shipped files",
  """Tests load their own copies of these files, not the shipped ones.""",
  ["resources/char.def", "resources/rewrite.def", "resources/unk.def", "resources/sudachi.json"],
  [("shipped resources", "sudachipy/resources")])

p("C39", "Debug output does not change the analysis",
  """The functions that only describe the state of an analysis - the dump of the lattice, the dump of the path, the text
  of a lattice node, the progress lines of the dictionary builder - change neither the lattice, the path, the nodes nor
  anything else the analysis reads, and do not end it: with debug output enabled, disabled or captured at any level,
  the morphemes are the same, for every text, mode and dictionary.""",
  ["configurations", "inputs"], "every lattice and path, with a logger enabled or disabled",
  """Tests run with the logger disabled, or look at one dump of one sentence.""",
  ["lattice.pyx", "tokenizer.pyx", "latticenode.pyx", "dictionarylib/dictionarybuilder.py"],
  [("Lattice.dump", "sudachipy/lattice.pyx"), ("Tokenizer._dump_path", "sudachipy/tokenizer.pyx"),
   ("LatticeNode.__str__", "sudachipy/latticenode.pyx")])

# --- not applicable to static analysis -----------------------------------
p("N01", "Normalised numerals have the right numeric value",
  """For every well-formed numeral the normalized form denotes the same number, including decimals, mixed kanji units and
  trailing zeros.""",
  ["inputs"], "every numeral", """The tests list some dozens of numerals.""",
  ["plugin/path_rewrite/numericparser.py"], [("NumericParser.StringNumber", "sudachipy/plugin/path_rewrite/numericparser.py")])
p("N02", "Tokenization terminates for every text",
  """Tokenizing any finite text with any valid dictionary returns or raises in finite time.""",
  ["inputs"], "every text and dictionary", """A test that terminates says nothing about other texts.""",
  ["tokenizer.pyx", "plugin/path_rewrite/join_numeric_plugin.py"], [("JoinNumericPlugin.rewrite", "sudachipy/plugin/path_rewrite/join_numeric_plugin.py")])
p("N03", "Tokenizers may be used from several threads",
  """Tokenizers sharing one dictionary give the same results when used concurrently as when used one after another.""",
  ["schedules"], "every interleaving of calls", """Tests are single-threaded.""",
  ["dictionarylib/wordinfolist.py", "dictionarylib/lexiconset.py"], [("shared mmap cursor", "sudachipy/dictionarylib/wordinfolist.py")])
p("N04", "An interrupted build leaves no file mistaken for a dictionary",
  """If a build is interrupted at any point, the output file is not accepted as a complete dictionary.""",
  ["crash_points"], "every crash point of a build", """Tests do not interrupt builds.""",
  ["command_line.py", "dictionarylib/dictionarybuilder.py"], [("_command_build", "sudachipy/command_line.py")])
p("N05", "The trie finds exactly the stored keys",
  """The double-array trie written into the dictionary finds exactly the keys it was built from.""",
  ["inputs"], "every key set", """Tests look up a few keys.""",
  ["dictionarylib/doublearraylexicon.py"], [("dartsclone.DoubleArray (external, native)", "dartsclone")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w", encoding="utf-8") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
