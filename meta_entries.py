# Properties and checks; read by meta.py.

prop('P01', 'Brahmic NFC: canonical equivalence, full composition, idempotence',
     'NFC normalization of Brahmic text, of one script or of all together, turns every text into a canonically equivalent one in '
     'which nothing is left to compose or decompose, by obligatory leftmost rewriting with the declared tables, and leaves all '
     'other characters alone. It has exactly one output for every text over its alphabet (for byte grammars: every Unicode text) '
     'and applying it again changes nothing.',
     'every text of any length, for each of the 20 scripts and all together, byte and UTF-8 grammars',
     'The tests compare a few dozen words per script; a rule lost in context, a wrong rule order or a character outside the samples '
     'goes unnoticed. The claim is about all texts.',
     [B + 'nfc.py', U + 'rule.py', B + 'sigma.py', B + 'util.py', B + '__init__.py'],
     [('NFC grammars', B + 'nfc.py:generator_main'), ('rule layering', U + 'rule.py:fst_from_rules'),
      ('alphabets', B + 'char_util.py:script_chars'), ('public API', B + '__init__.py:Nfc')])
check('P01')

prop('P02', 'Brahmic visual normalization is the documented pipeline, on every text',
     'Visual normalization of a Brahmic script is NFC, then collapsing of repeated nonspacing marks and joiners, then the declared '
     'visual rewrites, then removal of zero-width joiners except for the declared sequences between two consonants; the Bengali '
     'and Assamese variants then rewrite the declared letters before and after consonants. Every text over the alphabet (for byte '
     'grammars: every Unicode text) has exactly one output, and no other text has one.',
     'every text of any length, for 20 scripts and 2 language variants, byte and UTF-8 grammars',
     'The order and interaction of five rewriting stages show on rare sequences (repeated marks around joiners, a sequence that arises '
     'only from an earlier rewrite); the tests list some words and check random output for non-emptiness only.',
     [B + 'visual_norm.py', U + 'rule.py', B + 'char_util.py', U + 'rewrite.py', B + '__init__.py'],
     [('stages and their order', B + 'visual_norm.py:core_visual_norm_fsts'), ('mark collapsing', B + 'char_util.py:dedup_marks_fst'),
      ('rule layering', U + 'rule.py:fst_from_rules'), ('composition', U + 'rewrite.py:ComposeFsts')])
check('P02')

prop('P03', 'The well-formedness acceptor accepts exactly the sequences of aksharas',
     'A text is accepted as well-formed in a Brahmic script if and only if it is a sequence of aksharas: vowel letters or consonant '
     'clusters with optional vowel sign, length sign, coda and dead consonant in this order (the vowel sign is mandatory without '
     'inherent vowel), clusters that end in a virama, stand-alone letters and declared exceptions. In particular no accepted text has '
     'two viramas in a row and, declared exceptions of Malayalam and Meetei apart, none starts with a mark, has two vowel signs in a row '
     'or a vowel sign after a virama.',
     'every text of any length, for each of the 20 scripts, byte and UTF-8 acceptors',
     'Membership in an infinite language; the tests check a handful of accepted words and determinism.',
     [B + 'wellformed.py', U + 'file.py', B + '__init__.py', U + 'far.py'],
     [('akshara grammar', B + 'wellformed.py:accept_well_formed'), ('missing tables', U + 'file.py:QuesSafe'),
      ('public API', B + '__init__.py:WellFormed')])
check('P03')

prop('P04', 'ISO 15919 romanization of a script is deterministic and lossless',
     'For each Brahmic script, romanization gives exactly one cheapest output for every text made of its letters, signs, codas, viramas '
     'and joiners, namely the NFC of the text with syllables, inherent vowels, viramas, dangling signs and vowel sequences spelt as '
     'documented. Converting that output back to the script gives, again as the only cheapest output, the NFC of the original text.',
     'every text of any length in the domain, for each of the 20 scripts, both directions, byte and UTF-8 grammars',
     'Losslessness depends on the ambiguity of concatenated Latin spellings (a + i against ai, k + h against kh), which only unusual '
     'sequences show; the tests list words.',
     [B + 'iso.py', U + 'rewrite.py', U + 'file.py', B + 'util.py', B + '__init__.py'],
     [('weighted alternatives', B + 'iso.py:brahmic_to_iso'), ('composition with NFC', B + 'iso.py:_script_fsts'),
      ('public API', B + '__init__.py:IsoTo')])
check('P04')

prop('P05', 'Multi-script romanization agrees with the romanization of each script',
     'The romanizer for all Brahmic scripts together has an output for every text over its alphabet and leaves text without Brahmic characters unchanged. '
     'On a text that the romanizer of one script takes, the cheapest of its outputs without native characters is unique and is what that '
     'romanizer gives (for scripts whose letters are single characters: the cheapest of all its outputs). This holds for the byte and '
     'the UTF-8 version alike.',
     'every text of any length, for each of the 20 scripts, byte and UTF-8 grammars',
     'The rewriting over the union of all scripts is cut into pieces nondeterministically, so that agreement is a matter of weights on '
     'all segmentations; the UTF-8 version was broken for every input without a test noticing.',
     [B + 'iso.py', U + 'rewrite.py', B + '__init__.py'],
     [('union of the scripts', B + 'iso.py:generator_main'), ('rewriting', U + 'rewrite.py:Rewrite'), ('public API', B + '__init__.py:ToIso')])
check('P05', note=RNOTE + '; on 10 scripts a tie with an output that leaves a native sign is resolved by Pynini, which is tested only (bounded)')

prop('P06', 'Brahmic reading normalization applies its rules everywhere and nothing else',
     'Reading normalization of Bengali, Hindi, Lepcha and Malayalam text rewrites every occurrence of the declared sequences, of the script '
     'and then of the language, longer ones before the shorter ones they contain, from left to right, and leaves every other character in '
     'place. Every text over the alphabet (for byte grammars: every Unicode text) has exactly one output, and except for Malayalam '
     'applying it again changes nothing.',
     'every text of any length, 4 normalizers, byte and UTF-8 grammars',
     'A rule that is lost, applied in the wrong order or leaks into other characters shows on sequences that no test lists; totality is '
     'only tested on samples.',
     [B + 'reading_norm.py', U + 'rule.py', B + 'sigma.py', U + 'rewrite.py'],
     [('script and language rules', B + 'reading_norm.py:generator_main'), ('rule layering', U + 'rule.py:partition_unordered'),
      ('rewriting', U + 'rewrite.py:RewriteAndComposeFsts')])
check('P06')

prop('P07', 'Fixed-rule (Mozhi) input is the cascade of its rules, read as ISO 15919',
     'An ASCII text in the fixed-rule romanization of Malayalam has an output exactly if the ISO 15919 text it spells is that of a native '
     'text; what it spells is found by applying each declared rule to the whole text, one after another in the declared order. The cheapest '
     'output is then unique and is what the ISO 15919 converter gives for that spelling.',
     'every text of any length, byte and UTF-8 grammars',
     'Feeding rules interact (l, ll, L, zh), and the result passes through the ambiguous ISO grammar; the tests list a few dozen words.',
     [B + 'fixed.py', U + 'rule.py', B + 'iso.py', U + 'char.py'],
     [('cascade', U + 'rule.py:_fst_from_cascading_rules'), ('input alphabet', B + 'fixed.py:_ascii_acceptor'),
      ('composition with ISO', B + 'fixed.py:generator_main')])
check('P07')

prop('P08', 'Arabic-script NFC: canonical equivalence and composition, on every text',
     'NFC normalization of Arabic-script text turns every text over its alphabet into exactly one, canonically equivalent text by '
     'obligatory leftmost rewriting with the declared table, longer sequences first; no pair of the table that composes is left. Texts '
     'with other characters have no output.',
     'every text over the alphabet, of any length, byte and UTF-8 grammars',
     'Canonical equivalence depends on the order of combining marks in any sequence; the tests list some pairs.',
     [A + 'nfc.py', U + 'rule.py', A + 'util.py', U + 'char.py'],
     [('grammar', A + 'nfc.py:generator_main'), ('alphabet', A + 'util.py:sigma_from_common_data_files'), ('rule layering', U + 'rule.py:fst_from_rules')])
check('P08')

prop('P09', 'Reversible romanization of Arabic script loses nothing but NFC differences',
     'Romanization of Arabic-script text is defined for exactly the texts whose NFC is made of sequences of the declared table, has one '
     'output, and reading that back gives the NFC of the text as the only result. The public romanizer has an output for every Unicode text, leaves text '
     'without romanizable characters unchanged, and whatever it gives for a romanizable text is read back as a canonically equivalent one.',
     'every text of any length, both directions, byte and UTF-8 grammars and the public romanizer',
     'Reversibility is about the unique decipherability of a code of some 200 Latin sequences; a table entry or operator that breaks '
     'it shows only when two letters happen to spell a third.',
     [A + 'reversible_roman.py', A + '__init__.py', A + 'nfc.py', U + 'rewrite.py', U + 'file.py'],
     [('both directions', A + 'reversible_roman.py:generator_main'), ('pass-through of other characters', A + '__init__.py:ToReversibleRoman')])
check('P09')

prop('P10', 'Arabic-script visual normalization is its documented pipeline, on every text',
     'Visual normalization of a language in Arabic script rewrites presentation forms, applies NFC, the common and then the '
     "language's visual rewrites, and then the positional rewrites: non-final, final, isolated, where the position is that in the whole "
     'text. Every text over the alphabet has exactly one output, and no other text has one.',
     'every text of any length, 14 languages, byte and UTF-8 grammars',
     'Positional rewrites depend on what earlier stages produced at the edges of the text; the tests list some words and check random '
     'output for being non-empty.',
     [A + 'visual_norm.py', A + 'visual_norm_common.py', U + 'rule.py', U + 'rewrite.py', A + 'util.py'],
     [('stages and their order', A + 'visual_norm.py:generator_main'), ('positional rewrites', A + 'visual_norm.py:lang_fsts'),
      ('common stages', A + 'visual_norm_common.py:script_common_fsts')])
check('P10')

prop('P11', 'Arabic-script reading normalization applies its rules everywhere, nothing else',
     "Reading normalization of a language in Arabic script rewrites every occurrence of the language's declared sequences, longer ones "
     'before the shorter ones they contain, from left to right, and leaves every other character in place. Every text over the '
     'alphabet has exactly one output, and no other text has one.',
     'every text of any length, 14 languages, byte and UTF-8 grammars',
     'The alphabet is put together from 74 tables; a character or rule that gets lost there shows only on texts that have it in the right context.',
     [A + 'reading_norm.py', A + 'util.py', U + 'rule.py', U + 'char.py'],
     [('grammar', A + 'reading_norm.py:generator_main'), ('alphabet', A + 'util.py:sigma_from_common_data_files'),
      ('rule layering', U + 'rule.py:partition_unordered')])
check('P11')

prop('P12', 'UTF-8 and byte grammars agree on every text',
     'For each grammar that comes in a byte and a UTF-8 version, both give the same (cheapest) output for every text over the alphabet '
     'of the UTF-8 version, and outside of the alphabet the UTF-8 version has no output. The cheapest output is unique in both.',
     'every text of any length; NFC, visual and reading normalization, well-formedness, ISO in both directions and fixed-rule '
     'romanization of the Brahmic scripts, all Arabic-script grammars',
     'The two versions are built with different token types from the same functions, and code that mixes them up (an alphabet compiled '
     'with the wrong one) still builds; the tests compare listed words.',
     [B + 'sigma.py', B + 'util.py', A + 'util.py', U + 'file.py', U + 'char.py'],
     [('token types', B + 'iso.py:generator_main'), ('alphabets', B + 'sigma.py:generator_main'), ('FAR names', U + 'file.py:OpenFar')])
check('P12')

prop('P13', 'Transliteration and pronunciation of ISO text: one clean output for every text',
     'For Bengali, Gujarati, Hindi, Kannada, Malayalam, Marathi, Punjabi, Tamil and Telugu, every text over the ISO 15919 letters that '
     'the module documents, and no other text, has exactly one pronunciation (IPA) and exactly one fine, coarse and natural '
     'romanization (Punjabi: where no silent letter comes before an affricate or aspirate). Pronunciations are made of IPA '
     'symbols and romanizations of the letters a-z (natural Hindi: and capitals for spelt-out acronyms), never of internal markup. '
     'The fine and the coarse romanization are the same once repeated letters and digraphs are reduced to one (but for Malayalam, Tamil, Punjabi). '
     'UTF-8 and byte grammars agree, and the files that hold all grammars of a language hold these.',
     'every text of any length, 9 languages, 4 targets, byte and UTF-8 grammars',
     'The pipelines are compositions of dozens of context-dependent rewrites over an internal alignment notation; one that leaves '
     'behind a symbol nobody maps makes whole words vanish (no output) in the composition, only for texts with that sequence. The '
     'tests try some twenty words for each language.',
     [N + 'brahmic/g2p.py', N + 'brahmic/romanizer.py', N + 'brahmic/grapheme_inventory.py', N + 'phonology/phon.py', N + 'script/char.py',
      N + 'language_params/hi.py'],
     [('graphemes to phonemes', N + 'brahmic/g2p.py:iso_to_txn'), ('romanization', N + 'brahmic/romanizer.py:TXN_TO_PSAF'),
      ('printing', N + 'script/char.py:print_only_glyph'), ('IPA', N + 'phonology/transcriptor.py:txn_to_ipa')])
check('P13')

prop('P14', 'Pronunciations and romanizations follow the letters and the silent schwas',
     'In Telugu and Kannada, the pronunciation (IPA) and the romanizations (fine, coarse, natural) of an ISO text are those of its letters one by '
     'one, except for anusvara, which takes the place of the consonant after it. In Hindi, Marathi, Gujarati, Punjabi and Bengali moreover a schwa is silent '
     'where it is the last sound of a text after a possible syllable end, or between a possible syllable end and a possible syllable '
     'start, deciding from left to right, and never before a coda or an independent vowel, or after a front vowel and y. In Malayalam and Tamil '
     'a single stop is voiced between a vowel, an approximant or a nasal (in Tamil, or a rhotic) and another one; Tamil c becomes s there and '
     'at the start, and j after ñ. The coarse '
     'romanization is the fine one with long vowels short and without repetitions; the natural one changes the declared letter sequences.',
     'every text of any length over the ISO letters, 9 languages, 4 targets (Hindi natural: except for names of English letters; Punjabi: '
     'except for gemination signs before affricates and aspirates)',
     'Which schwas are silent depends on decisions about earlier ones and on syllable structure on both sides; the tests try some twenty words for each language.',
     [N + 'phonology/operations/syllable.py',
      N + 'brahmic/g2p.py', N + 'brahmic/romanizer.py', N + 'language_params/hi.py', N + 'utils/rewrite_functions.py', N + 'script/char.py'],
     [('silent schwas', N + 'brahmic/g2p.py:schwa_eow'), ('romanization', N + 'brahmic/romanizer.py:TXN_TO_PSAF'),
      ('pipelines', N + 'language_params/hi.py:_TXN_OPS')])
check('P14')

prop('P15', 'Deromanization spells out every Latin text in one way',
     'For Hindi and Tamil, every text of the letters a to z, and no other text, deromanizes, to exactly one ISO text and one text in the '
     'native script: declared letter sequences, doubled letters, aspirates (dropped in Tamil), long and short vowels and diphthongs, '
     'anusvara, the virama of consonant clusters, inherent vowels, and dots for vowel letters that are not initial. The Hindi ISO '
     'text is the ISO romanization of its Devanagari text.',
     'every text of any length over the letters a to z, 2 languages, byte and UTF-8',
     'Which letters group depends on what precedes and follows without bound; the tests try a handful of words and never check that there is one output.',
     [N + 'brahmic/deromanizer.py', N + 'brahmic/derom_inventory.py', N + 'deromanization/hi_iso.py', N + 'deromanization/hi_deva.py', N + 'deromanization/ta_iso.py', N + 'deromanization/ta_taml.py',
      N + 'brahmic/grapheme_inventory.py', N + 'language_params/ta.py', N + 'utils/rewrite_functions.py'],
     [('deromanizer', N + 'brahmic/deromanizer.py:Deromanizer'), ('letters', N + 'brahmic/derom_inventory.py:DeromMapping')])
check('P15')

prop('P16', 'English letters are spelt out name by name',
     'For each of the supported languages and scripts, every text of Latin letters of either case is spelt out as the names of its letters '
     'in order, joined without a mark, with a space in the Arabic script, and with ZWNJ in Kannada, Malayalam and Telugu after '
     'a name which ends in a virama. Nothing follows the last name and no other text has an output.',
     'every text of any length over the letters A to Z and a to z, 13 languages and scripts, byte and UTF-8',
     'The joining depends on neighbouring names and on being last; the tests spell a few words.',
     [N + 'brahmic/en_spellout.py', N + 'deromanization/en_spellout.py'],
     [('spellout', N + 'brahmic/en_spellout.py')])
check('P16')

prop('P17', 'The Python interface applies the grammar it names to each word',
     'Each accessor returns the grammar of its name, script or language, whatever was loaded before. A text is looked up as it is, '
     'brackets and backslashes included; the output is the best one, and a text without one is reported. A normalizing '
     'acceptor gives the visual norm of a word if that is well-formed, and IllFormedError otherwise; a normalizer gives the visual norm of '
     'the NFC of a word. Both treat each word of a line, in order, and keep the white space as it is.',
     'every accessor and script; words: every word; lines and texts: bounded',
     'The words are opaque to the interface, so a wrong order, grammar or bracket shows on texts nobody has tried.',
     ['nisaba/scripts/utils/far.py', 'nisaba/scripts/utils/file.py', B + '__init__.py', A + '__init__.py', B + 'util.py', A + 'util.py'],
     [('interface', B + '__init__.py:NormalizingAcceptor'), ('interface', A + '__init__.py:Normalizer'), ('wrapper', 'nisaba/scripts/utils/far.py:FstWrapper')])
check('P17', technique='deductive: symbolic execution of the real functions on opaque words against the contracts of their grammars; relational equality',
      note='words are opaque terms, grammars are their contracts. Bounded and so labelled: lines (every character; patterns of up to 8 characters), '
      'texts with escaped characters (every character; up to 6 of the special ones).')

prop('P18', 'Feature distances and profile comparisons are those of the declared lists',
     'The distance of two features of an aspect is the steps between the items of the innermost list that holds both, in either direction: the '
     'same for all pairs, along the line, or the shorter way round; it is 0 to itself and to "any", the largest one to "n_a", and that of the '
     'nearest features between sets. Ranges go forward in a circle; a list, aspect, set or profile has a feature or list if it has one of its features. '
     'A profile update changes the given aspects of that profile only. Similarity is one less the share of the largest distance, by all or the given aspects, '
     '1 if no distance is possible, and 0 between inventories.',
     'lists of any length and steps of any size for the distance of items and features; trees of lists, sets and histories up to a bound; all declared inventories',
     'Distances are entered while lists are still being added, in an order that depends on the nesting; the tests try one inventory.',
     [N + 'utils/feature.py', N + 'utils/inventory.py', N + 'phonology/features/descriptive.py', N + 'utils/symbol.py'],
     [('distances', N + 'utils/feature.py:Feature.ValueList.populate'), ('profiles', N + 'utils/feature.py:Feature.Profile'),
      ('sets', N + 'utils/feature.py:Feature.Set.distance')])
check('P18', level='exploration', technique='deductive: symbolic execution of the real functions against contracts (z3), on every path; enumeration where lists are built',
      note='Discharged for all lengths and steps: ValueList.distance, Aspect.add_distance, Feature.distance. The loops that fill and search the tables are checked on '
      'all trees up to a bound with symbolic steps, profiles on all histories up to a bound: bounded, not counted as proved.')

prop('P19', 'Expressions accept, contain and match by the symbol lists they denote',
     'The symbol lists of a Cat are the concatenations of those of its items, in order, and of an Or the union of those of its items, in order of addition, '
     'less the items that another one covers. Adding, copying, repeating and making optional change no other expression. One accepts another iff it has all its lists, is equivalent '
     'iff they have the same ones, and contains, starts or ends with it iff a list of one does with a list of the other; ANY does with all but "nor". A pair of expressions compares '
     'side by side; the context of a rule matches iff both sides do, and rules have the sides, context, operation, priority, cost and source given.',
     'expressions of up to two levels over three symbols and all pairs of one with a small one; lists of up to 6 symbols; contexts of up to 11 pairs on each side',
     'Acceptance depends on how lists recur over nested alternatives; the tests compare a few hand-written expressions.',
     [N + 'utils/expression.py', N + 'utils/symbol.py', N + 'utils/operation.py'],
     [('symbol lists', N + 'utils/expression.py:Cat.symbols'), ('acceptance', N + 'utils/symbol.py:Item.accepts'),
      ('containment', N + 'utils/symbol.py:Item.contains_symbol_list'), ('context', N + 'utils/expression.py:Alignment.context_matches')])
check('P19', level='exploration', technique='contracts on the real functions, checked by enumeration up to a bound (bounded stand-in; Python objects with dynamic dispatch, no deductive back end)',
      note='All obligations are bounded: expressions up to two levels over three symbols. Nothing is counted as proved.')

prop('P20', 'Inventories, symbols, operations and lattices: one thing per name, index, node',
     'An inventory keeps the first thing of each alias, its items in order, and supplements aside. A text becomes one symbol for each character, the same for the same one, '
     'whose raw texts make the text; symbols are found by raw, text, index and alias, and control symbols never change. Operations have indices of their own, none ending in 0, '
     'with their partial and unexpected forms and costs. Within bounds each node of a lattice has a state of its own in the FST of the lattice, and out of bounds that of the '
     'error node. Phonemes and Latin letters have the features of their names.',
     'lattices of any size and operations of any index; texts of up to 4 characters, blocks of Unicode, and histories of up to 4 moves; all declared graphemes and phonemes',
     'Names and indices clash only after certain histories; the tests build one inventory of each kind.',
     [N + 'utils/inventory.py', N + 'utils/symbol.py', N + 'utils/operation.py', N + 'utils/lattice.py', N + 'utils/type_op.py', N + 'script/grapheme.py',
      N + 'script/inventories/latn.py', N + 'phonology/phonological_symbol.py', N + 'phonology/inventories/x_uni.py'],
     [('inventory', N + 'utils/inventory.py:Inventory.add_item'), ('symbols', N + 'utils/symbol.py:Symbol.Inventory.str_to_raw_symbols'),
      ('operations', N + 'utils/operation.py:Operation.Inventory'), ('lattice', N + 'utils/lattice.py:Lattice.state')])
check('P20', level='exploration', technique='deductive: symbolic execution of the real functions against contracts (z3) for lattices and operation indices; enumeration elsewhere',
      note='Discharged for all values: Lattice.node, state, state_of and Operation.Inventory._next_index. The rest is bounded, not counted as proved.')

U = 'nisaba/scripts/utils/'
prop('P21', 'Rule files and declared items become the rewriting that they list',
     'An item is the text of its characters, given as text, by name, or by the rest of the name after one of the prefixes; both have to agree, and a name that fits none or '
     'several characters is an error. Rules read from a file are those written, in order, as text. Rules without order rewrite everywhere, those that contain others first, in '
     'whatever order they are listed; two results for one sequence are an error. Cascading rules apply one after another, each to the whole text. Composition is that of all '
     'transducers in the order given, whichever are combined first; without rules nothing changes.',
     'rule sets of up to 3 rules of 24 and some larger ones, each for every text of any length; lists of up to 5 transducers of any sizes; all named characters',
     'The tables in use have few overlapping rules, and the order of combination depends on sizes; the tests try no rule file of their own.',
     [U + 'rule.py', U + 'rewrite.py', U + 'unicode_strings_util.py', U + 'unicode_strings_to_tsv.py', U + 'letter_languages.py', U + 'char.py'],
     [('layers', U + 'rule.py:partition_unordered'), ('composition', U + 'rewrite.py:ComposeFsts'), ('items', U + 'unicode_strings_util.py:convert_item')])
check('P21', level='exploration', technique='deductive per rule set: the transducer built is the specified function on all texts, by decision procedures on rational relations; enumeration of the sets',
      note='Every set of rules is decided for all texts of any length; the sets, files and lists of transducers are enumerated up to a bound: bounded, not counted as proved.')

prop('P22', 'Aligned text: rules apply everywhere in their contexts, whatever lies between',
     'Graphemes <..>, phonemes {..} and transliterations `..` are words of letters and signs between their marks; an alignment is a left side, = and a right side. A rule on aligned '
     'text replaces every occurrence of its left side, leftmost first, in a text that is read and written from left to right, whose contexts stand directly before and after it or '
     'beyond one left side with its = or one = with its right side; at the edge of a word where it says so. Reassigning changes the right side of the given left side, merging joins two adjacent '
     'alignments and, unless another is given, their right sides; insertions are made once at each place. Printing takes the right sides only, one letter or sound at a time. Lists of transducers are flat and in '
     'order. Letters and sounds made of others have the signs, glyphs, features and parts of all of them in order, and leave them as they are.',
     'every text of any length over the notation, for samples of rules and contexts (7 on each side) of each function; all lists of up to 3 of 9 items, letters and sounds up to a bound',
     'A context is a regular language of alignments to skip; one that skips too little or too much shows on texts with sides of certain shapes only. There are no tests of these functions '
     'other than four of the notation and those of the languages.',
     ['nisaba/scripts/natural_translit/' + 'utils/rewrite_functions.py', 'nisaba/scripts/natural_translit/' + 'utils/alignment.py', 'nisaba/scripts/natural_translit/' + 'utils/concat.py', 'nisaba/scripts/natural_translit/' + 'utils/fst_list.py', 'nisaba/scripts/natural_translit/' + 'script/char.py', 'nisaba/scripts/natural_translit/' + 'phonology/phon.py',
      'nisaba/scripts/natural_translit/' + 'phonology/modify_phon.py', 'nisaba/scripts/natural_translit/' + 'phonology/operations/syllable.py'],
     [('contexts', 'nisaba/scripts/natural_translit/' + 'utils/rewrite_functions.py:rewrite_op'), ('notation', 'nisaba/scripts/natural_translit/' + 'utils/alignment.py:SKIP'), ('printing', 'nisaba/scripts/natural_translit/' + 'script/char.py:print_only_glyph'),
      ('sounds', 'nisaba/scripts/natural_translit/' + 'phonology/modify_phon.py:compose')])
check('P22', level='exploration', technique='deductive per rule: the transducer built is the specified function on all texts, by decision procedures on rational relations; enumeration of the rules, letters and sounds',
      note='The notation is decided for all texts and bytes; every sample of a rule is decided for all texts of any length; the rules, contexts, lists, letters and sounds are enumerated: bounded, not counted as proved.')

T = 'nisaba/translit/tools/'
prop('P23', 'The error of hypotheses is the least cost of moving them onto the references',
     'Given weighted hypotheses and weighted references of the same total weight, the edits are the least total, over all ways to assign the weight of the hypotheses to the '
     'references, of weight times edit distance, and the reference length is the weighted length of the references, whatever else has a length. The report has these and their ratio '
     'for each line, the sums of both, and the ratio of the sums.',
     'all flows for up to 4 texts; 9 sets of up to 3 texts on each side with shares in thirds and fourths; files of up to 6 lines',
     'The sums run over whatever flow the library gives; the tests have three examples with at most two texts on each side and the lengths of the hypotheses set to zero.',
     [T + 'emd_cer.py', T + 'calculate_emd_cer.py'],
     [('edits and length', T + 'emd_cer.py:emd_error_and_length'), ('report', T + 'calculate_emd_cer.py:main')])
check('P23', level='exploration', technique='symbolic execution on real flows of all values against the contract of the library, z3; enumeration against an independent optimum',
      note='All flows of up to 4 texts by z3, with the library by its contract; sets of texts enumerated up to a bound against an exact optimum: bounded, not counted as proved.')
