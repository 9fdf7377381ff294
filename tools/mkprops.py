"""Regenerates /verif/properties.jsonl (one place to edit the property texts)."""
import json
import pathlib

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': {'files': ['scrappybara/' + f for f in files], 'mechanism': mech}})


TOK = ['preprocessing/tokenizer.py', 'preprocessing/sanitization.py']
SEN = ['preprocessing/sentencizer.py', 'preprocessing/tokenizer.py', 'preprocessing/sanitization.py']
LOG = ['pipeline/logic_pipeline.py', 'syntax/nodifier.py', 'syntax/fixer.py', 'syntax/chunker.py', 'syntax/arg_finder.py',
       'syntax/node.py', 'normalization/canonicalizer.py', 'semantics/semantic_tuple_extractor.py', 'utils/maths.py',
       'utils/tree.py']

prop('C01', 'Tokenizing a text loses, invents and reorders nothing',
     'For every text with a visible character, the tokens read in order spell out exactly the visible characters of the text, apart from four '
     'fixed normalisations: curly quotes become straight ones, long dashes become a hyphen, a foot or inch mark right '
     'after a number may become "ft" or "in", and a run of stars between letters becomes one star. No token is empty or '
     'contains whitespace, and tokenizing never fails. (Texts that use the internal placeholder spellings such as '
     '_NSD_ or _PROTECTED_1_ are excluded.)',
     ['inputs'], 'every text built from words, numbers, clitics, links, smileys, punctuation and whitespace in any order '
     'and number', 'test_tokenizer compares about a hundred hand-written sentences; the rewrite rules interact pairwise '
     'and triple-wise, and with repeated or nested placeholders', TOK,
     'about 60 regular-expression rewrites applied in sequence, with placeholders substituted and restored')
prop('C02', 'Links, smileys and the contraction of "and" come out in one piece',
     'Wherever a web link (starting with http://, https:// or www., or a dotted address with a slash), a :) ;) :( ;( '
     'smiley (with or without a nose) or a spaced \'n\' stands between blanks in a text, it is exactly one token, '
     'spelled as in the text, whatever surrounds it and however many of them, equal or different, the text contains. (Links with two periods in a row or a '
     'final period, and an \'n\' that is first or last, are not covered.)',
     ['inputs'], 'every mix, repetition and number of protected items among ordinary words and punctuation',
     'the tests show one or two protected items per sentence; key collisions, repeated items and items that contain '
     'one another need particular combinations', TOK, 'protected items are replaced by numbered placeholders and '
     'restored at the end')
prop('C03', 'A period ends a word only where a sentence can end',
     'A period stays with its word when the next word starts in lower case or is a number, when punctuation such as , : '
     '; ? ! follows, when the word is a known title or abbreviation (Mr, Dr, St, ...) followed by a capitalised word, or a single '
     'letter; a number follows the same rules when what follows is not itself a dotted number. The inner periods of a series of dotted letters, numbers or words stay (unless a capital follows a small letter), and so does the final one of a '
     'series of letters or numbers. In all other cases the period after a word is a token of '
     'its own, both at the end of the text and before a capitalised word. Three or more '
     'periods in a row are one token.',
     ['inputs'], 'every class of word before a period times every class of continuation, at every position in a text',
     'tests cover a few abbreviations and contexts each; the rules overlap and their order matters', TOK,
     'context patterns protect periods before the remaining ones are split off')
prop('C04', 'Clitics, punctuation and operators are cut off the same way everywhere',
     'In every context made of blank-separated words, clitics (n\'t \'re \'ll \'ve \'m \'d \'s) and the two halves of '
     '"cannot" are separate tokens; brackets, braces, double quotes, ; ? ! = | and backslash are never glued to a word, a run of one of them being one token; commas are cut off unless '
     'they stand between digits; the comparison signs >= <= => =< come out as one token whether or not blanks surround '
     'their parts (signs that run into each other excluded); feet and inches after a number are spelled ft and in. Blanks, tabs and line breaks are interchangeable and their amount does not matter.',
     ['inputs'], 'every sequence of such units, with every kind and amount of whitespace between them',
     'each rule is tested alone; what one rule leaves behind is input to the following ones', TOK,
     'segmentation patterns applied in sequence to the whole text')
prop('C05', 'Splitting into sentences loses, invents and reorders nothing',
     'For every text, the tokens of all sentences read in order spell out exactly the visible characters of the text '
     '(up to the tokenizer\'s fixed normalisations), including everything inside quotes and brackets, nested or unbalanced, however many '
     'there are, and no internal mark appears in the output. Splitting never fails, also with a user-supplied tokenizer. (Texts that contain the reserved symbols '
     '¶ ༺ ༻ ⦅ ⦆ are excluded.)',
     ['inputs'], 'every arrangement and number of quotes, brackets, line breaks and sentence enders',
     'the tests hold a dozen texts with at most one or two quoted blocks', SEN,
     'quoted and bracketed blocks are cut out, numbered, and put back after splitting')
prop('C06', 'Sentences end exactly at line breaks and enders outside quotes and brackets',
     'A sentence always ends at a line break (LF or CR) or tab, after a token made only of . ? ! : outside quotes and brackets, and after a '
     'closing quote preceded by a period; it ends nowhere else. A balanced quoted or bracketed passage on one line is never broken across sentences, '
     'whatever enders it contains (quotes meaning straight double quotes, brackets meaning round ones, not nested in their own kind).',
     ['inputs'], 'every arrangement of words, enders, line breaks, quotes and brackets',
     'boundary rules are only sampled, with at most one block per text', SEN,
     'enders are searched in the token stream from which blocks have been removed')
prop('C07', 'Parallel mapping returns one result per item, in order, under every schedule',
     'For every list of items, number of threads and order in which the workers run and finish, mapping a function over '
     'the items in parallel calls it exactly once per item and returns the results in the order of the items. If the '
     'function fails on any item, the failure reaches the caller instead of a shortened or shifted result.',
     ['schedules', 'inputs', 'configurations', 'fault_sequences'],
     'every number of items and threads, every completion order, every failing item',
     'nothing tests the thread pool, and a test run sees one schedule', ['utils/multithreading.py', 'utils/mutables.py'],
     'the list is divided among threads; results are collected at join')
prop('C08', 'Components shared by threads give the same results as when used alone',
     'When several threads use the same tokenizer, sentence splitter, language model, lemmatizer, spelling standardizer, '
     'or pipeline stages on different inputs, every thread gets exactly what it would get running alone, under every interleaving.',
     ['schedules'], 'all interleavings of the threads\' steps up to a preemption bound',
     'data races need a preemption between two particular lines', SEN + LOG[:1] + ['langmodel/language_model.py',
     'normalization/lemmatizer.py', 'normalization/standardizer.py', 'syntax/parser.py'],
     'the same instances are called concurrently by the pipeline\'s worker threads')
prop('C09', 'Every component answers independently of what it was asked before',
     'For every sequence of calls on one instance (tokenizer, sentence splitter, language model, lemmatizer, standardizer, '
     'inflector, predicate extraction, pipeline), each answer is the one a fresh instance gives to that call alone, and '
     'a call that fails or a caller that modifies a returned list does not change later answers.',
     ['histories'], 'every sequence of calls up to a length, over inputs chosen to collide',
     'a test looks at one call at a time, mostly on a fresh instance', SEN + LOG + ['langmodel/language_model.py',
     'normalization/lemmatizer.py', 'normalization/standardizer.py', 'normalization/inflector.py'],
     'components are built once and reused for every text')
prop('C10', 'A document\'s predicates depend on its own text only',
     'The pipeline returns one document per text, in order, with one sentence object per sentence of that text, holding exactly the predicates '
     'of that sentence. They are the same whatever other texts are in the call and whatever the batch size, the number '
     'of cores and the device, including texts without any sentence or predicate.',
     ['inputs', 'configurations'], 'every list of texts, batch size, number of cores and device setting',
     'test_pipeline needs network weights that are not shipped, and samples one configuration',
     ['pipeline/pipeline.py', 'pipeline/document.py', 'pipeline/sentence.py', 'syntax/parser.py', 'utils/mutables.py',
      'utils/multithreading.py'],
     'sentences of all texts are flattened, batched, processed and regrouped by ranges')
prop('C11', 'Only sentences that cannot be cut down to 50 words are left out',
     'A sentence of at most 50 tokens is analysed as it is, whatever it contains. A longer one is cut exactly at its : " ; ( ) [ ] { } - '
     'tokens, which are removed; pieces of at most 50 tokens are analysed in order, and only longer pieces are left out.',
     ['inputs'], 'every sentence length around the limit and every placement of cut points',
     'no test has a sentence near the limit', ['pipeline/pipeline.py', 'config.py', 'syntax/training_samples.py'],
     'long sentences are regrouped around splitter tokens, then filtered')
prop('C12', 'The networks are shown exactly the sentence they are asked about',
     'For every sentence of up to 50 words the networks receive one row per word in order between a start and an end mark, made of the codes of '
     'the last 20 characters of the word (unknown characters get the reserved code) and the vector of its lower-case form (zeros if unknown), zero elsewhere; the tags '
     'and dependencies fed to later networks are those predicted for the same words, and the tagger returns '
     'exactly the predicted tag of each word.',
     ['inputs'], 'every sentence length up to the limit, word lengths around 20, known and unknown characters and words',
     'needs the networks; shipped tests cannot run them', ['syntax/training_samples.py', 'syntax/parser.py',
     'syntax/tagger.py', 'syntax/charset.py', 'syntax/wordset.py', 'syntax/models.py'],
     'padding and encoding before prediction, slicing off the padding after it')
prop('C13', 'Whatever the networks answer, parsing ends with one tag per word and a tree',
     'For every sequence of answers of the networks, parsing a batch of sentences terminates and returns for each sentence '
     'one tag per word and either no tree or an acyclic, projective structure in which every word has at most one '
     'parent, the root (the first linked word without a parent) has none, and words predicted to have no dependency do not take part. Every link carries the label '
     'predicted for the child word (a predicted root that gets a parent is labelled as a split) and joins the words that the answered transition names; an answer that would give a word a second parent adds no link.',
     ['inputs', 'histories'], 'every sequence of transition answers, every labelling of small sentences',
     'the tests never run the decoder', ['syntax/parser.py', 'syntax/transitions.py', 'utils/tree.py'],
     'arc-eager transition loop driven by network predictions')
prop('C14', 'Gold transitions rebuild exactly the labelled tree',
     'For every labelled sentence whose tree is connected and projective (every word between a head and its dependent descends from that head), following its derived transitions '
     'rebuilds exactly its tree: same links, same labels, same root, and words without dependency stay out. Its reports of crossing links, leaves and usable words agree with its tree, '
     'it reads back as its words, and its JSON warnings are those registered, per word in order (none if there are none).',
     ['inputs'], 'every projective tree up to a size, with every placement of words without dependency',
     'test_labelled_data checks a few sentences', ['syntax/labelled_data.py', 'syntax/parser.py', 'utils/tree.py'],
     'the oracle derives transitions that the parser\'s decoder replays')
prop('C15', 'Training data shows the networks what they will be shown in use',
     'For every set of labelled sentences with a root, the training inputs of the three networks are identical to the inputs those networks receive when the same '
     'sentence is parsed, each paired with the label of that very sentence and position, with no sample lost, duplicated or '
     'mismatched by shuffling. A network that memorised the data reproduces the labels and trees.',
     ['inputs'], 'every small set of labelled sentences and every shuffle', 'nothing tests the training data',
     ['syntax/labelled_data.py', 'syntax/training_samples.py', 'syntax/parser.py', 'syntax/models.py'],
     'training samples and the parser encode sentences separately')
prop('C16', 'Every extracted predicate is well formed and grounded in its sentence',
     'For every labelled sentence tree, extraction succeeds and every predicate has two to five arguments in one of the documented shapes '
     '(noun-like, verb, then noun-like, adjective or clause), negation marked on '
     'its first verb only, and words that come from the normalised words of that sentence (names as a whole), their participles, or the copula "be".',
     ['inputs'], 'every tree and labelling up to a size', 'test_logic_pipeline has 60 sentences and does not run here',
     LOG + ['semantics/semantic_tuple.py', 'semantics/argument.py', 'semantics/argument_code.py'],
     'tuple construction from the arguments registered on nodes')
prop('C17', 'Clauses yield exactly the predicates their grammar states',
     'For every clause tree, each verb yields exactly its subject-verb, subject-verb-object, subject-verb-recipient and '
     'object-is-participle predicates; each copula its subject-property predicates (none for a property introduced by a marker such as a preposition), each indirect property (as in "paint the door red") its object-is-participle-property predicate; each noun its adjective '
     'predicates; each verb with a clause object its quadruple or quintuple, and the inner verb yields no separate one (be, have, get, do have no '
     'intransitive form; have and get no passive form; existential, "to"-infinitive and property-bearing verbs yield none of the transitive forms).',
     ['inputs'], 'every clause tree up to a size over all grammatical relations and word classes',
     'the 60 sampled sentences fix one tree shape each', LOG, 'three extraction rounds over nodes with registered arguments')
prop('C18', 'Predicates distribute over coordination ("and", "or")',
     'Coordinated subjects, objects, recipients, adjectives, properties and verbs yield the predicates of each conjunct: every '
     'combination of the coordinated arguments, a shared subject for coordinated verbs without their own, and a shared object for coordinated verbs without dependents.',
     ['inputs'], 'every number of conjuncts in every argument position', 'tests have at most one coordination per sentence',
     LOG, 'coordinated nodes are aggregated when arguments are registered')
prop('C19', 'Polarity is the parity of the negations of a predicate\'s parts',
     'A predicate is affirmative exactly when an even number of the parts it is made of (its arguments and its verbs) '
     'is negated. For the object-is-participle form, the '
     'subjects count as one part that is negated only when all of them are.',
     ['inputs'], 'every subset of negated words in every clause shape', 'tests have single negations',
     LOG, 'negation dependents flip a flag on nodes; tuples combine the flags')
prop('C20', 'Names, noun compounds and particles form one argument',
     'The words of a flat name are one argument in sentence order; common nouns that complement a following noun (without a '
     'marker) are joined with it in sentence order when noun chunking is on, and are not when it is off; particles after a verb or adjective '
     'are appended to it in lower case and in order.',
     ['inputs', 'configurations'], 'every length and nesting of names, compounds and particle lists, chunking on and off',
     'tests have two-word names and compounds', LOG, 'flattening, chunking and particle collection before extraction')
prop('C21', 'Pronouns resolve to their referent and passives yield the active form',
     'A relative pronoun subject or object of a clause that complements a noun is replaced by that noun, a reflexive one by '
     'the subject it refers to, object pronouns are given in subject form; the object of a relative clause without pronoun is the noun; '
     'a past participle with a "by" agent also yields agent-verb-noun.',
     ['inputs'], 'every pronoun, clause shape and agent', 'a few sampled sentences that do not run here', LOG,
     'referents are looked up in the tree while arguments are registered')
prop('C22', 'Lemmas follow the inflection rules and stay within the vocabulary',
     'For every word and part of speech, the lemma is the irregular one if listed (also after a common prefix), otherwise the '
     'stem the regular inflection rules give, when the language model knows it (the likeliest one if several, where for verbs those seen after a pronoun or modal come first), with the suffix that was '
     'removed, otherwise the lower-case word itself without suffix.',
     ['inputs'], 'every inflected form of a set of stems times every subset of candidate stems known to the language model',
     'test_lemmatizer needs a bigram file that is not shipped', ['normalization/lemmatizer.py', 'utils/text.py',
     'langmodel/language_model.py'], 'ordered suffix rules with language-model arbitration')
prop('C23', 'Spelling variants are standardised to the likelier known form',
     'A word known at least five times is left alone; otherwise a British/American variant (our/or, is/iz, ys/yz, se/ce, ogue/og, ell/el, ae/e, '
     'oe/e) becomes the form whose base is likelier in the language model, inflection kept, and any other word, or one whose variants are all unknown, is returned unchanged.',
     ['inputs'], 'every variant pattern and inflection times every frequency relation', 'test_standardizer cannot run here',
     ['normalization/standardizer.py', 'langmodel/language_model.py'], 'pattern split and language-model arbitration')
prop('C24', 'Past participles follow the irregular table and the spelling rules',
     'For every lemma the past participle is the irregular one if listed; otherwise -y after a consonant becomes -ied, a final -e '
     'gets -d, a vowel and consonant ending gets -ed with or without doubling, whichever is likelier in the language model '
     '(-ed if neither is known), and anything else, of any length, gets -ed.',
     ['inputs'], 'every ending class and length times every frequency relation', 'test_inflector cannot run here',
     ['normalization/inflector.py', 'langmodel/language_model.py', 'utils/text.py'], 'ending rules and best-token lookup')
prop('C25', 'Language model look-ups agree with the model files',
     'The model knows exactly the n-grams of the requested orders whose count reaches the minimum of their order; membership, '
     'minimum-count tests, size, top lists (by falling probability, right order, limited) and the best n-gram of a selection agree with that table, '
     'and unknown n-grams are never preferred to known ones nor returned.',
     ['inputs', 'configurations'], 'every small n-gram table, minimum count and query', 'tests cannot load the model here',
     ['langmodel/language_model.py', 'utils/files.py'], 'dictionary of n-gram details built at load time')
prop('C26', 'The best token is the one that fits its context best',
     'Among candidate words with text before and after, the chosen one has the highest probability of any n-gram of the '
     'highest order containing it and adjacent context, ties going to lower orders; none is chosen if no candidate is known. Next-word suggestions '
     'continue the longest known end of the text, by falling probability.',
     ['inputs'], 'every small n-gram table and context', 'tests cannot load the model here',
     ['langmodel/language_model.py', 'langmodel/token_context.py'], 'windows over the context and tuple comparison')
prop('C27', 'A built model counts every n-gram of the texts exactly once',
     'For every iterator of texts and every number of processes, the built files of orders 1 to the maximum hold each n-gram of adjacent valid words '
     '(letters only, not capitalised except "I") within a sentence, in lower case, with its exact number of occurrences (those whose probability is not above zero are left out), by falling probability, in a form the '
     'language model loads back; the same texts give the same files for every number of processes, and no other file is created or changed.',
     ['inputs', 'configurations'], 'every small corpus, order and number of processes',
     'the builder test only checks an argument error', ['langmodel/language_model_builder.py',
     'langmodel/ngrams_extraction.py', 'langmodel/ngram_store.py', 'langmodel/ngram.py'],
     'batched sentence splitting, counting in a store, one file per order')
prop('C28', 'Smoothed probabilities follow the chosen formula for every corpus',
     'With maximum likelihood, an n-gram\'s probability is its share of the total count of its order (summing to one); with '
     'modified Kneser-Ney, it equals the discounted and interpolated estimate (counts at the highest order of the n-gram, continuation counts below, three discounts per order from the counts of counts), unigrams summing to one, and data '
     'where an order from two up has no n-gram of count 1, 2, 3 or 4 is refused. Neither the number of processes nor the order of the n-grams matters.',
     ['inputs', 'configurations'], 'every small table of counts, order and number of processes',
     'test_mkn_smoother checks one corpus with one process count', ['langmodel/mkn_smoother.py',
     'langmodel/mle_smoother.py', 'langmodel/smoother.py', 'langmodel/ngram.py'], 'vectorised evaluation in slices')
prop('C29', 'A build that fails leaves the existing model files untouched',
     'If reading, splitting, counting or smoothing the texts fails at any point, or the data is refused, the failure is reported and the model '
     'files present before the build are byte for byte unchanged.',
     ['fault_sequences', 'crash_points'], 'a failure at every call the build makes before writing',
     'no test injects failures', ['langmodel/language_model_builder.py'], 'files are written only after all computation')
prop('C30', 'Trees answer all queries consistently after any sequence of insertions',
     'After every sequence of insertions in which each node becomes a child at most once, a tree\'s parent, children, siblings, ancestors, descendants, '
     'first-child, membership, size and arc iteration answers all describe exactly the inserted links, children in order of insertion '
     'per label, and asking (including nested or interrupted iteration) changes nothing.',
     ['histories'], 'every sequence of insertions and queries up to a size', 'no test covers the tree',
     ['utils/tree.py', 'utils/mutables.py'], 'two dictionaries kept in step')
prop('C31', 'Predicates and documents read back exactly what was put in',
     'For every list of arguments, a predicate\'s length, iteration, indexing, code, code search and text forms (with or without negation marks) '
     'show exactly those arguments in order, and each code stands for its part of speech; an argument with an unknown code is refused; a document\'s predicates are '
     'those of its sentences in order.',
     ['inputs', 'histories'], 'every predicate over all codes, words and polarities up to the maximal length',
     'the tests never look at these classes directly', ['semantics/semantic_tuple.py', 'semantics/argument.py',
     'semantics/argument_code.py', 'pipeline/document.py', 'pipeline/sentence.py', 'exceptions.py'],
     'thin containers around argument tuples')
prop('C32', 'Saved character and word tables load back to the same codes and vectors',
     'Every character code table built and saved gives, once loaded, one distinct code per supported character and one further code for all '
     'others; a saved word table holds exactly the known words of the vector file with their vectors, found regardless of case; set and dictionary files '
     'load one entry per line; each network loads the weights it saved last.',
     ['inputs', 'histories'], 'every save/load sequence and every character', 'no test touches these tables',
     ['syntax/charset.py', 'syntax/wordset.py', 'utils/files.py'], 'pickled dictionaries')
prop('C33', 'Dividing, batching and collecting keep every item, in order',
     'Dividing a list into n parts gives min(n, length) consecutive non-empty parts whose lengths differ by at most one and which join to the list; batches of n are consecutive and '
     'full but for the last; items added to a dictionary of lists or of dictionaries of lists stay under their keys in the order added, and only there; reversing a dictionary of '
     'distinct values maps each value to its key.',
     ['inputs', 'histories'], 'every length and number of parts up to a bound, every sequence of additions up to a depth',
     'a rounding error only shows at some combinations of length and number', ['utils/mutables.py'],
     'parallel work, batches for the networks, trees, language model tables and chunks are all built with these helpers')
prop('C34', 'Timers report exactly the time that has passed',
     'However laps and totals of any number of timers are read, a lap is the time since the previous reading of that timer (or since it was made) and a total the time since it was made, '
     'shown as hours:minutes:seconds without fractions.',
     ['histories', 'schedules'], 'every sequence of waiting, laps and totals up to a depth', 'the tests never read a timer, and real time does not repeat',
     ['utils/timer.py'], 'the time a build took is printed for every step')
prop('C35', 'Words and marked texts are taken apart the way they are put together',
     'A word\'s start before an ending is given exactly when the word ends so and the start is not empty and long enough; its prefix and base join to the word (at its only hyphen, otherwise the first listed '
     'prefix it starts with); an ending is doubled exactly when a vowel (y included) precedes a twice written consonant; letter tests look at every character. Texts marked by associating two words, attaching '
     'attributes or naming a function read back as the parts put in, in order, without the missing ones; what is not an associated pair reads back as none.',
     ['inputs'], 'every word up to a length over kinds of letters, every list of parts up to a length', 'the tests reach the helpers through a few words and the marking helpers not at all',
     ['utils/text.py'], 'lemmatizing and n-gram filtering are built from these decisions')

out = pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl'
out.write_text(''.join(json.dumps(p, ensure_ascii=False) + '\n' for p in P))
