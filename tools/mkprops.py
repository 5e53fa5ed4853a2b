import json
P=[]
def p(id,title,stmt,over,text,why,files,mech):
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},
      "why_tests_cant":why,"anchors":{"files":files,"mechanism":[{"name":mech,"where":", ".join(files)}]}})
T="The unit test trains two-word toy corpora of some 20 tokens and looks only at perplexities below loose thresholds; "
p("C01","Training counts are exactly those of the text","For every training text, order and smoothing type, the written count tables of an unpruned model are exactly the ones the Kneser-Ney (or absolute) recursion defines: the highest order (and the n-grams at the start of the text or, with history clearing, of each sentence) holds the numbers of occurrences, every lower order the numbers of distinct left extensions (with absolute discounting: occurrences), and each context its total and its numbers of distinct continuations (by 1, 2, 3-or-more with three discounts). Words outside a given vocabulary are counted as the unknown word; otherwise the vocabulary is every word of the text in order of appearance. Whitespace layout, 16- or 32-bit words, 32- or 64-bit counts and the hash size change nothing.",
 ["inputs","configurations"],"every text, order, vocabulary and combination of -n -A -C -3 -B -s -L -H of counts2kn",T+"no count is ever looked at",
 ["src/MultiOrderCounts_tmpl.hh","src/InterKn_tmpl.hh","app/counts2kn.cc","src/sparse_matrix.c","src/Vocabulary.cc"],
 "InitializeCountsFromText/Storage fill the highest order; estimate_bo_counts and estimate_nzer_counts derive the rest; all through sikMatrix")
p("C02","Every conditional distribution of a trained model sums to one","For every model that counts2kn or varigram_kn writes (any smoothing, any number of discounts, discounts optimized, estimated or forced, pruned, cut off or grown, interpolated or back-off form), and for every context of that model, the probabilities of all words of the vocabulary sum to one up to rounding, and every single probability lies between 0 and 1.",
 ["inputs","configurations"],"every training text, option combination and context",T+"probability sums are not computed for trained models except one interpolated pair",
 ["src/InterKn_tmpl.hh","src/VarigramFuncs_tmpl.hh","src/MultiOrderCounts_tmpl.hh","src/TreeGram.cc"],
 "den = sum of counts + prune mass; nzer = number of continuations; prune_gram/add_gram keep both; convert_to_backoff")
p("C03","Pruning removes what it must and keeps the books","After pruning, cutoffs or removal of unknown words, the count tables are the unpruned tables with exactly the missing n-grams taken out one by one: each hands its count to the back-off mass of its context and (unless cutoffs are discarded) restores the lower-order count it was hiding. No n-gram of order two or more with a count at or below its cutoff, or with an unknown word when those are to be removed, survives; without a threshold, cutoff or such request nothing is removed. Any other n-gram is removed only if its removal costs no more log-probability than the threshold allows.",
 ["inputs","configurations"],"every text and every combination of -p -O -D -N -r -A -3 -C",T+"pruning is never run by the tests",
 ["src/InterKn_tmpl.hh"],"InterKn_t::prune_model, remove_gram, prune_gram, model_cost deltas")
p("C04","Growing adds whole contexts and stays consistent","A model grown by varigram_kn holds, before pruning, for each context either all of its continuations seen in the data or none, each with its number of occurrences less what the higher orders took over; no n-gram exceeds the given maximum order; the totals of every context agree with the counts below it. Pruning afterwards follows the same bookkeeping as for full models.",
 ["inputs","configurations"],"every text and every combination of -D -E -n -A -3 -C -s -L -S -G -O -N -r",T+"grown models are only evaluated on their own three-phrase training text",
 ["src/VarigramFuncs_tmpl.hh","src/InterKn_tmpl.hh"],"Varigram_t::grow, reset_hist/hgram loop, modify_model, IncrementCountCache/UndoCached")
p("C05","Vocabulary selection keeps exactly the requested words","With nfirst and ndrop, the vocabulary of the trained model holds precisely the most frequent words: at most nfirst of them, none seen fewer than ndrop times, none left out that is more frequent than one kept, and all words satisfying both when nfirst does not bind; a given vocabulary file is taken as it is. Every other word of the text is treated as the unknown word in all counts, for either word size and for both training programs.",
 ["inputs","configurations"],"every text, nfirst, ndrop, vocabulary file, -s",T+"neither -f nor -d is exercised",
 ["src/NgramCounts_tmpl.hh","src/InterKn_tmpl.hh","src/VarigramFuncs_tmpl.hh","src/Vocabulary.cc"],"NgramCounts_t::shrink, constructor_helper, Varigram get_unigram_counts, Vocabulary::read")
p("C06","Written probabilities are the smoothing formula of the counts","In the model file, the probability of each listed n-gram equals (count - discount)/total plus the context's interpolation weight times the probability given the shorter context (unigrams: an equal share over the vocabulary), where the weight is (discounted mass + pruned mass)/total; without held-out data the discounts are the leave-one-out estimates of the unpruned counts. The file lists every counted n-gram, all prefixes of those and every word of the vocabulary, and a back-off weight exactly where longer n-grams follow.",
 ["inputs","configurations"],"every text and option combination, back-off and interpolated ARPA output",T+"probabilities are only seen through perplexities of near-deterministic texts",
 ["src/InterKn_tmpl.hh","src/TreeGram.cc","src/GramSorter.cc"],"kn_prob, kn_coeff, tableprob, calculate_leaveoneout_discounts, counts2lm, counts2asciilm, add_zeroprob_grams")
p("C07","Lookup follows the longest match","For every model and every word sequence, the reported log-probability is that of the longest stored suffix with the back-off weights of the stored contexts in between (back-off models), or the sum over all suffix lengths of stored values weighted by the products of the weights (interpolated models); the reported matched order is the length of that suffix; tree and hash representation agree. The answer does not depend on the query history before it.",
 ["inputs","histories"],"every well-formed model, every query sequence, both representations",T+"lookups are done on models with at most three words, through perplexity only",
 ["src/TreeGram.cc","src/HashGram_tmpl.hh","src/NGram.hh"],"TreeGram::log_prob_bo/log_prob_i with the iterator cache; HashGram_t::log_prob_bo_helper")
p("C08","Models survive every round trip","Writing any model as ARPA or binary, plain or compressed, and reading it again gives the same vocabulary, the same n-grams and the same values up to the printed precision (binary: exactly); converting arpa to bin to arpa again gives an identical file; the announced numbers of n-grams are the numbers listed.",
 ["inputs","configurations"],"every model and every chain of arpa2bin, bin2arpa, arpa2arpa, perplexity loading, hash and tree",T+"the tests write ARPA only and read it once; the binary format is not tested",
 ["src/TreeGram.cc","src/TreeGramArpaReader.cc","src/ArpaReader.cc","src/HashGram_tmpl.hh","src/Vocabulary.cc","app/arpa2bin.cc","app/bin2arpa.cc"],"TreeGram::write/read, TreeGramArpaReader, ArpaReader")
p("C09","Interpolated models become equivalent back-off models","Reading an interpolated model and writing it in standard back-off form (arpa2arpa) gives a model that assigns every word sequence the same probability as the interpolated one (which is normalized or falls short of it), in which all listed probabilities are complete and all contexts sum to one when those of the original did.",
 ["inputs"],"every interpolated model, all queries",T+"one conversion is done on a two-word model inside a larger test, with a loose bound",
 ["src/TreeGram.cc","src/TreeGramArpaReader.cc","app/arpa2arpa.cc"],"TreeGram::convert_to_backoff, add_missing_unigrams, write_real")
p("C10","Perplexity accounts for every token exactly once","For any text and options, every token is either scored, dropped as unknown, or skipped as an ignored context cue or known initial token; the reported numbers of each add up, the log-probability is the sum of the scored tokens' log-probabilities given the tokens before them, the word count follows the word-break or morph marks, and perplexity and bits are those sums normalized; the probability stream holds one entry per token.",
 ["inputs","configurations","histories"],"every model, text and combination of -C -W -X -u -t -S -U and pre/postfix marks",T+"only plain one-sentence texts without unknown words or options are evaluated",
 ["src/PerplexityFuncs.cc","app/perplexity.cc"],"Perplexity::logprob_file, sentence_logprob, token_logprob, add_to_history, print_results, init_special_symbols")
p("C11","Interpolated evaluation mixes the two models","Evaluating with a second model and coefficient c gives each word c times the second plus 1-c times the first model's probability, each model looking the words up in its own vocabulary (a word only one of the models knows gets nothing from the other); c = 0 and c = 1 reproduce the single models and mixing a model with itself changes nothing.",
 ["inputs","configurations"],"every pair of models (different orders and vocabularies), coefficient and text",T+"two two-word models at three coefficients, with bounds of several percent",
 ["src/PerplexityFuncs.cc","src/InterTreeGram.cc"],"Perplexity::set_interpolation/set_alpha, InterTreeGram::log_prob")
p("C12","Model interpolation to ARPA keeps union and normalization","simpleinterpolate2arpa writes a model whose n-grams are the union of those of the inputs with their probabilities mixed linearly by the given positive weights under each input model's own back-off lookup, and whose back-off weights make every context of the result sum to one when the inputs did; for two models their order on the command line (with their weights) does not matter.",
 ["inputs","configurations"],"every list of back-off models and weights",T+"two models of two words, sums for five contexts",
 ["src/HashGram_tmpl.hh","src/InterTreeGram.cc","app/simpleinterpolate2arpa.cc"],"HashGram_t::fake_interpolate, copy_probs, renormalize, remove_empty_grams")
p("C13","The sparse count matrix is a map","Under any sequence of set, increment, read, remove, sorted or unsorted stepping and removal of default values, with any table size, key length and value type, the sparse matrix behaves as a finite map whose absent keys read as the default: reads return the last value, stepping (one at a time, adding nothing meanwhile) visits each stored key exactly once (sorted: in the order of the bytes of the keys), also while the visited keys are deleted, and removing defaults removes exactly those.",
 ["histories","inputs"],"every operation sequence, dimension and (tiny to large) hash size",T+"the matrix is only used through training of toy texts with 100 slots",
 ["src/sparse_matrix.c","src/sparse_matrix_pinline.h","src/sikMatrix.hh"],"open hash with chained entries, swap-removal, resizing, step indices")
p("C14","Tentative count changes undo completely","Between a reset of the caches and an undo, any sequence of tentative count and back-off increments can be undone, after which all counts, totals, numbers of continuations and the sets of n-grams and contexts themselves are as they were at the reset; if a new reset comes instead they are all in effect. Direct updates of entries that were there at the reset and stay hold either way, however they are interleaved with the tentative ones. At every moment reading and stepping show the sum of what was set and added.",
 ["histories"],"every history of direct and cached increments, reset and undo",T+"never tested directly",
 ["src/MultiOrderCounts.hh","src/MultiOrderCounts_tmpl.hh","src/VarigramFuncs_tmpl.hh"],"IncrementCountCache, IncrementBackoffCache, ResetCaches, UndoCached, min/max caches")
p("C15","Written counts reproduce the model","A count file with its vocabulary holds the whole state of a training run: training from it instead of the text gives the same counts and the same smoothing formula over them, for either number of discounts, and pruning resumed from it does exactly what pruning the run itself would have done; when nothing was pruned before writing, the model is the same. Files of counts2kn and varigram_kn alike can be taken up. A file with only highest-order counts gives the lower orders derived from those n-grams by the same recursion as from a text (n-grams at the start of a text are not in such a file); repeated entries add up and the order of entries means nothing.",
 ["inputs","configurations"],"every text, table of highest-order counts and option combination; -W -U then -c -B (with -p -O -D -N -r -R), and -Z -B",T+"count files are never written or read by the tests",
 ["src/MultiOrderCounts_tmpl.hh","src/InterKn_tmpl.hh","src/NgramCounts_tmpl.hh","app/counts2kn.cc"],"WriteCounts, ReadCounts, NgramCounts_t::read, constructor_helper read_counts, UseAsCounts")
p("C16","Completing a model with missing n-grams changes no probability","Models written by the programs contain with every n-gram all its prefixes; add_zeroprob_grams and the readers add missing prefixes (and missing unigrams) so that every file is readable, leaving every probability the model assigns unchanged (for models whose listed probabilities exceed 1e-60, which is what the programs take for zero).",
 ["inputs"],"every back-off model including ones with missing prefixes",T+"not tested",
 ["src/HashGram_tmpl.hh","src/TreeGramArpaReader.cc","app/add_zeroprob_grams.cc"],"HashGram_t::add_zeroprob_grams, TreeGram::add_missing_unigrams")
p("C17","Command lines mean what the option table says","For every table of options and every command line, short options (also joined, values following in order), long options, '=' values, separate values and the '--' end mark are taken exactly as declared, and two spellings of one command line do the same; arguments keep their order; unknown options, missing values, values for options that take none, numbers that are none or do not fit, and wrong numbers of arguments are refused with an error status before any file is touched. Configuration files are split at white space outside backslash, single and double quotes, and mean what the command line would.",
 ["inputs","configurations"],"every option table and argument vector, and configuration files",T+"the command-line parser is not tested",
 ["src/conf.cc","src/conf.hh","src/str.cc"],"conf::Config::parse, parse_aopt, read")
p("C18","A file's name decides its transport, not its content","For all programs, texts, vocabularies, counts and models given as plain, .gz or .bz2 files (whatever other characters their names hold), through a '|' pipe, or, where they are read only once, as '-', give the same results, and so do outputs written in these ways. A file that is missing, a directory, a truncated or not compressed .gz or .bz2 file, a command that cannot be run, an output directory that does not exist and a full disk end the program with an error exit, never with an empty or partial result and exit status 0. A stream object can be opened, read, written, closed and opened again in any order with the same guarantees, and refuses '-' and pipes where it is asked for more than they can do.",
 ["inputs","configurations","fault_sequences"],"every program, transport, file name and missing, damaged or unwritable file",T+"only plain files are used",
 ["src/io.cc","src/io.hh","app/counts2kn.cc","app/varigram_kn.cc","app/perplexity.cc","app/simpleinterpolate2arpa.cc"],"io::Stream::open by suffix, popen, close")
p("C19","Storage choices do not change the model","The same training run with 16-bit (up to 64000 words) or 32-bit words, int or long counts, any hash size and any layout of the text's white space produces the same vocabulary, counts and model, for counts2kn and varigram_kn; so does varigram_kn with the data in memory or read again from the file (-S), as long as nothing is pruned. Reading the data from memory and from the file finds the same words after every history, exactly those that follow it in the text. With long counts, counts beyond the range of an int are kept exactly.",
 ["configurations","inputs"],"every text and option combination, over -s -L -S -H and text layouts",T+"one instantiation each is tested",
 ["src/InterKn_tmpl.hh","src/VarigramFuncs_tmpl.hh","src/MultiOrderCounts_tmpl.hh","src/Storage_tmpl.hh","app/counts2kn.cc","app/varigram_kn.cc"],"template instantiations over <KT, ICT>, Storage with and without data in memory")
p("C20","Look-ahead lists equal individual lookups","The look-ahead score lists (all words after a history; all word pairs) a decoder fetches from a model hold for every word exactly the log-probability that looking that word up alone gives.",
 ["inputs","histories"],"every back-off model and history",T+"look-ahead lists are never fetched in tests",
 ["src/TreeGram.cc","src/HashGram_tmpl.hh","src/NGram.hh"],"fetch_bigram_list, fetch_trigram_list, initialize_fast_search_lists")
p("C21","Broken model files are refused","A model file that is cut short, announces other n-gram counts than it lists, has lines with missing or unparsable fields, sections missing, repeated or out of order, n-grams of unknown words (in the readers that check them) or, if binary, impossible orders, counts, word numbers or ranges of children, is refused with an error by every program that reads the model; it never yields a model silently, a crash, an endless run or unbounded memory. Every well-formed file is read and gives the n-grams it lists. (arpasize -S reads only the header and refuses broken headers; numbers in unusual notation, text after the end, and a wrong magic string of the right length in a binary model may be taken or refused.)",
 ["inputs","fault_sequences"],"every single-edit corruption and truncation point of small files, and random corruption of larger ones",T+"only well-formed files are read",
 ["src/ArpaReader.cc","src/TreeGramArpaReader.cc","src/InterTreeGram.cc","src/HashGram.cc","src/TreeGram.cc","src/GramSorter.cc","src/str.cc","app/arpasize.cc"],"ArpaReader::read_header/next_gram errors, TreeGram::read/check_nodes, GramSorter")
p("C22","Model statistics and checks tell the truth","arpasize reports, per order and in total, exactly the n-grams of a model that say something: those with a back-off weight of their own, or with another probability than backing off gives (book-keeping n-grams are left out), and the same numbers for the model's text and binary forms; with -S the numbers of the header. check_model -d reports exactly the contexts of a text after which the probabilities of the whole vocabulary do not sum to one (one per cent too little, 0.1 % too much), for any reader; without -d it reports every word's probability after the given context, their sum and the two most probable words.",
 ["inputs"],"every back-off or interpolated model, normalized or with a perturbed value, and every text",T+"these programs are never run by the tests",
 ["app/arpasize.cc","app/check_model.cc","src/TreeGram.cc","src/HashGram.cc"],"dummyless_count against ClassLog/ClassLin; check_gram's sums against Total/Fails")
p("C23","Scaling to a size ends at that size","varigram_kn with a target size (-V) always ends, with a model of at most 1.03 times the asked number of n-grams or, if that is below the number of words, with the unigrams alone; a model that is within the target as grown stays as it is, and none is pruned further once it is within the target. The n-grams of the result are among those grown, no unigram is lost, and the totals of every context agree with the counts below it.",
 ["inputs","configurations"],"every text, target size (also below the vocabulary size) and combination of -D -n -A -3 -C -s -L -S -H -O -N",T+"the target size is never used",
 ["src/VarigramFuncs_tmpl.hh","src/InterKn_tmpl.hh","src/InterKn.hh"],"Varigram_t::prune against SizeTarget.tla; prune_model, num_grams")
p("C24","The vocabulary numbers words one to one","Under any sequence of adding words, looking up, reading word lists, writing, copying and renaming the unknown word, the vocabulary gives every word it holds one number, in order of arrival and kept from then on, and gives the word back for the number; every other word gets number 0. A word list is read one word per line, without the blanks around it and cut at the first blank or opening bracket after its first character, in any of the forms people write (carriage returns, no line feed at the end, blank lines, words repeated); what is written reads back as the same vocabulary with the same numbers. A copy is independent of the vocabulary it was made from.",
 ["histories","inputs"],"every operation sequence, words of any bytes but NUL, any word list",T+"only vocabularies of three plain words are used, and no word list",
 ["src/Vocabulary.cc","src/Vocabulary.hh"],"add_word, word_index, word, set_oov, clear_words, read, write, copy_vocab_to against Vocabulary.tla")
p("C26","A library user gets what the programs give","A program that links the library (or the Python module) and keeps one evaluator gets, for any sequence of calls - single tokens, words, sentences and whole texts, clearing the history, setting the length of the known initial history, forgetting the hit rates, asking for the counts in between - what the perplexity program would give for the same tokens: a sentence split at any white space costs the negated sum of its tokens' log-probabilities, a text adds to the sum of all texts read, clearing forgets the words and not the counts, and the counts and hit rates cover every token exactly once. It does not matter whether the model comes from a file, from a binary file by its name, from a model object in memory or as a mixture of one. Training through the library gives the same model as varigram_kn with the same options.",
 ["histories","configurations"],"every sequence of calls, way of making the evaluator and training option",T+"the library tests make two or three calls each on one model",
 ["src/PerplexityFuncs.cc","src/PerplexityFuncs.hh","src/VarigramFuncs.hh","python-wrapper/VariKN.i","src/NGram.hh"],"token_logprob, word_logprob, sentence_logprob, logprob_file, clear_history, set_init_hist, reset_hitrates, get_hitorder against Evaluator.tla; Varigram setters and write_file")
p("C25","Held-out optimisation (-o) finds discounts that are no worse","With a held-out text the trainers look for the discounts under which the known words of that text are, on the mean, most probable: every point tried lies within the limits (0 to 1, or 0 to j for the discount of n-grams seen j times) and is measured as the smoothed model of those discounts measures the text; the search starts at the leave-one-out discounts (or where the last search ended, after pruning), ends after a bounded number of tries, never ends worse than it started and leaves the discount it tuned last at its best; counts stay as they are and the model written uses the discounts found.",
 ["inputs","configurations"],"every training text, held-out text and option combination, and every convex measure for the search alone",T+"no test optimises on held-out text",
 ["src/QFit.cc","src/QFit.hh","src/InterKn_tmpl.hh"],"QFit::minimize, check_limits; evaluate, find_coeffs, logprob_datastorage, flatv2disc, disc2flatv against HeldOut.tla")
p("C27","A walk over a model meets every n-gram once, in order","A walk over the n-grams of a model visits each of them exactly once, every context before its continuations and those in the order of the words' numbers; asked for one order only, exactly the n-grams of that order. Moving sideways stays among the continuations of one context, stepping up and down changes between a context and its first continuation, and setting the walk on an n-gram puts it there or on the longest prefix there is. A step that is not possible says so and leaves the walk where it was, and at every place the walk shows the n-grams on its path with their values.",
 ["inputs","histories"],"every model and sequence of walk operations",T+"no test walks over a model",
 ["src/TreeGram.cc","src/TreeGram.hh"],"TreeGram::Iterator::next, next_order, move_in_context, up, down, has_children, node and TreeGram::iterator against Walk.tla")
p("C28","Broken files of counts are refused","A file of counts that is not complete and well-formed - cut short, with a line, number, bracket or section missing, misplaced or damaged, with a number no word has or a count that cannot be one, with n-grams whose context has no totals, written for another kind of discounting, or without any count - is refused with an error: training neither crashes nor hangs nor goes on to write a model from a part of it. Every complete file, as the trainers write it or with its entries and lines differently spaced and ordered, is taken, and writing the counts again gives the same tables.",
 ["inputs","fault_sequences"],"every file of counts, every place where one is cut or damaged, smoothed or highest-order counts",T+"no test reads a damaged count file",
 ["src/MultiOrderCounts_tmpl.hh","src/MultiOrderCounts.hh","src/NgramCounts_tmpl.hh","src/InterKn_tmpl.hh"],"MultiOrderCounts_Generic_BOT::ReadCounts, WriteCounts, ReadCounts_BOhelper, read_num; NgramCounts_t::read; constructor_helper against CountText.tla")
p("C29","Size changes nothing","What holds for small inputs holds for large ones, with no silent limit in between: texts of hundreds of thousands of words over vocabularies beyond 2^16 words, contexts with more than 2^16 different continuations, n-grams of dozens of words, and (with -L) counts beyond 2^32 get the same counts and totals the definition gives; models of that size, read from text or binary files with their n-grams in any order, converted and written again, have all their words and n-grams and answer every query as the back-off definition says, in every representation that takes them; and long texts are scored word for word, the total being the sum.",
 ["inputs"],"every size of vocabulary, text, count, order and number of continuations that memory and the chosen number types hold",T+"tests use texts of a few words and models of a few n-grams",
 ["src/sikMatrix.hh","src/sparse_matrix.c","src/MultiOrderCounts_tmpl.hh","src/InterKn_tmpl.hh","src/GramSorter.cc","src/TreeGram.cc","src/TreeGramArpaReader.cc","src/HashGram_tmpl.hh","src/PerplexityFuncs.cc"],"sparse matrices and their growth, count and total types, GramSorter, TreeGram::binary_search and node indices, HashGram key types, Perplexity::logprob_file against Scale.tla")
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
