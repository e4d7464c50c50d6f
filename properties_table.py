I = ["inputs"]
IC = ["inputs", "configurations"]
A = "src/asclite/core/"
S = "src/sclite/"
prop("C01", "sclite alignments are faithful readings of both texts and minimal-cost",
     "For every pair of transcripts, including nested alternations, optional words and fragments, the alignment sclite reports uses exactly one reading of the reference and one of the hypothesis, labels every pair Correct/Substitution/Deletion/Insertion truthfully, and has the minimum total cost (0 correct, 4 substitution, 3 insertion or deletion, 2 for an unmatched optional word) over all readings and alignments. Optional words (-D) that are left unmatched count as correct, and fragments (-F) match the words they are part of.",
     IC, "all transcript pairs, alternation nesting and option combinations (-s, -D, -F)",
     "The test suite compares a few fixed transcripts with stored output; optimality quantifies over every network pair and every alternative alignment.",
     [S + "net_dp.c", S + "net_adt.c", S + "word.c", S + "align.c"],
     [("network DP and trace-back", S + "net_dp.c"), ("word costs and equality", S + "word.c")],
     ["sclite -o sgml / pralign output"],
     "property-based testing against an exhaustive reference DP over both word networks",
     "Random search with an independent oracle; tens of thousands of alignments per run. Assumes the documented word distances.")
prop("C02", "sclite reports state exactly what the alignments contain",
     "Every number in sclite's summary (percent and raw), per-speaker, per-sentence and detailed reports, and every alignment printout, equals what the reported alignments give: per-speaker and total counts, percentages, mean, standard deviation and median over speakers, confusion-pair/insertion/deletion/substitution lists with their counts. The printed alignments show the same words and scores at any line width.",
     IC, "all transcripts, speaker partitions and report/option combinations",
     "Stored reports cover a few data sets; consistency must hold for every partition of errors over speakers, including empty ones, and every word length.",
     [S + "scores.c", S + "path.c", S + "statdist.c", S + "rpg.c", S + "memory1.c"],
     [("score accumulation", S + "scores.c"), ("summary tables", S + "scores.c"), ("alignment printing", S + "path.c")],
     ["sclite -o sum rsum spk snt dtl pralign prf"],
     "property-based testing: report numbers recomputed from the SGML alignments",
     "Random search; the arithmetic is redone independently from the alignments of the same run (whose correctness is C01).")
prop("C03", "trn scoring pairs utterances by id and never silently loses one",
     "For trn input, every hypothesis utterance is scored against the reference with the same utterance id, exactly once and under the speaker named by the id convention, whatever the order of the two files; comments, blank lines and a missing final newline change nothing. Duplicate ids with different text, hypothesis utterances without a reference and references without hypothesis are reported as errors or warnings, never dropped silently.",
     IC, "all pairs of trn files: orders, subsets, duplicates, comments, id conventions",
     "Tests use complete, consistently ordered files; losing an utterance depends on order, position and file ending.",
     [S + "align.c", S + "order.c", S + "llist.c", S + "text.c"],
     [("utterance loading and pairing", S + "align.c")],
     ["sclite -o sgml, exit status and messages"],
     "property-based testing against a dictionary model of id pairing",
     "Random search over file pairs with an exact model of which utterances must be scored.")
prop("C04", "stm/ctm scoring assigns each hypothesis word to the right segment once",
     "When a ctm hypothesis is scored against an stm reference, every hypothesis word is scored exactly once, in the segment of its file and channel that contains its midpoint or is nearest in time as documented, and every reference segment is scored under its speaker with its label; segments marked IGNORE_TIME_SEGMENT_IN_SCORING and their words are left out. Missing or extra files/channels are detected, and -m ref/hyp reduces exactly the side named.",
     IC, "all stm/ctm pairs: times, gaps, alternations, channels, ignored segments, comments",
     "Boundary cases (word across two segments, alternation at the channel's edge, unterminated last line) are unbounded in number; the tests hold a few files.",
     [S + "stm.c", S + "stm2ctm.c", S + "mark.c", S + "net_adt.c"],
     [("chopping ctm words into stm segments", S + "stm2ctm.c"), ("stm parsing", S + "stm.c")],
     ["sclite -o sgml for stm/ctm input"],
     "property-based testing against a reference segmentation model plus the C01 alignment oracle",
     "Random search; times are multiples of a coarse grid so that ties are generated often.")
prop("C05", "ctm/ctm scoring covers every word; time-mediated alignment is time-optimal",
     "When both sides are ctm files, every word of both is scored exactly once within its own file and channel, with a minimum-cost alignment; with -T the alignment minimises the documented time-based distance (differences of begin and end times for pairs, durations for unpaired words). Files or channels missing on one side are detected.",
     IC, "all pairs of ctm files: channels, times, alternations, -T on or off",
     "Word-to-channel bookkeeping depends on chunk boundaries and on which side ends first; tests contain one or two files.",
     [S + "ctm2ctm.c", S + "align.c", S + "word.c", S + "net_dp.c"],
     [("chunking both word streams", S + "ctm2ctm.c"), ("time-mediated distance", S + "word.c")],
     ["sclite -r ref ctm -h hyp ctm [-T] -o sgml"],
     "property-based testing against a channel-partition model and a time-cost DP",
     "Random search; alignment optimality is decided per chunk by the reference DP.")
prop("C06", "alignments saved as SGML reproduce every report exactly",
     "Any scoring run saved with -o sgml and read back by sclite -P or -p yields byte-identical reports (summary, raw, per-speaker, per-sentence, detailed, alignments, SGML itself): no word, time, confidence, weight, label or flag is lost or altered by the round trip.",
     IC, "all scoring runs over words without double quotes or backslashes",
     "A round trip must hold for every transcript, option set and annotation; tests read back a handful of stored files.",
     [S + "scores.c", S + "path.c", S + "sgml.c", S + "sclite.c"],
     [("SGML dump and load", S + "scores.c"), ("path text encoding", S + "path.c")],
     ["sclite -o ... versus sclite -P -o ..."],
     "round-trip property-based testing (direct reports versus reports through SGML)",
     "Random search; byte comparison of up to ten reports per run.")
prop("C07", "word-weight scoring uses the given weights and minimises weighted error",
     "With -w FILE or -w unity, every word carries the weight the list gives it (default weight if missing, sum over the parts of a compound word, zero if optional), the chosen alignment has the minimum total weight of errors over all readings, and the weighted summary's percentages are the weight sums of correct, substituted, deleted and inserted words over the reference weight.",
     IC, "all weight lists and transcript pairs",
     "Tests hold one weight list; optimality under arbitrary real weights and totals over speakers need generated inputs.",
     [S + "word.c", S + "net_dp.c", S + "scores.c"],
     [("weight lookup and distance", S + "word.c"), ("weighted summary", S + "scores.c")],
     ["sclite -w -o sgml wws"],
     "property-based testing against a weighted reference DP and recomputed totals",
     "Random search with fractional weights. The totals row is a listed known finding (truncated running sums), accepted only when it equals that truncation exactly.")
prop("C08", "case folding, encodings and character alignment follow the language",
     "In every supported encoding (default, ASCII, EXT_ASCII, GB/EUC, UTF-8) and language profile, case-insensitive scoring equates exactly the upper- and lower-case letters of ASCII and of that language's alphabet, and -s compares exactly. With -c every word is scored as its sequence of characters (ASCII runs kept whole with NOASCII, hyphens gone with DH), optional words as optional characters, a ctm word's time divided equally, and the alignment is minimal over those characters.",
     IC, "all transcripts over all letters of the encodings and profiles, word or character alignment, trn or stm/ctm",
     "Tests hold a sentence per language; folding must be right for every letter and splitting for every mixture of scripts, hyphens and alternations.",
     [S + "text.c", S + "align.c"],
     [("case tables and multi-byte text", S + "text.c"), ("expansion of words into characters", S + "align.c")],
     ["sclite -e ENC [PROFILE] [-s] [-c [NOASCII] [DH]] -o sgml"],
     "property-based testing against per-language alphabets and an exhaustive reference DP over characters",
     "Random search; every letter of each profile is drawn many times per run.")
prop("C09", "inferred word segmentation is lexicon-faithful and minimal-cost",
     "With -S algo1 or algo2 and a lexicon, the re-segmented side of every alignment is a concatenation of the transcript's characters into single characters or lexicon words only, no character is lost, added or moved, the other side is a faithful reading of its transcript, and the alignment has the minimum cost over all such segmentations.",
     IC, "all lexicons and transcript pairs in GB and UTF-8, with and without case folding",
     "Segmentation is a search over a lattice that grows with the lexicon; tests hold one short example.",
     [S + "net_adt.c", S + "align.c", S + "net_dp.c"],
     [("lattice expansion from the lexicon", S + "net_adt.c"), ("lexicon lookup", S + "net_dp.c")],
     ["sclite -S algo1|algo2 LEXICON -o sgml"],
     "property-based testing against an exhaustive reference DP over the segmentation lattice",
     "Random search over small lexicons and alphabets so that overlapping words are common.")
prop("C10", "diff-based scoring loses no word and chunks at reference boundaries",
     "With -d, or an stm reference and a txt hypothesis, every reference word appears once in its own segment and every hypothesis word appears once overall and in order; each word's label is truthful, the matched words are those a diff of the two word lists matches, and a segment's hypothesis chunk ends with its last reference word (the last segment takes the rest).",
     IC, "all trn/trn, stm/ctm and stm/txt pairs, including empty sides and unterminated files",
     "Dropping words at a segment or file boundary depends on where mismatches fall; tests use two files.",
     [S + "align.c", S + "stm2ctm.c", S + "path.c"],
     [("reading diff's output back into alignments", S + "align.c")],
     ["sclite -d -o sgml"],
     "property-based testing against a word-conservation model and an independent diff run",
     "Random search; words at most 40 bytes, none of diff's column markers, GNU diff itself trusted.")
prop("C11", "confidence analyses are computed from the word confidences and labels",
     "The normalised cross entropy of each speaker and of the whole, the DET curve and the (binned, scaled) confidence histograms equal what the confidences of the hypothesis words and their correct/incorrect labels give, for one system or several, whatever the distribution; systems without confidences get no such report.",
     IC, "all confidence assignments in [0,1], speaker partitions and one to three systems",
     "Numeric reports over arbitrary real data with degenerate cases (all right, all wrong, ties, 0 and 1); tests have one file.",
     [S + "det.c", S + "sclite.c", S + "scores.c"],
     [("entropy, DET and histograms", S + "det.c")],
     ["sclite -o sum -C det bhist hist sbhist; sc_stats -g det"],
     "property-based testing: entropy, DET points and histogram bins recomputed from the input confidences",
     "Random search; NCE checked where it is defined; DET deviates within 2e-3.")
prop("C12", "Labelled utterance reports hold the counts of each subset, by label and speaker",
     "For every reference whose segments carry subset labels, the alignment file keeps each segment's labels and their definitions, and the labelled utterance report shows for each speaker (sclite) or system (sc_stats) and each defined label the number of reference words and the word error rate of exactly the segments with that label, the overall rate, and the mean, standard deviation and median over the speakers with reference words; speakers with only insertions are shown by count. Columns come in the order of definition, under their category.",
     I, "all stm files with labels and categories, all sets of systems: number of labels, unlabelled segments, empty subsets, speaker orders",
     "Subset membership multiplies with speakers, empty cells and several systems; tests cover one label file with full tables.",
     [S + "lur.c", S + "scores.c", S + "stm.c", S + "rpg.c"],
     [("tables", S + "lur.c"), ("label definitions", S + "scores.c"), ("label field", S + "stm.c")],
     ["sclite -o lur sgml", "sc_stats -r lur"],
     "property-based testing: reports recomputed from labelled alignments",
     "Random search; every label defined, at most 22 labels.")
prop("C13", "sc_stats significance tests compute their statistic and name the right system",
     "For every set of systems scored on the same utterances, each test of sc_stats (matched-pairs sentence segment, sign, Wilcoxon signed rank, McNemar, analysis of variance by ranks) pairs speakers and utterances by name, computes its documented statistic and two-tailed significance level, declares a difference exactly when the level is below 0.05, and names the system that the statistic favours. The unified matrix, the per-system .sts files and the detailed reports agree.",
     IC, "all sets of two or more systems: error patterns, speaker counts and orders, ties, -f E/R/W",
     "Statistics must be right for every table of counts, including ties, zero differences, large samples and unequal speaker orders; tests compare one matched-pairs report.",
     [S + "mtchprs.c", S + "sentmcn.c", S + "signtest.c", S + "wilcoxon.c", S + "anovar.c", S + "rank.c", S + "statdist.c", S + "sc_stats.c"],
     [("distributions", S + "statdist.c"), ("per-speaker percentages", S + "rank.c"), ("segmentation", S + "mtchprs.c")],
     ["sc_stats -p -t std4 anovar [-u] [-v] [-f]"],
     "property-based testing against independently computed statistics (exact binomial, normal, rank sums, segment differences)",
     "Random search; verdicts compared away from the rounding of critical values; matched pairs without alternations.")
prop("C14", "sc_stats reports and graphs show each system's scores under the right names",
     "For every set of systems scored on the same test, in whatever order their speakers and utterances come: the per-speaker summaries (sum, rsum), executive summaries (es, res), range tables and the data, mean and median files of the range graphs hold, for each named speaker and system, the values computed from that system's alignments; the parallel listing (prn) shows every utterance common to all systems with its reference words, each system's words below them (wrong words in capitals, deletions as asterisks), and counts and lists exactly the reference words that no system has right.",
     IC, "all sets of one to forty systems: speaker orders, missing speakers and utterances, word lengths, line widths, -f E/R/W",
     "Cross-system bookkeeping only fails for particular orders, absences, sizes or rates over 100 %; tests use two systems in the same order.",
     [S + "scores.c", S + "corresp.c", S + "range.c", S + "rank.c", S + "alex.c", S + "sc_stats.c", S + "rpg.c"],
     [("summaries", S + "scores.c"), ("parallel listing", S + "corresp.c"), ("ranges", S + "range.c")],
     ["sc_stats -r sum rsum es res prn", "sc_stats -g range grange grange2"],
     "property-based testing: reports recomputed from the generated alignments",
     "Random search; row order not judged.")
prop("C15", "rover's network holds every system's words, aligned at minimum cost",
     "rover combines any number of ctm files into a sequence of correspondence sets in which every set has exactly one arc per system (a word or NULL) and every system's words, with their times and confidences, appear exactly once and in order, per file and channel; sets do not reach across silences common to all systems, and each system is added with a minimum-cost alignment (word distances, or time distances with -T). Systems that go through different files or channels are reported as an error; a system that stops early or has no words is treated as silent.",
     IC, "all sets of ctm files: number of systems, gaps, empty channels, file sizes, -s, -T, -c",
     "No test runs rover. Losing a word depends on where chunk and file boundaries fall in each of several files; optimality quantifies over all alignments.",
     [S + "rover.c", S + "mfa.c", S + "net_dp.c", S + "net_adt.c", S + "fillmrks.c"],
     [("silence segmentation and file/channel stepping", S + "mfa.c"), ("network alignment and merging", S + "net_dp.c")],
     ["rover -m putat output"],
     "property-based testing: round trip of every input word plus a reference DP for the cost of every merge",
     "Random search; exact oracle for the cost of each iteration given the network built so far.")
prop("C16", "rover's vote selects the best-scoring word of every correspondence set",
     "For every input, each correspondence set contributes the word with the highest documented score, alpha times its share of the systems plus (1-alpha) times its confidence (mean for meth1, maximum for maxconf, share of the summed confidence for avgconf, and for maxconfa maximum with NULL's confidence set to its share of the systems), with the mean times and mean confidence of its occurrences; sets won by NULL give no output. -m oracle outputs every distinct word of each set as alternatives. Missing or zero confidences never stop the vote.",
     IC, "all correspondence sets, confidences, -a and -c values and methods",
     "No test runs rover; the scores have to be right for every combination of counts and confidences.",
     [S + "rover.c"],
     [("voting", S + "rover.c")],
     ["rover -m meth1/maxconf/avgconf/maxconfa/oracle output"],
     "differential property-based testing: votes recomputed from the correspondence sets of the same input",
     "Random search with an independent implementation of the scoring formulas; ties may be broken either way.")
prop("C17", "asclite aligns overlapping speakers completely and at minimum cost",
     "For every reference (stm, rttm or trn, with overlapping speakers, alternations and optional words) and every set of systems (ctm, rttm, trn), asclite groups overlapping reference segments, scores every group it does not have to skip (ignored segments, overlap limits, UEM regions) plus the gaps between them, and in each group produces an alignment that uses every hypothesis word whose middle lies in the group exactly once with its times and confidence, reads one path through every reference segment in order, never crosses over, labels each pair correctly (case, fragments, optional words per -s -F -D; with a speaker map, right words by a speaker not mapped to the reference's are speaker substitutions), and has the lowest possible total cost over all multi-dimensional alignments; the outcome for one system does not depend on the others.",
     IC, "all recordings: overlap patterns, numbers of speakers, hypothesis lanes and systems, alternation graphs, UEM files, options",
     "Optimality quantifies over all paths of a multi-dimensional graph; completeness depends on how segments overlap; the tests compare a few stored outputs.",
     [A + "levenshtein.cpp", A + "ctmstmrttm_segmentor.cpp", A + "segment.cpp", A + "segmentsgroup.cpp", A + "stm_inputparser.cpp", A + "ctm_inputparser.cpp", A + "rttm_inputparser.cpp", A + "trn_inputparser.cpp", A + "linestyle_inputparser.cpp", A + "token.cpp", A + "uemfilter.cpp", A + "speech.cpp", A + "stt_scorer.cpp", A + "speakermatch.cpp", A + "graph.cpp", A + "recording.cpp"],
     [("alignment", A + "levenshtein.cpp"), ("grouping", A + "ctmstmrttm_segmentor.cpp"), ("UEM and gaps", A + "uemfilter.cpp")],
     ["asclite -r ref FMT -h hyp FMT ... -o sgml"],
     "differential property-based testing: independent segmentation model and product-automaton dynamic programming as the cost oracle",
     "Random search with an exact optimum for every group; one known finding (gaps of streams with an even number of words).")
prop("C18", "asclite's reports count, per system and speaker, what its alignments say",
     "For every scoring run, the raw and percentage tables have one row per reference speaker whose sentence, word, correct, substitution (and, with a speaker map, speaker substitution), deletion, insertion, error and sentence-error figures are those of the aligned pairs of that system alone; the sum row adds them up (percentages of the pooled counts), mean, standard deviation and median are those over speakers, NCE follows from the confidences, and every system gets its own table and SGML document, on standard output, beside its input or in the -O directory, or on standard output if the file cannot be written.",
     IC, "all alignments: number of systems and speakers, speakers without reference words, skipped groups, output destinations",
     "Counts and statistics must be right for every alignment and combination of systems; the tests compare a few stored tables, all of one system.",
     [A + "rawsys_reportgenerator.cpp", A + "sgml_reportgenerator.cpp", A + "statistics.cpp", A + "alignedsegment.cpp", A + "main.cpp"],
     [("tables", A + "rawsys_reportgenerator.cpp"), ("alignment document", A + "sgml_reportgenerator.cpp"), ("statistics", A + "statistics.cpp")],
     ["asclite -o sum rsum sgml [stdout] [-O dir]"],
     "property-based testing: every figure recomputed from the labels of the SGML document of the same run",
     "Random search; one known finding (the NCE formula for wrong words).")
prop("C19", "rfilter1 rewrites every line with the first rule that matches at each place",
     "For every rule file and input, rfilter1 scans each line from left to right; at each position the first rule in file order whose pattern and left and right contexts match (contexts read from the original line, case folded unless the file says otherwise) replaces its pattern, and scanning resumes after it; unmatched characters are copied, or dropped when the header says so. Lines keep their number and order. Rule files that cannot be applied (missing, empty, malformed, too many rules, unknown format) are refused with a non-zero exit and no filtered text.",
     IC, "all rule sets (NIST1 and NIST2 syntax, contexts, quoting, header options) and input lines",
     "Which rule wins depends on the whole rule set, on overlaps and on contexts; the existing tests filter a few lines with one rule file.",
     ["src/rfilter1/rfilter1.c"],
     [("rule parsing, rule index and application", "src/rfilter1/rfilter1.c")],
     ["rfilter1 RULES < text"],
     "differential property-based testing against a linear-search model of the documented algorithm, under AddressSanitizer",
     "Random search over small alphabets so that rules overlap and compete.")
prop("C20", "csrfilt applies the mapping rules to the transcript field and to nothing else",
     "For trn, stm, ctm, rttm and txt input, csrfilt.sh rewrites exactly the transcript field of every record: upper-casing (unless -s; accented letters with -e), the rules of the sections of the rule file that apply to the input type or data purpose, hyphens within words turned into blanks with -dh, and optional-word marks kept on every word they covered. Comments, ids, times, labels and confidences stay as they were; records keep their number and order, except that a ctm word mapped to several words (or to alternatives) becomes consecutive records sharing its time and its confidence, and a ctm or rttm word mapped to nothing is removed. Input or rules that cannot be used give exit status 1.",
     IC, "all transcripts, rule files with input-dependent sections and option combinations",
     "Tests filter five small files; each rule's effect depends on format, options, contexts and neighbouring words.",
     ["src/csrfilt/csrfilt.sh", "src/rfilter1/rfilter1.c"],
     [("separation, filtering and recombination", "src/csrfilt/csrfilt.sh")],
     ["csrfilt.sh -i FMT RULES < in > out"],
     "differential property-based testing against a model of the whole filter",
     "Random search; the rule engine's own model is shared with C19.")
prop("C21", "hamzaNorm and tanweenFilt normalise every word of the text and nothing else",
     "In txt, ctm and stm files, hamzaNorm turns every word-initial hamza form into a bare alif, and tanweenFilt removes all tanween at the end of every word, inside the parentheses of an optional word too (with -a, everywhere); every other byte, including blanks, comments, labels, file names and confidences, is unchanged, whatever separates the words.",
     IC, "all UTF-8 txt, ctm and stm files",
     "Tests normalise one small file; words can be separated and decorated in many ways.",
     ["src/hamzaNorm/hamzaNorm.pl", "src/tanweenFilt/tanweenFilt.pl"],
     [("normalisation", "src/hamzaNorm/hamzaNorm.pl"), ("normalisation", "src/tanweenFilt/tanweenFilt.pl")],
     ["hamzaNorm.pl -i FMT in out; tanweenFilt.pl [-a] -i FMT in out"],
     "differential property-based testing against a word-level model, byte for byte",
     "Random search over hamza, tanween and other letters in every position.")
prop("C23", "md-eval scores diarization as defined, under an optimal one-to-one speaker map",
     "For every reference and system RTTM, UEM, collar, -1 and -a, md-eval evaluates exactly the time in the UEM (or the extent of the reference) outside NOSCORE zones, and scores that time less the collars around reference speaker boundaries, the non-lexical events extended to the nearest word, speaker boundary or half a second, and (-1) reference overlap. Evaluated, scored, missed, false-alarm and speaker-error time and words, the diarization error and the speaker type matrices equal their definitions for every condition, under a one-to-one speaker map that maximises matched time; -m and -M report that map and the overlaps.",
     IC, "all pairs of RTTM files without self-overlap, all UEMs, collars, exclusions and conditions",
     "Tests score a dozen small hand-made files with the default conditions; the definition must hold for every arrangement of segments, zones and boundaries.",
     ["src/md-eval/md-eval.pl"],
     [("scored regions", "src/md-eval/md-eval.pl"), ("speaker mapping", "src/md-eval/md-eval.pl"), ("figures", "src/md-eval/md-eval.pl")],
     ["md-eval.pl -r ref -s sys [-u uem] [-c collar] [-1] [-a cf] -m -M map.csv"],
     "differential property-based testing against a bit-set model of time and an assignment solver",
     "Random search over files with up to six reference and seven system speakers.")
prop("C24", "Validators accept exactly the well-formed ctm, stm and rttm files",
     "ctmValidator, stmValidator and rttmValidator exit 0 on every file that obeys the rules of its format and exit 1 on every other, naming the offending records: for ctm the number and syntax of fields; for stm the words of the transcript, by language; for rttm the number and syntax of fields by record type, declared speakers, and then overlap within a speaker and type, empty or partial metadata, partial NOSCORE coverage, words outside SUs or speaker turns, and interruption points without their edit or filler (each switchable by option). Speaker and file names are taken literally.",
     IC, "all ctm, stm and rttm files, all options",
     "Tests validate three dozen fixed files; a rule must hold for every record and combination of records.",
     ["src/ctmValidator/ctmValidator.pl", "src/stmValidator/STMList.pm", "src/rttmValidator/rttmValidator.pl"],
     [("record rules", "src/ctmValidator/ctmValidator.pl"), ("word rules", "src/stmValidator/STMList.pm"), ("record and logic rules", "src/rttmValidator/rttmValidator.pl")],
     ["ctmValidator.pl -i f.ctm; stmValidator.pl -i f.stm; rttmValidator.pl -i f.rttm"],
     "differential property-based testing against a model of the rules, over valid files and damaged ones",
     "Random search over valid files with zero, one or two damaged records.")
prop("C25", "RTTM utilities lose, invent and misplace no record",
     "rttmSort prints exactly its records, ordered by file, channel, time and type; rttmSmooth joins the turns of one speaker on one channel exactly when their gap is at most the threshold and keeps every other record; spkr2sad relabels every turn as speech; stm2rttm turns each speaker's segments, smoothed by the evaluation's threshold, into turns (or NOSCORE zones), with the speaker's sex, and refuses overlapping or contradictory segments; rttm2ctm prints every lexeme; mergectm2rttm gives every word whose midpoint lies in a turn to a speaker of such a turn, with the turns those words span. Times survive exactly.",
     IC, "all RTTM, STM and CTM inputs within the assumptions",
     "No test runs these tools directly; hubscr's tests use two of them on one input.",
     ["src/rttmSort/rttmSort.pl", "src/rttmSmooth/rttmSmooth.pl", "src/spkr2sad/spkr2sad.pl", "src/stm2rttm/stm2rttm.pl", "src/rttm2ctm/rttm2ctm.pl", "src/mergectm2rttm/mergectm2rttm.pl"],
     [("sorting", "src/rttmSort/rttmSort.pl"), ("smoothing", "src/rttmSmooth/rttmSmooth.pl"), ("conversion", "src/stm2rttm/stm2rttm.pl"), ("merging", "src/mergectm2rttm/mergectm2rttm.pl")],
     ["output records of the six tools"],
     "differential property-based testing against record-level models with exact times",
     "Random search over up to a few dozen records, with ties and gaps at the thresholds.")
prop("C22", "hubscr filters and scores all given files, identically to its parts run by hand",
     "For every reference, set of systems, rule file, language, task and engine, hubscr.pl sorts the reference and each system by recording, channel and time (not Mandarin), drops non-lexical records where the task says so, normalises and filters the transcripts by the language's rules and the rule file, and writes for each system exactly the reports the scoring engine writes for those filtered files under that language's options, and for several systems the comparison reports of all of them in the given order; for sastt, the speaker map of md-eval decides the speaker alignment. No record of any input is lost or scored twice. A run in which a file is missing, cannot be filtered, is invalid, or cannot be scored ends with a non-zero status and a message, and gives no scores for the file at fault.",
     IC, "all references, systems, rule files, languages, tasks, engines and options within the assumptions",
     "The existing tests run three fixed evaluations; the pipeline's steps depend on the language, the task, the options, the number and place of the files and on failures in the middle of a pipe.",
     ["src/hubscr/hubscr.pl"],
     [("option checks", "src/hubscr/hubscr.pl"), ("sorting and filtering", "src/hubscr/hubscr.pl"), ("engine runs", "src/hubscr/hubscr.pl")],
     ["hubscr.pl -g glm -l LANG -h TASK -r ref sys...; the filtered files, every report, exit status"],
     "model-based and differential property-based testing of whole evaluations, with injected faults",
     "Random search over small evaluations of one to three systems.")
prop("C28", "acomp and def_art divide the words they should and change nothing else",
     "acomp.pl replaces each word of the transcript that is not in the lexicon, and that can be composed of lexicon entries, by those entries, and def_art.pl separates the definite article from each word that carries it; inside optional-word and fragment marks the mark stays on the parts. In ctm files the parts of a word share its time in equal shares and its confidence; in stm and ctm files ids, times and labels stay as they were; comments, and words that are not divided, are kept (acomp upper-cases); records keep their order.",
     IC, "all txt, ctm and stm transcripts and lexicons within the assumptions",
     "The tests run each tool on one file; the division depends on the lexicon, the marks around a word and the format.",
     ["src/acomp/acomp.pl", "src/def_art/def_art.pl"],
     [("compound division", "src/acomp/acomp.pl"), ("article division", "src/def_art/def_art.pl")],
     ["acomp.pl -i FMT -l LEX in out; def_art.pl -i FMT in out"],
     "differential property-based testing against a record-level model",
     "Random search over small lexicons and words composed of them.")
prop("C26", "Language-model counting counts every word and n-gram exactly once",
     "For every text, vocabulary, n and buffer size, text2wfreq counts each word, wfreq2vocab keeps exactly the words its options name (sorted, once), text2idngram gives each n-gram over the vocabulary's ids (0 outside it) with its exact count in sorted order, mergeidngram adds the counts of several files, and ngram2mgram shortens n-grams adding their counts; in binary and ASCII form alike, whatever the white space, the number of temporary files or merging passes, and whether or not the text ends in a newline.",
     I, "all texts, vocabularies, n, formats and buffer sizes within the assumptions",
     "The repository's tests never run these programs; counts depend on buffer boundaries, hash collisions and the last line of a text.",
     ["src/sclite/slm_v2/src"],
     [("word counts", "src/sclite/slm_v2/src/text2wfreq.c"), ("n-gram counts", "src/sclite/slm_v2/src/text2idngram.c"), ("merging", "src/sclite/slm_v2/src/mergeidngram.c"), ("shortening", "src/sclite/slm_v2/src/ngram2mgram.c")],
     ["output of text2wfreq, wfreq2vocab, text2idngram, mergeidngram, ngram2mgram"],
     "differential property-based testing against counts made in Python, with small buffers and AddressSanitizer",
     "Random search over texts of up to a few hundred words.")
prop("C27", "No well-formed input makes a scoring program leave its memory or hang",
     "For every well-formed input, however long its words, file, channel, speaker, label and system names, titles and output names, and however many words, utterances, speakers, labels and systems it has, sclite, sc_stats, rover, asclite, rfilter1 and the language-model programs neither read nor write outside their memory, nor use freed or null memory, nor divide by zero, nor end by a signal, nor run for ever: they report, or refuse the input with an error.",
     I, "all well-formed inputs within the assumptions",
     "The repository's tests have short names and few systems, and run without sanitizers; an overrun shows only for particular sizes.",
     ["src/sclite", "src/asclite", "src/rfilter1"],
     [("readers", "src/sclite/align.c"), ("report generator", "src/sclite/rpg.c"), ("segments", "src/sclite/fillmrks.c"), ("statistical tests", "src/sclite/rank.c"), ("dumped scores", "src/sclite/scores.c"), ("voting", "src/sclite/rover.c"), ("text operations", "src/sclite/text.c")],
     ["exit status, AddressSanitizer and UndefinedBehaviorSanitizer reports, termination"],
     "property-based fuzzing of sanitizer builds: well-formed inputs with extreme sizes, and the generated inputs of nineteen other checks",
     "Random search; sizes up to a few hundred bytes and sixty systems, chosen around the sizes of buffers.")
prop("C29", "Language models are normalised, discounted as asked and evaluated as estimated",
     "For every n-gram file, vocabulary type, set of context cues, discounting scheme and cutoffs, idngram2lm's model holds exactly the n-grams above the cutoff; their probabilities are their relative frequencies discounted by the chosen scheme; what is left over is shared by back-off in proportion to the lower-order model, so that each context's probabilities sum to at most 1, and to 1 where there is something to back off to; words never seen share one probability; context cues have none. The binary and the ARPA form say the same, and evallm's probabilities, perplexity, n-gram hits, OOV and context-cue counts are those of that model under the chosen forced back-off.",
     I, "all training and test texts, vocabularies and options within the assumptions",
     "The repository's tests never run these programs; normalisation is a claim over every context of every model.",
     ["src/sclite/slm_v2/src"],
     [("estimation", "src/sclite/slm_v2/src/idngram2lm.c"), ("back-off weights", "src/sclite/slm_v2/src/compute_back_off.c"), ("model files", "src/sclite/slm_v2/src/write_lms.c"), ("evaluation", "src/sclite/slm_v2/src/compute_perplexity.c")],
     ["the ARPA file, evallm's answers and output files"],
     "differential and invariant property-based testing against counts and a back-off model in Python, with AddressSanitizer",
     "Random search over models of up to nine words and texts of up to 300.")
prop("C30", "sclite -L weighs each word by its surprise in context and minimises weight",
     "With a language model, sclite gives every word of reference and hypothesis the weight -log2 of its probability after the (up to n-1) words before it in the transcript, averaged over the alternatives that can precede it, 20 if it is outside the vocabulary and 0 if it is optionally deletable; its alignment has the least total weight of errors among all alignments of all readings, where an error weighs the words involved; and the weighted summary gives those weights as percentages of the reference's.",
     I, "all language models of order 2 and 3 and transcripts with alternations, within the assumptions",
     "No test runs sclite with a language model; a weight depends on every path into a word.",
     ["src/sclite/slm_intf.c", "src/sclite/net_dp.c", "src/sclite/scores.c"],
     [("weights", "src/sclite/slm_intf.c"), ("weighted alignment", "src/sclite/net_dp.c"), ("weighted summary", "src/sclite/scores.c")],
     ["sclite -L model -o sgml wws"],
     "differential property-based testing against a back-off model and a weighted alignment search in Python",
     "Random search over small models and up to six utterances.")
prop("C31", "md-eval maps and counts metadata events in order, optimally and in words",
     "For every reference and system RTTM, md-eval maps reference to system events of one type (SU, EDIT, FILLER, IP) one to one, in order, so that the total overlap (in time, or with -W in reference words; of SUs only the last part; a bonus for equal subtypes and end words) is the largest possible within the allowed gap; with -w system times are first carried to the reference through an alignment of the words that costs least. Events outside the evaluation, and system events belonging to unannotated SUs, are left out; every other event is counted once as correct, substituted, missed or inserted. The counts and percentages in events and in reference words, overall and by channel, file, speaker and gender, the confusion matrix and the word offsets are exactly those of that map.",
     IC, "all pairs of RTTM files with words and metadata, all UEMs, unscored zones and options, within the assumptions",
     "Tests compare some thirty hand-made files; optimality and the counts must hold for every arrangement of events, words and zones.",
     ["src/md-eval/md-eval.pl"],
     [("event map", "src/md-eval/md-eval.pl"), ("word alignment and time adjustment", "src/md-eval/md-eval.pl"), ("counts and tables", "src/md-eval/md-eval.pl")],
     ["md-eval.pl -r ref -s sys -D [-w -d] [-W] [-u uem] [-a cfgs] [-A cf]"],
     "differential property-based testing against dynamic programmes over events and words in Python",
     "Random search over files with up to twelve events of each type and twenty-five words.")
