FIXED = [
    ('C02', 'alignment printout read before the filler string for words longer than 40 characters', None),
    ('C02', 'alignment printout looped forever when a word did not fit in the line width', None),
    ('C02', 'summary mean/S.D./median dropped the wrong speakers when several had no reference words', None),
    ('C03', 'the last trn record was silently not scored when its line had no newline', None),
    ('C03', 'two different references for one id were accepted when the second was a prefix of the first', None),
    ('C03', 'the list of utterances without a reference left some of them out', None),
    ('C04', 'an unterminated blank or comment line at the end of an stm file was parsed as a segment', None),
    ('C04', 'hypothesis words after a reduced (-m hyp) alternation were scored as a new alternation', None),
    ('C04', "-m ref dropped segments when a channel's hypothesis began or ended with an alternation", None),
    ('C04', "an empty ctm alternative that was not the last one swallowed the next alternative's first word", None),
    ('C05', "ctm words left over after a channel's reference ended were credited to the next channel", None),
    ('C05', 'a one-word second channel at the end of a ctm file was silently not scored', None),
    ('C05', 'a ctm file missing a last one-word conversation was not detected', None),
    ('C05', 'time-mediated alignment could substitute a null word for a word that begins at time 0', None),
    ('C06', 'SGML alignments made with a word-weight file could not be read back', None),
    ('C06', 'summary reports crashed when no segment was scored', None),
    ('C06', 'character alignment of optionally deletable words inside alternations never ended', None),
    ('C07', 'weight-mediated alignment could substitute a null word for a word', None),
    ('C08', 'character alignment with DH crashed on words made of hyphens only', None),
    ('C09', '-S algo2 compared words case sensitively although -s was not given', None),
    ('C10', '-d could not score a second ctm channel made of one word at the end of the file', None),
    ('C10', '-d dropped hypothesis words after the last reference word of the last ctm channel', None),
    ('C10', "-d dropped hypothesis words when the last record's reference was empty", None),
    ('C10', 'scoring an stm against a txt file dropped an unterminated last stm line', None),
    ('C11', 'the DET curve crashed when all or none of the words were correct', None),
    ('C11', 'with -f 0 confidence analyses were written for systems without confidences', None),
    ('C11', "the multi-system DET graph mixed each system's scores with zeros from the systems before it", None),
    ('C13', 'the normal approximation of the binomial halved the number of successes', None),
    ('C13', 'the Wilcoxon test names the system favoured by the rank sums, not by the counts', None),
    ('C13', 'the sign test names the system that is better for more speakers', None),
    ('C13', 'sc_stats -f E|R|W selects the percentage formula', None),
    ('C13', 'sc_stats pairs the speakers of different systems by name, not by position', None),
    ('C13', 'analysis of variance: multiple comparison only after the overall test, with the documented bt(t+1)/6, and ties over all speakers', None),
    ('C13', 'analysis of variance: report a significance level instead of always <0.001', None),
    ('C13', 'sign and wilcoxon detail reports overflowed a buffer for short system names', None),
    ('C15', 'rover lost or duplicated words at file and channel ends and did not detect channel mismatches', None),
    ('C15', 'rover crashed on inputs without words', None),
    ('C16', 'rover failed to vote when confidences were missing or all zero', None),
    ('C16', 'rover: maxconfa gives the NULL word its documented confidence', None),
    ('C19', 'rfilter1: rule files with no rules or exactly MAX_NRULES rules', None),
    ('C19', 'rfilter1: header keywords were recognized inside of quoted values', None),
    ('C19', 'rfilter1: left contexts were compared with memory before the line', None),
    ('C19', 'rfilter1: slashes of the left or right hand side were taken for the context marker', None),
    ('C19', 'rfilter1: accept the documented rule format NIST2 and report unknown ones', None),
    ('C20', 'csrfilt: exit with status 1 when the input or the rules could not be used', None),
    ('C20', 'csrfilt dropped the comment lines of txt input and the last letter of an unterminated stm comment', None),
    ('C20', 'csrfilt put the confidence in the place of a deleted ctm word, kept emptied rttm lexemes and took NA for a word', None),
    ('C20', 'csrfilt left an empty pair of parentheses of a deleted optional word', None),
    ('C21', 'hamzaNorm skipped words after a tab', None),
    ('C21', 'tanweenFilt left tanween before a tab and all but the last of several', None),
    ('C17', 'asclite dropped tokens after a trailing skippable alternative', None),
    ('C17', 'asclite lost the last alternative of a ctm file and misplaced the word after one', None),
    ('C17', 'asclite searched the words of an stm line by the digits of its times', None),
    ('C17', 'asclite matched two initial fragments by substring instead of prefix', None),
    ('C17', 'asclite ignored rttm confidences after the first missing one', None),
    ('C17', 'asclite -D both treated only the reference as optionally deletable', None),
    ('C18', 'asclite ignored -spkrmap and a hypothesis title without a format', None),
    ('C18', 'asclite mixed the alignments and counts of several systems', None),
    ('C18', 'asclite crashed in the sgml report when every group was skipped', None),
    ('C17', 'asclite could not skip an alternative made of several skippable parts', None),
    ('C17', 'asclite crashed on a trn system without every utterance, or on a second one', None),
    ('C17', 'asclite applied the uem of a file to files whose names begin with its name', None),
    ('C17', 'asclite crashed, or lost words, when a uem removed a reference segment', None),
    ('C18', "asclite's standard deviation was garbage for one speaker or equal values", None),
    ('C18', 'asclite lost a report whose file cannot be written instead of printing it', None),
    ('C18', "asclite's total NCE overflowed instead of showing infinity", None),
    ('C18', "asclite's sgml report had no hypothesis file name when segments begin with deletions", None),
    ('C14', 'AUTO_LEX_find returned a position in the sorted order where callers need the entry', None),
    ('C14', 'range tables started from high 0 and low 100, and grange2 names and formats overran fixed buffers', None),
    ('C14', 'parallel alignments dropped speakers after one a system lacks, mixed up paths of reordered speakers, glued words and miscounted unequal references', None),
    ('C14', 'sc_stats read an uninitialised flag unless given -p', None),
    ('C14', 'summary of several systems paired speakers by position, and overran its format with many systems', None),
    ('C12', 'labelled utterance reports overran fixed buffers, sized speakers by the first system and counted speakers without words in the means', None),
    ('C23', 'md-eval excluded and scored the wrong time around no-score zones (zone after the last turn, zone starting with its region, zone touching a boundary), and split words only at their last hyphen', None),
    ('C24', 'stmValidator accepted punctuation in non-English words and unclosed optional contractions; rttmValidator took speaker and file names as patterns and wanted speakers for NON-SPEECH', None),
    ('C25', 'mergectm2rttm lost words and turns that begin at the same time', None),
    ('C25', 'rttm2ctm refused NO_RT_METADATA records', None),
    ('C25', 'rttmSmooth joined turns of different channels, and left some gaps of exactly the threshold', None),
    ('C25', 'rttmSort refused NO_RT_METADATA and misordered records whose equal times are written differently', None),
    ('C25', 'stm2rttm skipped the segment after each one it smoothed, and left some gaps of exactly the threshold', None),
    ('C22', 'hubscr sorted records apart when their fields are separated differently', None),
    ('C22', 'hubscr refused -M and every German test', None),
    ('C22', 'hubscr scored empty files as a success when a filter failed, and needed a lexicon for Arabic', None),
    ('C28', 'acomp and def_art: word division (triplets, s before en, short lexicons), fragments, times, comments and the default format', None),
    ('C28', 'acomp and def_art gave the alternation marks of a ctm file a time', None),
    ('C26', 'text2idngram lost words at the end of a text without newline, and n-grams merged in several passes', None),
    ('C29', 'language model building read past short names and vocabularies, mis-sized its tables and took negative linear discounts', None),
    ('C27', "long words, file names and labels overran the fixed buffers of sclite's readers", None),
    ('C27', 'long titles and names overran the fixed buffers of the report generator', None),
    ('C27', 'long system names overran the fixed buffers of sc_stats and its tests', None),
    ('C27', 'rover and sclite took more hypothesis files than their arrays hold', None),
    ('C10', 'two sclite -d runs at once could use the same temporary files', None),
    ('C31', 'md-eval scored all metadata of a file that is wholly unscored', None),
    ('C14', 'range graphs of systems without a common speaker read before the arrays', None),
    ('C30', 'a probability of one, but for rounding, ended programs that use a language model', None),
    ('C27', 'word-weight files with words of 1000 bytes or more aborted sclite', None),
]
KNOWN = [
    {"property": "C07", "suite": "weights",
     "what": "the Sum/Avg row of the weighted summary (-o wws) is computed from running totals kept in int variables (src/sclite/scores.c, print_system_summary), so fractional weights are truncated; a repair changes the stored output of test1b",
     "case": {"strict": True, "utts": [[["a"], ["a"], "spk0"], [["b"], ["c"], "spk1"]], "wl": [["a", 20], ["b", 60], ["c", 20]], "def": None, "unity": False, "D": False, "F": False, "heads": False}},
    {"property": "C17", "suite": "align",
     "what": "UEMFilter::ProcessSpeechSet (src/asclite/core/uemfilter.cpp) adds the outer time limits once per hypothesis segment, so a file and channel with an even number of them gets no inter-segment gaps and its words outside the reference segments are not scored; a repair changes the stored outputs of the asclite tests (isg-0, timebasecost)",
     "case": {"strict": True, "opt": {"s": False, "F": False, "D": "", "alt": False, "limit": 0, "comp": False, "noisg": False}, "hf": "ctm", "nsys": 1, "tf": "%.3f", "rf": "stm", "uem": "",
              "streams": [{"f": "f", "ch": "1", "uem": [], "segs": [{"spk": "s0", "t1": 1000, "t2": 2000, "w": ["a"], "ign": False, "lbl": ""}], "sys": [[{"t1": 200, "t2": 400, "w": 'a', "spk": "x", "c": None}, {"t1": 1200, "t2": 1400, "w": 'a', "spk": "x", "c": None}]]}]}},
    {"property": "C17", "suite": "speakers",
     "what": "asclite -spkrmap (Recording::Filter, src/asclite/core/recording.cpp) looks the speaker map up the wrong way round (reference speakers as system speakers), so it refuses maps that fit; a repair removes a warning from the stored log of the hubscr test test2-sastt",
     "case": {"strict": True, "opt": {"s": False, "F": False, "D": "", "alt": False, "limit": 0, "comp": False, "noisg": False, "x": ["-spkrmap"]}, "hf": "rttm", "nsys": 1, "tf": "%.3f", "rf": "stm", "uem": "", "map": [["f", "1", "s0", "x", True]],
              "streams": [{"f": "f", "ch": "1", "uem": [], "segs": [{"spk": "s0", "t1": 1000, "t2": 2000, "w": ["a"], "ign": False, "lbl": ""}], "sys": [[{"t1": 1200, "t2": 1400, "w": 'a', "spk": "x", "c": None}]]}]}},
    {"property": "C18", "suite": "reports",
     "what": "RAWSYS_Datas (src/asclite/core/rawsys_reportgenerator.cpp) adds log2(confidence) instead of log2(1-confidence) for wrong words, so the NCE column is not the normalised cross entropy; a repair changes the stored outputs of three hubscr tests",
     "case": {"strict": True, "opt": {"s": False, "F": False, "D": "", "alt": False, "limit": 0, "comp": False, "noisg": False}, "hf": "ctm", "nsys": 1, "tf": "%.3f", "rf": "stm", "uem": "", "out": "stdout", "titles": False,
              "streams": [{"f": "f", "ch": "1", "uem": [], "segs": [{"spk": "s0", "t1": 1000, "t2": 2000, "w": ["a", "b", "c"], "ign": False, "lbl": ""}], "sys": [[{"t1": 1000, "t2": 1200, "w": 'a', "spk": "x", "c": 0.9}, {"t1": 1200, "t2": 1400, "w": 'b', "spk": "x", "c": 0.8}, {"t1": 1500, "t2": 1600, "w": 'd', "spk": "x", "c": 0.3}]]}]}},
    {"property": "C10", "suite": "diff",
     "what": "align_stm2ctm's -d variant (src/sclite/align.c, PATH_add_file) gives the channel of an stm segment as its file in the SGML alignment; a repair changes the stored outputs of sclite's test4 and test6",
     "case": {"strict": True, "kind": "ctm", "cs": False, "recs": [[["a"], ["a"]]], "order": [0], "chan": 0, "spk": [0], "eol": True, "comment": False, "split": 1, "places": [[0, 0]], "labs": [""]}},
]
