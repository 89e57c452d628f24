"""Writes properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))
R='terminal/runes/'; IO='terminal/runes/runesio/'; A='terminal/ansi/ansi.go'; H='wordbreak/hyphenator/'; L='linebreak/'
p('C01','Every rune has the terminal width that Unicode 15 assigns to it',
 'By default the width of a code point is 0 when it is invalid, U+FFFD, a control, a non-printing format character (U+00AD, zero-width, bidi, interlinear annotation, BOM, ...) or a mark which the Unicode 15.0 width data describes as COMBINING; 2 when its Unicode 15.0 East_Asian_Width is W or F; 3 for U+2E3A, 4 for U+2E3B; and 1 otherwise. With the East-Asian option, ambiguous (A) code points take the configured ambiguous width instead (2 unless set), and neutral pictographs from U+0100 up take 2 when strict-neutral emojis are skipped; these two settings change nothing unless the East-Asian option is on. A code point is reported ambiguous exactly when its East_Asian_Width is A.',
 ['inputs','configurations'],'every rune value (valid or not) x every combination of the width options',
 'The tests sample a few dozen runes; a shifted range bound, a lost table row or an option leak shows on single code points out of 1.1 million.',
 [R+'width.go',R+'lookup.go',R+'options.go',R+'runes_tables.go'],
 [('range tables generated from Unicode 15.0',R+'runes_tables.go'),('packed 2-bit lookup table',R+'lookup.go'),('width rules by precedence',R+'width.go'),('options do not leak into the defaults',R+'options.go')],['runes.Width','runes.IsAmbiguous'])
p('C02','Width of a text is the sum of the widths of its runes',
 'For any slice of runes, valid or not, and any options, the reported width of the slice is the sum of the widths of its runes under the same options, and the width of a string is that of its decoded runes. Hence widths add up under concatenation, and no input panics.',
 ['inputs','configurations'],'every rune slice or string (including invalid runes and broken UTF-8) x width options',
 'Tests compare a few strings of common characters; the slice path is a separate code path from the single rune path.',
 [R+'width.go'],[('same lookup for single runes and slices',R+'width.go')],['runes.Widths','runes.StringWidth'])
p('C03','Tokenizing agrees with the standard library field splitting',
 'Splitting a slice of runes on a predicate yields exactly the fields that strings.FieldsFunc yields on the same text, and the tokenizer yields exactly those of strings.Fields (Unicode white space), in order, with no empty token. The input is not modified, and the list returned has no spare room: appending to it twice makes two independent lists.',
 ['inputs'],'every rune slice x separator predicate',
 'Tests use a couple of sentences; runs of separators, leading and trailing separators, and all white space runes cannot be enumerated.',
 [R+'fields.go','wordbreak/tokenizer/tokenizer.go'],[('single pass with start marker',R+'fields.go')],['runes.FieldsFunc','tokenizer.BreakWord'])
p('C04','The rune reader behaves as a cursor over its runes for any operations',
 'For any sequence of reads and seeks, the rune reader returns the runes of the underlying slice in order with the size of their UTF-8 encoding, io.EOF at the end, and the unread remainder from the current position. A seek (from the start, the current position or the end) moves exactly as requested when the target lies within [0, length], otherwise it fails with the out-of-range error and leaves the position unchanged. Slicing by rune offsets works from any position, and never moves it.',
 ['histories','inputs'],'every sequence of read/seek/slice operations on every rune slice',
 'Tests follow one scripted sequence; state bugs need particular sequences of seeks and reads at the boundaries.',
 [IO+'slice_reader.go'],[('offset kept within bounds by Seek',IO+'slice_reader.go')],['runesio.SliceReader'])
p('C05','Byte offsets from a regexp select the same text as in the UTF-8 string',
 'For any runes and any pairs of byte offsets that fall on rune boundaries of their UTF-8 encoding (such as those reported by a regexp run on the reader), slicing by byte offsets yields the runes of exactly that substring, for each pair, from any state of the reader. An odd number of offsets is refused with a panic, for byte as for rune offsets.',
 ['inputs','histories'],'every rune slice x list of boundary pairs, and regexps run over the reader',
 'Tests use a couple of patterns on one sample; errors depend on where multi-byte runes fall relative to the offsets.',
 [IO+'slice_reader.go'],[('running byte offset over runes',IO+'slice_reader.go')],['runesio.SliceReader.SliceFromByteOffsets'])
p('C06','The rune writer emits exact UTF-8 and reports the outcome of the write',
 'Whatever the runes written, one by one or as slices, the bytes reaching the underlying writer are those of the UTF-8 encoding of the runes (invalid ones as U+FFFD), in order. The count and error returned are those of the underlying writer, so that short writes and errors are never swallowed. A writer that already writes runes is used as is.',
 ['inputs','fault_sequences'],'every sequence of writes of every rune slice x every failure or short write of the destination',
 'Tests write one sample to a buffer which never fails.',
 [IO+'writer.go'],[('encode then single Write',IO+'writer.go')],['runesio.Writer'])
p('C07','Stripping ANSI sequences loses no rune and always terminates',
 'For any runes, breaking a text into stripped pieces terminates without a panic, and concatenating start sequence, text and stop sequence of the pieces in order gives back exactly the input. Each step consumes something unless the input is empty, its remainder is the exact tail of the input, and the input is left unmodified.',
 ['inputs'],'every rune slice, in particular malformed, truncated, chained and adjacent escape sequences',
 'Tests cover a dozen well-formed combinations; the decoder is a backtracking scanner whose errors need particular truncations and orders.',
 [A],[('seek back when a sequence belongs to the next piece',A),('remainder returned for the next step',A)],['ansi.StripToken','ansi.StripANSIFromRunes'])
p('C08','ANSI start, stop and other sequences are told apart everywhere in a text',
 'A CSI sequence ESC [ with numeric arguments (of up to 3 digits, separated by ; or :) ended by s, h or by m with a non-zero argument is a start; ended by u, l or by m with only zero or absent arguments it is a stop; any other one is left in the text. Once a text is broken in pieces, the sequences found as start and stop are exactly these, each whole, and the text of the pieces is exactly the rest of the input.',
 ['inputs'],'every text made of plain runes, stray escapes and sequences of all kinds, in any order',
 'Tests have a fixed list of SGR examples; argument counts, digit counts, kinds and positions combine.',
 [A],[('sequence decoder and its zero-argument rule',A)],['ansi.StripToken'])
p('C09','Rendering an attribute, and levels of nested attributes, follow the pushes',
 'Rendering an attribute writes its start sequence, text and stop sequence in that order, and a collection renders its members in order, ignoring missing ones. Whatever the renderers pushed, walking the state yields them all, once, in push order, and each is assigned the number of sequences open while its text is rendered, never negative.',
 ['histories','inputs'],'every sequence of pushes of renderers with or without start and stop sequences (balanced or not)',
 'One scripted list of six renderers is tested, with no assertion on what is rendered.',
 ['attributes/attribute.go','attributes/state.go','attributes/iface.go'],[('level computed from the previous renderer','attributes/state.go')],['attributes.Attribute.Render','attributes.State.Push','attributes.StateIterator'])
p('C10','Attributes wrapped on lines: each line balanced, each text in its context',
 'Take any list of renderers whose start and stop sequences nest properly and break it in lines anywhere (also several times at one point or before the first renderer), calling the end-of-line and start-of-line of the iterator around each break. On every resulting line, taken alone, the sequences are balanced and properly nested, and every text is rendered inside exactly the sequences, outermost first, that enclose it in the unbroken rendering.',
 ['histories','inputs'],'every properly nested list of renderers x every set of break positions',
 'The test breaks one list at one position, and only checks that items are iterated.',
 ['attributes/state.go'],[('restore opened sequences at line start','attributes/state.go'),('close opened sequences at line end','attributes/state.go')],['attributes.StateIterator.StartOfLine','attributes.StateIterator.EndOfLine'])
p('C11','Breaking on punctuation partitions the word exactly at punctuation runes',
 'For any runes, the parts returned by the punctuator concatenate to the input, none is empty, every punctuation rune (Unicode category P, or the pipe, but no hyphen) stands as a part of its own, and other parts are maximal runs free of punctuation. A part is recognized as punctuation exactly when it is one such rune.',
 ['inputs'],'every rune slice',
 'Tests cover a handful of ASCII words.',
 ['wordbreak/punctuator/punctuator.go'],[('separator retaining split','wordbreak/punctuator/punctuator.go')],['punctuator.BreakWord','punctuator.IsPunctuation'])
p('C12','Splitting on explicit hyphens partitions the word exactly at hyphens',
 'For any runes, the parts returned by the hyphen splitter concatenate to the input, none is empty, every rune with the Unicode Hyphen property stands as a part of its own, and other parts are maximal runs free of hyphens. A part is recognized as a hyphen exactly when it is one such rune.',
 ['inputs'],'every rune slice','Tests cover seven words with ASCII hyphens.',
 [H+'hyphenator.go'],[('separator retaining split on hyphens',H+'hyphenator.go')],['hyphenator.SplitWord','hyphenator.IsHyphen'])
p('C13','Hyphenation partitions the word and honours the length limits',
 'For any runes, language and limits, the parts concatenate to the word; a word shorter than the minimum length or which contains a hyphen comes back whole. When a word is broken, every part but the last has at least the minimum left length, what follows each break has at least the minimum right length, and no part is empty. Raising a limit never makes a word shorter than it break.',
 ['inputs','configurations'],'every rune slice x language x minimum length, left and right',
 'Tests check some twenty words with three settings.',
 [H+'hyphenator.go',H+'options.go'],[('split filtered by minLeft/minRight',H+'hyphenator.go')],['hyphenator.BreakWord'])
p('C14','Hyphenation points are those of the TeX patterns of the language',
 'For every supported language, the break points of a word are those of Liang\'s algorithm on the TeX patterns distributed for this language (the odd inter-letter values after taking the maximum over all matching patterns, words delimited on both sides), filtered by the length limits. A word listed as an exception breaks at its listed points only.',
 ['inputs','configurations'],'every word (of letters) x language x limits',
 'Twenty words are tested against 50,000 patterns; long words, patterns anchored at the end of a word and patterns of single letters are not covered.',
 [H+'hyphenator.go',H+'dictionary.go',H+'languages/'],[('pattern trie walk and merge of positions',H+'hyphenator.go'),('parsing of pattern and exception sections',H+'dictionary.go')],['hyphenator.BreakWord'])
p('C15','Hyphenation does not depend on letter case',
 'Changing the case of any letters of a word (with a one-to-one case mapping) does not move its break points, exceptions included, and the parts keep the case of the input.',
 ['inputs','configurations'],'every word x every change of case x language',
 'One capitalized word is tested.',
 [H+'hyphenator.go',H+'dictionary.go'],[('fragments and exceptions lowered before look-up',H+'hyphenator.go')],['hyphenator.BreakWord'])
p('C16','A language tag selects the patterns of its language, whatever the region',
 'German, French and Spanish tags, with or without a script, region or variant, use the patterns of that language; American English and British English use their own, and any other English tag one of these two. Languages with no relation to the supported ones fall back to American English, and so does no option at all. Selecting by string gives the same hyphenator as selecting by the corresponding tag.',
 ['configurations','inputs'],'every language tag built from supported languages and all regions, and unrelated languages',
 'Tests try de, fr, es, en-GB, uk; the matcher rewrites regional tags.',
 [H+'languages.go',H+'options.go'],[('language matcher and switch on supported languages',H+'languages.go')],['hyphenator.WithLanguage','hyphenator.WithLanguageTag'])
p('C17','Word breakers are pure: no history dependence, no modification of inputs',
 'The result of hyphenating, punctuating, tokenizing, stripping or measuring depends on the input and options only, not on earlier calls, other hyphenators, languages loaded before or after, or cached dictionaries. Calls never modify their input, and results already returned never change afterwards. Overwriting or appending to a returned result or to an input after the call does not affect later calls.',
 ['histories'],'every sequence of constructions and calls, mixed over languages, options and inputs, with results overwritten in between',
 'Every test uses a fresh object and a few calls; shared buffers and caches leak only across calls.',
 [H+'cache.go',H+'hyphenator.go',R+'width.go',R+'options.go'],[('dictionary cache',H+'cache.go'),('buffers reused within a call only',H+'hyphenator.go')],['all word breakers'])
p('C18','Concurrent use gives the sequential results without data races',
 'Any number of goroutines may build hyphenators, punctuators and line breakers, share a hyphenator, measure runes, strip sequences and break lines with their own breaker at the same time, on inputs of their own or shared, including the very first use in the process. Each call returns what it returns when run alone, and there is no data race.',
 ['schedules','inputs'],'every interleaving of concurrent calls, from a cold start',
 'Parallel tests start few goroutines, without the race detector, and mostly after caches are warm.',
 [H+'cache.go',R+'width.go',R+'lookup.go'],[('mutex around the dictionary cache',H+'cache.go'),('once-built lookup table',R+'lookup.go')],['hyphenator.New','runes.Width','linebreak.LeftAlignUniform'])
p('C19','Every listed pattern file loads, and any other name is an error',
 'The supported pattern files are listed sorted and without duplicates, each of them loads without error into a dictionary, and a hyphenator using that dictionary breaks words as the file says. Any name that designates none of them (missing, a folder, a different case) is reported as an error, without a dictionary and without a panic. Loading is repeatable and loaded dictionaries are independent of each other.',
 ['inputs','histories'],'every file name x sequence of loads',
 'Tests load each listed file once and look at nothing inside.',
 [H+'dictionary.go',H+'embedded.go'],[('embedded file system',H+'embedded.go'),('section parser',H+'dictionary.go')],['hyphenator.LoadPatterns','hyphenator.SupportedPatterns'])
p('C20','The rune trie is equivalent to a map keyed by rune slices',
 'For any sequence of put, get and delete, get returns the last value put at exactly that key and not deleted since, nil otherwise; put tells whether the key had no value; no operation on a key affects the values at other keys, prefixes and extensions included. Delete of a key with a value reports success, and of a non-empty key which is a prefix of no stored key reports failure.',
 ['histories'],'every sequence of put/get/delete over keys which share prefixes, including the empty key',
 'Tests use a fixed list of keys put then deleted in order.',
 [H+'internal/trie/rune_trie.go'],[('pruning of childless nodes on delete',H+'internal/trie/rune_trie.go')],['trie.RuneTrie'])
p('C21','Line breaking keeps the whole text, in order',
 'When a paragraph is set, the visible text of the lines, once soft hyphens rendered at line ends are removed and inter-word spaces are ignored, is the visible text of the tokens in order: nothing is lost, duplicated, reordered or invented. Two tokens set on the same line are separated by exactly one space, parts of a same token by none, and no line starts or ends with a space or is empty. Escape sequences which neither start nor stop a style are part of the text.',
 ['inputs','configurations'],'every list of tokens x width x options',
 'Tests print the lines and check nothing but the absence of an error.',
 [L+'linebreaker.go'],[('rendering of nodes between break points',L+'linebreaker.go')],['linebreak.LeftAlignUniform'])
p('C22','No line is wider than the requested width',
 'When a paragraph is set, the measured width of every line, rendered soft hyphens included and escape sequences excluded, is at most the requested width, for the default measure or a custom one that adds up over runes, and for any scale factor that maps measures and the width to whole numbers.',
 ['inputs','configurations'],'every list of tokens (narrow, wide, zero-width runes) x width x options',
 'Tests print the lines and check no width.',
 [L+'linebreaker.go',L+'knuth_plass.go'],[('adjustment ratio of overfull lines',L+'knuth_plass.go')],['linebreak.LeftAlignUniform'])
p('C23','A paragraph is refused only when no admissible setting exists',
 'Breaking a paragraph fails with the cannot-be-set error exactly when there is no way to cut it at legitimate break points into lines that fit the width with an adjustment ratio within the tolerance (the last line being free to be short). Hence a higher tolerance never turns a success into a failure.',
 ['inputs','configurations'],'every list of tokens x width x tolerance x options',
 'Tests only have paragraphs which can be set.',
 [L+'knuth_plass.go',L+'linebreaker.go'],[('active break points',L+'knuth_plass.go'),('stretch of ragged lines',L+'linebreaker.go')],['linebreak.LeftAlignUniform'])
p('C24','Line breaks minimize the total demerits of the paragraph',
 'Among all the admissible ways to break the paragraph, the one returned has the least sum over lines of the documented Knuth-Plass demerits: squared badness (line demerit 10 plus 100 times the cubed ratio) and break penalty, plus the demerits for consecutive flagged breaks and for adjacent lines of very different tightness.',
 ['inputs','configurations'],'every list of tokens x width x tolerance x penalties x options',
 'Tests do not look at the breaks chosen; optimality quantifies over exponentially many alternatives.',
 [L+'knuth_plass.go'],[('best candidate per fitness class',L+'knuth_plass.go'),('demerits',L+'knuth_plass.go')],['linebreak.LeftAlignUniform'])
p('C25','Lines break only at legitimate points, with a hyphen only where due',
 'Every line break falls between two tokens, after a punctuation mark, after an explicit hyphen or, when word breaking is enabled and the word is longer than the limit, at a point where the hyphenator in use breaks the word. A hyphen is added at the end of a line exactly when the break is of this last kind and hyphens are to be rendered, whatever the penalties. With word breaking disabled only token ends and punctuation marks are break points.',
 ['inputs','configurations'],'every list of tokens x width x hyphenator, punctuator, penalties and flags',
 'Tests print the lines; nothing asserts where they break.',
 [L+'linebreaker.go'],[('penalty nodes for each kind of break point',L+'linebreaker.go')],['linebreak.LeftAlignUniform'])
p('C26','Styled text keeps its style across line breaks, and lines do not leak style',
 'For tokens with ANSI spans, which may open and close anywhere (inside tokens, across tokens or in tokens of their own) and be nested properly (each stop sequence closes the last open span, with some text between two openings; start sequences side by side open one span), every visible character is rendered under the same open start sequences as in the input, outermost first, and no added or removed span reaches a visible character. At the end of every line all styles are closed. Sequences that stand at the edges of tokens or punctuation marks do not change where lines break.',
 ['inputs','configurations'],'every list of tokens x placement of spans x width x options',
 'The test prints two spans over one paragraph and checks nothing.',
 [L+'linebreaker.go',L+'knuth_plass_types.go','attributes/state.go',A],[('renderer per box with start/stop sequences',L+'linebreaker.go'),('state restored around lines','attributes/state.go')],['linebreak.LeftAlignUniform'])
p('C27','Line breaking is deterministic and a breaker can be reused',
 'Breaking the same tokens with the same options gives the same lines every time, on a new breaker or on one already used for other paragraphs, widths or failed attempts, styled or not. Options given to one breaker do not affect any other.',
 ['histories','configurations'],'every sequence of paragraphs set with one or several breakers',
 'Each test uses a fresh breaker once.',
 [L+'linebreaker.go',L+'knuth_plass.go',L+'options.go'],[('state reset for each paragraph',L+'linebreaker.go')],['linebreak.LeftAlignUniform'])
p('C28','Arbitrary input is handled without a panic or an endless loop',
 'Whatever the runes (control characters, escape sequences complete or truncated, invalid runes, broken UTF-8, empty tokens, very long words) and whatever the language, width and tolerance, measuring, stripping, tokenizing, hyphenating, punctuating and line breaking return in reasonable time without a panic, with a result or with the cannot-be-set error. So do pushing any renderers, missing ones included, on a state and walking it, also past its end or when it is empty.',
 ['inputs','configurations'],'every input to every public function, within documented preconditions',
 'Tests only feed well-formed text.',
 [A,H+'hyphenator.go',R+'width.go',L+'linebreaker.go'],[('bounds handling throughout',A)],['all public functions'])
p('C29','Stripping comments from TeX pattern files keeps every pattern',
 'The generator of pattern files (strip_comments.go) makes, for each .tex file found under tex/, one file of the same base name in the current folder. Its lines, blank ones aside, are exactly those of the source without their comments (from a percent sign on) and without blanks around, in order: no pattern and no exception is lost, cut or added, whatever was there before. Other files give nothing, and sources are left unmodified. A line too long to be read makes the generator fail; it never cuts the rest of the file silently. The pattern files of the tree are those that the generator makes from the sources of the tree.',
 ['inputs','configurations'],'every tree of TeX files: lines, comments, blanks, line endings, sizes',
 'The generator has no test; the tests of the hyphenator know a few words, which a lost pattern does not change.',
 [H+'languages/strip_comments.go'],[('comment stripping, line by line',H+'languages/strip_comments.go')],['go run strip_comments.go'])
p('C30','Width tables generated from Unicode data describe exactly these data',
 'Given Unicode data files (EastAsianWidth.txt and emoji-data.txt, in the format of Unicode 15.0, sorted, from U+0400 up), the generator of tables (build_tables.go) makes a runes_tables.go with which the package compiles, and with which every code point is measured and classified as the data tell, at both ends of each range as well as between: adjacent ranges are merged without a gap or an overlap, single code points are kept, comments and other emoji properties are ignored. When the data cannot be retrieved whole (missing file, interrupted answer, failed connection), the generator fails and the tables are left as they were.',
 ['inputs','fault_sequences'],'every pair of data files x every failure to retrieve one of them',
 'The generator has no test and needs a network; the tests of widths know a few dozen runes.',
 [R+'build_tables.go',R+'lookup.go',R+'width.go'],[('reading ranges and merging adjacent ones',R+'build_tables.go'),('writing the file last, when all is read',R+'build_tables.go')],['go run build_tables.go','runes.Width','runes.IsAmbiguous'])
open(os.path.join(here,'properties.jsonl'),'w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
