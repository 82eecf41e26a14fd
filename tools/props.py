import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Tokenizing text loses nothing and segments it by Unicode word boundaries",
 "For every text (any bytes, any size, invalid UTF-8 included), the tokens of Tokenize and TokenizeString, concatenated, are exactly the text, none of them is empty and none is a lemma. The boundaries between tokens are exactly the word boundaries of Unicode text segmentation (UAX #29) of the whole text. The only permitted failure is an error for a single token of more than 64 KB, never missing or altered text.",
 ["inputs"],"every text: scripts, punctuation, white space, emoji, combining marks, controls, invalid UTF-8, tokens and texts larger than any buffer",
 "tests compare a handful of sentences; the guarantee is about every text, including sizes past the buffers and characters no test has",
 ["tokenizer.go","token.go"],[("segmentation of the reader","tokenizer.go Tokenize"),("token construction","token.go NewToken")],["jargon.Tokenize","jargon.TokenizeString"])
p("C02","Tokens do not depend on how the reader delivers its data",
 "For every text or HTML and every way in which a reader may deliver it (single bytes, any mix of chunk sizes, empty reads, end of data together with or after the last bytes), Tokenize and TokenizeHTML give the same tokens as for a reader that delivers everything at once.",
 ["inputs","schedules"],"every text or HTML × every partition of it into reads",
 "tests use strings.Reader, which delivers everything in one read; chunk boundaries inside words, after dots, apostrophes and combining marks are never tried",
 ["tokenizer.go","tokenizer_html.go"],[("look-ahead before a boundary is believed","tokenizer.go Tokenize"),("HTML tokenizer over a reader","tokenizer_html.go TokenizeHTML")],["jargon.Tokenize","jargon.TokenizeHTML"])
p("C03","A failing source is always reported, never mistaken for the end of the text",
 "When the underlying reader or token source fails at any point, with whatever error (other than io.EOF), below any chain of filters and with any way of consuming the stream (one by one, scanning, to a slice, to a string, counting, writing), the consumer gets that error and not a normal end. What it got before is a prefix of what it would get if the text ended at that point, and the error stays reported when asked again.",
 ["fault_sequences","inputs"],"every fault offset × kinds of errors × every chain of filters × every way of consuming × text and HTML",
 "tests never use a reader that fails",
 ["tokenizer.go","tokenstream.go","filters/synonyms/filter.go","filters/sigil/filter.go","filters/contractions/filter.go","filters/mapper/filter.go","filters/stopwords/filter.go"],[("errors returned by each stage","tokenstream.go Next, Scan, Err"),("scanner error","tokenizer.go")],["TokenStream.Next","TokenStream.Scan","TokenStream.Err","TokenStream.ToSlice","TokenStream.String","TokenStream.Count","TokenStream.WriteTo"])
p("C04","HTML tokens are the source verbatim, with markup kept whole",
 "For every HTML input, well-formed or not, the tokens of TokenizeHTML, concatenated, are exactly the source. Each start tag, end tag, comment and doctype is one punctuation token, the content of a script or style element is one token that is neither split nor punctuation, and text elsewhere (also after a script or style element) is split into the same tokens as plain text, with character references left as they are. The only permitted failure is an error for a single word of more than 64 KB within text, never missing or altered source.",
 ["inputs"],"every HTML document or fragment, malformed and truncated ones included",
 "one test compares a fixed page with its rendering; nothing checks the round trip, what follows scripts, or malformed input",
 ["tokenizer_html.go"],[("raw bytes of each HTML token","tokenizer_html.go TokenizeHTML"),("script and style state","tokenizer_html.go")],["jargon.TokenizeHTML"])
p("C05","Tokens are classified by all of their characters",
 "A token made of any non-empty string keeps exactly that string and the given lemma flag; it is punctuation exactly if each of its characters is in the Unicode category P or a tab, line feed or carriage return, and space exactly if each of its characters is Unicode white space. A token of the empty string is nil. Tokens that come out of Tokenize are classified the same way.",
 ["inputs"],"every string: every code point, and every mix of letters, punctuation and spaces",
 "tests check about twenty strings",
 ["token.go","punct.go"],[("classification","token.go NewToken")],["jargon.NewToken","Token.IsPunct","Token.IsSpace","Token.IsLemma","Token.String"],
 [("common tokens","shared tokens for frequent strings","token.go")])
p("C06","A stream is read forward once, whichever way it is read",
 "For every stream (of text or HTML, through any filters) and every sequence of reading one by one, scanning, and looking at the current token or the error, in any order, the tokens come in the same order, each exactly once; the current token is the one returned last. After the last token, reading on keeps saying that it is the end, with no error (even if the reader would have more by then), and tokens returned earlier never change.",
 ["histories","inputs"],"every interleaving of Next, Scan, Token and Err, also past the end, on every stream",
 "tests read a stream in one way, to its end, once",
 ["tokenstream.go"],[("Next and Scan share the current token","tokenstream.go Next, Scan, Token, Err")],["TokenStream.Next","TokenStream.Scan","TokenStream.Token","TokenStream.Err"])
p("C07","Stream operators and outputs are exact and preserve order",
 "On every sequence of tokens: Where keeps exactly those for which the predicate holds, Words those which are neither punctuation nor space, Lemmas the lemmas, Distinct the first of each text, Filter applies any number of filters, those passed, in the given order; order is preserved. ToSlice, String, Count and WriteTo agree with reading one by one, and WriteTo reports the number of bytes that the writer took and stops at the writer's first error, which it returns, having written a prefix. Operators applied to a partly read stream apply to what is left of it.",
 ["inputs","histories","fault_sequences"],"every list of tokens × every chain of operators × every point at which a writer fails",
 "tests check each operator on one sentence, and no test has a failing writer",
 ["tokenstream.go"],[("operators wrap the stream","tokenstream.go Where, Words, Lemmas, Distinct, Filter"),("outputs","tokenstream.go ToSlice, String, Count, WriteTo")],["TokenStream methods"])
p("C08","A synonyms filter replaces exactly the longest matching synonyms, left to right",
 "For every set of comma-separated synonyms (none with two canonicals; spaces around a synonym do not matter, and its last word is not made of ignored characters only), with or without case and with any ignored characters, and every token stream: from left to right, at each word, the longest run of tokens that is not broken by punctuation, has at most as many words as the wordiest synonym, and spells a synonym, disregarding case and ignored characters as configured, becomes one lemma token, the canonical (or nothing, if the canonical is empty). All other tokens come out unchanged and in order, including those of a partial match that failed and spaces after a match, and matches do not overlap.",
 ["inputs","configurations"],"every dictionary (overlapping and prefix-sharing synonyms, several words, ignored characters) × every text and HTML",
 "tests use one dictionary of a few entries and a few sentences; back-tracking after partial matches, at the end of the stream and before punctuation, is barely touched",
 ["filters/synonyms/filter.go","filters/synonyms/trie/trie.go","tokenqueue/queue.go"],[("longest match over a bounded run of words","filters/synonyms/filter.go"),("look up","filters/synonyms/trie/trie.go")],["synonyms.NewFilter"],
 [("look-ahead","tokens read but not yet decided","filters/synonyms/filter.go")])
p("C09","The term lookup finds the longest entry that the tokens spell",
 "For every history of additions and searches, a search finds an entry exactly if the texts of one or more of the leading tokens, disregarding case and ignored characters as configured, spell an added entry, and it reports the canonical of the longest such entry together with the number of tokens it takes. Later additions never make an earlier entry disappear, adding an entry again replaces its canonical, and entries that normalize to nothing match nothing.",
 ["histories","inputs","configurations"],"every sequence of additions and searches over entries that share prefixes",
 "tests add about ten entries and search for them once",
 ["filters/synonyms/trie/trie.go"],[("trie by rune","filters/synonyms/trie/trie.go Add, SearchCanonical")],["trie.RuneTrie"])
p("C10","Streams are lazy: bounded reading ahead, even of endless input",
 "Making a stream with any chain of filters reads nothing from the source, and each token comes out after reading a bounded amount beyond it: of an endless text the first tokens come after a bounded number of bytes, and filters read ahead no more tokens than the words (and spaces between) that their longest term can span, plus a few. Large inputs are processed in time proportional to their size, whatever the script and however long the tokens and the runs of spaces, and in memory that does not grow with it (Distinct excepted, which remembers what it has seen).",
 ["inputs","configurations"],"every chain of filters that do not select tokens before look-ahead ones × endless texts, large texts, long tokens and long runs of spaces",
 "tests read short strings to their end, so reading everything first goes unnoticed",
 ["tokenstream.go","tokenizer.go","filters/synonyms/filter.go","filters/sigil/filter.go"],[("pull-based stages","tokenstream.go NewTokenStream"),("bounded look-ahead","filters/synonyms/filter.go fill")],["jargon.Tokenize","TokenStream.Filter"])
p("C11","Filters can be shared: streams never influence each other",
 "Any filter, built-in or constructed, may be applied to any number of streams, at the same time in several goroutines (first use included) or interleaved in one; each stream gives the same tokens as if it were alone, without data races.",
 ["schedules","histories"],"every schedule of several streams through the same filters, including the first use in a process",
 "tests use one stream at a time, without the race detector",
 ["filters/synonyms/filter.go","filters/sigil/filter.go","filters/contractions/filter.go","filters/stackoverflow/filter.go","filters/nba/filter.go"],[("state per stream","filters/synonyms/filter.go"),("built once","filters/synonyms/filter.go sync.Once")],["all Filter values of the packages"])
p("C12","Stack Overflow terms are recognized in every spelling, and nothing else is",
 "Every synonym and tag of the Stack Overflow dictionary, in any case, alone or among other words, with its words separated by single spaces or run together, is replaced by one lemma: its tag (also if another tokenizer has made one token of it, with spaces, hyphens, dots and slashes inside); of overlapping terms the longest wins, from left to right. Text that is not a term of the dictionary is left alone. (Spellings with punctuation tokens inside a term, such as c#, .net or hyphens, are a recorded limitation.)",
 ["inputs"],"every entry of the dictionary × every spelling × every context; every text",
 "tests sample a dozen of about 4,000 terms",
 ["filters/stackoverflow/filter.go","filters/stackoverflow/generated.go","filters/synonyms/filter.go"],[("dictionary","filters/stackoverflow/generated.go mappings"),("ignored characters and case","filters/stackoverflow/filter.go")],["stackoverflow.Tags"])
p("C13","NBA players are recognized in every spelling, and nothing else is",
 "Every player of the NBA dictionary, with or without diacritics, with straight or curly apostrophes, in any case, with words separated by single spaces or run together, is replaced by one lemma: the canonical name with its diacritics (also if another tokenizer has made one token of it, with spaces, dots, apostrophes and hyphens inside). Text that is not a name of the dictionary is left alone. (Names in which punctuation is a token of its own, such as hyphenated ones, are a recorded limitation.)",
 ["inputs"],"every entry of the dictionary × every spelling × every context; every text",
 "one test checks a few names",
 ["filters/nba/filter.go","filters/nba/generated.go","filters/synonyms/filter.go"],[("dictionary","filters/nba/generated.go mappings"),("ignored characters and case","filters/nba/filter.go")],["nba.CurrentPlayers"])
p("C14","Contractions expand to their words, in the same case",
 "Every known contraction, with a straight or a curly apostrophe, in any mix of upper and lower case, is replaced by lemma tokens: its first word, a space, its second word; in upper case if the contraction is in upper case, capitalized if only its first letter is upper case, otherwise in lower case. Every other token comes out unchanged and in order.",
 ["inputs"],"every contraction × apostrophe × case pattern; every other text",
 "tests check a few contractions in a sentence",
 ["filters/contractions/filter.go","filters/contractions/generated.go"],[("table","filters/contractions/generated.go"),("fall back to lower case","filters/contractions/filter.go")],["contractions.Expand"])
p("C15","ASCII folding replaces exactly the characters of Lucene's folding table",
 "For every string of valid UTF-8, folding replaces each character of the Latin-1 to fullwidth range that Lucene's ASCII folding maps by its ASCII equivalent, leaves every other character as it is, and reports whether it replaced any. As a filter, it turns exactly the tokens with such characters into lemmas with the folded text, and leaves others alone.",
 ["inputs"],"every code point, every string, every stream",
 "one test folds one long string; a wrong, missing or unreported replacement of any of 1,300 characters goes unnoticed",
 ["filters/ascii/filter.go","filters/ascii/fold.go"],[("case per character","filters/ascii/fold.go FoldString"),("filter","filters/ascii/filter.go Fold")],["ascii.Fold","ascii.FoldString"])
p("C16","Normalization filters put every token in its normal form",
 "For every text and each of NFC, NFD, NFKC and NFKD, each token comes out in that Unicode normal form, as a lemma if that changed it and otherwise as it was (same text and flags); none is added or lost, and applying the filter again changes nothing.",
 ["inputs"],"every code point with and without marks, every text, each of the four forms",
 "tests check one word per form",
 ["filters/norm/filter.go"],[("form per filter","filters/norm/filter.go")],["norm.NFC","norm.NFD","norm.NFKC","norm.NFKD"])
p("C17","Stemmers stem every word with Snowball and nothing else",
 "For every text or HTML and each of English, French, Norwegian, Russian, Spanish and Swedish, each word token whose Snowball stem in that language (stop words included) differs from it and is not empty becomes a lemma with that stem. Every other token, punctuation and space in particular, comes out unchanged; none is added or lost.",
 ["inputs","configurations"],"every text × six languages",
 "one test stems a few English words",
 ["filters/stemmer/filter.go"],[("stem words only","filters/stemmer/filter.go")],["stemmer.English","stemmer.French","stemmer.Norwegian","stemmer.Russian","stemmer.Spanish","stemmer.Swedish"])
p("C18","Stop word filters drop exactly the listed tokens",
 "For every list of stop words (words, punctuation, spaces, in any script), with or without case, and every token stream, exactly those tokens whose text is on the list at the time the filter is made (compared in lower case if case is ignored) are dropped; all others come out unchanged and in order.",
 ["inputs","configurations"],"every list × case option × every stream",
 "one test has one list and one sentence",
 ["filters/stopwords/filter.go"],[("set of words","filters/stopwords/filter.go")],["stopwords.NewFilter"])
p("C19","Handles and hashtags are coalesced exactly where they are legal",
 "For every token stream, a sigil (@ or #, or another for a custom filter) that is at the start or after punctuation or space, and is directly followed by a token that is legal, becomes one lemma with it; after a word, or before anything else, sigil and token stay as they are, and all other tokens too. A Twitter handle is legal with 1 to 15 ASCII letters, digits and underscores; a hashtag with letters, numbers and underscores, and a single character must be a letter.",
 ["inputs","configurations"],"every stream, including doubled sigils, sigils at the end and sigils after words",
 "tests check about a dozen strings",
 ["filters/sigil/filter.go","filters/twitter/filter.go"],[("one token of look-ahead","filters/sigil/filter.go"),("legality","filters/twitter/filter.go")],["sigil.NewFilter","twitter.Handles","twitter.Hashtags"])
p("C20","Mapping filters apply their functions in order to every token",
 "For every list of functions and every token stream, a mapping filter gives exactly one token per token, in order: the functions applied one after the other, in the order given, each called once per token. The filter can be used again on another stream.",
 ["inputs","configurations"],"every list of functions × every stream",
 "the tests of the mapping filter apply one or two functions to one sentence",
 ["filters/mapper/filter.go"],[("composition","filters/mapper/filter.go NewFilter")],["mapper.NewFilter"])
p("C21","Token queues are first in, first out, and never lose or share tokens",
 "For every history of pushing, popping, dropping, clearing, and moving one or all tokens between different queues, each queue holds exactly the tokens pushed or moved to it and not yet removed, in order, with matching length and emptiness; operations on one queue never affect another, also if both were made from or given the same list of tokens. Popping and dropping never concern more tokens than there are.",
 ["histories"],"every sequence of operations on several queues",
 "tests push, pop and flush once",
 ["tokenqueue/queue.go"],[("slice operations","tokenqueue/queue.go")],["tokenqueue.TokenQueue"],
 [("tokens","the tokens in the queue","tokenqueue/queue.go")])
p("C22","Filters compose: whatever is not a lemma is the original text, in order",
 "For every text or HTML and every chain of the built-in filters, the chain gives what its filters give one after the other on complete lists. Tokens that are not lemmas are tokens of the source, unchanged and in their original order, and every token of the source that was not kept was replaced by a lemma, unless a filter in the chain drops tokens by design.",
 ["inputs","configurations"],"every chain of up to five filters × every text, also invalid UTF-8",
 "tests run single filters",
 ["tokenstream.go","filters/synonyms/filter.go","filters/sigil/filter.go","filters/contractions/filter.go"],[("stages pass on tokens they do not change","filters/synonyms/filter.go"),("Filter","tokenstream.go")],["TokenStream.Filter"])
p("C23","The jargon command outputs exactly what its flags ask for",
 "For every input, from a pipe, a redirected file or -file (a named pipe too), to stdout or an -out file (new or existing, which is replaced), and every set of flags given at most once each in any of the flag forms (-x, --x, =true, =false), the command writes exactly the tokens of the input (as HTML with -html), filtered in the order in which the filter flags (-stack, -contractions, -ascii, -stem in the language of -lang, -lemmas, -distinct) are given; each followed by a line feed with -lines; or just their number and a line feed with -count. It exits with 0, writes nothing else, and leaves the input file alone; -version prints the version only.",
 ["inputs","configurations"],"every input (sizes around the buffers too) × every ordered set of flags × forms × kinds of input and output",
 "tests check how flags map to settings on a few in-memory files; the command itself never runs",
 ["cmd/jargon/main.go"],[("order of arguments","cmd/jargon/main.go setFilters"),("buffers and flush","cmd/jargon/main.go setReader, setWriter, execute")],["the jargon binary"])
p("C24","The jargon command never fails silently",
 "If input cannot be opened or read to its end, is given both by -file and stdin, is the -out file as well, has a token that is too long, or output cannot be created or written completely, or the flags are wrong (unknown flag or value, unknown -lang with -stem), the command exits with a nonzero code and a message on stderr, and never pretends success with missing output; what it wrote is a prefix of the right output. Wrong flags and input that is missing, given twice or the -out file leave an existing -out file as it was and create none, and without any input it prints its usage and writes no output.",
 ["fault_sequences","inputs","configurations"],"every kind of fault, at every byte of the output, × flags × sizes below and above the buffers",
 "tests have no failing input or output",
 ["cmd/jargon/main.go"],[("check","cmd/jargon/main.go main"),("errors of writing and flushing","cmd/jargon/main.go execute")],["the jargon binary"])
p("C25","The web demo returns the whole text, escaped, with lemmas marked",
 "For every body (valid UTF-8 without NUL, any size) posted to /text or /html, alone or at the same time as other requests, the response has status 200 and is the tokens of that body (as HTML for /html) with Stack Overflow terms replaced: each lemma in <span class=\"lemma\">…</span>, everything HTML-escaped (quotes too), so that unescaping it gives the tokens and no markup of the body gets through.",
 ["inputs","schedules"],"every body × both routes × concurrency of requests",
 "one test posts one text and looks for two substrings",
 ["web/main.go"],[("templates escape","web/main.go lemma, plain"),("buffered response","web/main.go jargonHandler")],["HTTP responses of the web binary"])
p("C26","The web demo routes by path and answers broken requests with an error",
 "Requests whose first path segment is exactly text or html are processed, with any method but OPTIONS; OPTIONS gets status 200 and an empty body; /_ah/health gets ok; any other path gets 404; all responses have the CORS headers that allow any origin and X-Requested-With. A body that ends early, is malformed or has a token that is too long is answered with status 500, and the server goes on serving.",
 ["histories","fault_sequences","inputs"],"every method × path, every kind of broken body, every sequence of such requests",
 "the only test calls one handler with one good request",
 ["web/main.go"],[("routing","web/main.go mainHandler, jargonHandler"),("errors of the stream","web/main.go jargonHandler"),("CORS","web/main.go cors")],["HTTP responses of the web binary"])
p("C27","The contractions generator writes the complete table",
 "Every run of the generator of the contractions table writes, in the current directory, a formatted Go file generated.go of package contractions that compiles, and whose table has exactly each contraction in lower, capitalized and upper case, with straight and curly apostrophes, with its expansion in the same case; a previous file is replaced completely. The shipped filter expands contractions as this table says, and if the file cannot be written the generator fails.",
 ["histories","fault_sequences"],"every run (its order is random), every previous file, every point at which the disk is full",
 "tests count the entries of the table in memory; the file is never generated",
 ["filters/contractions/generate/main.go","filters/contractions/generated.go"],[("variations","filters/contractions/generate/main.go getMappings"),("writing","filters/contractions/generate/main.go write")],["generated.go"])
p("C28","The Stack Overflow generator turns the tag pages into the right table",
 "For every sequence of pages that the Stack Exchange tags API may give (tags of lower-case letters, digits and + # . -, at most 20 pages are read, until there are no more), the generator writes, in the current directory, a formatted Go file generated.go of package stackoverflow that compiles and maps each tag's synonyms, without those it ignores, hyphens replaced by spaces, joined by commas, to the tag, and each tag's name in that form to the tag, unless it is ignored or already a synonym; moderator-only tags are left out. Before the next page, it waits for as long as the API asks it to. If the API reports an error, asks to wait for more than 10 seconds, or its answer is broken or missing, the generator fails and leaves the file as it was; if the file cannot be written completely, it fails.",
 ["inputs","fault_sequences"],"every sequence of pages of tags × faults at the last page × previous files",
 "there is no test of it: it needs a network",
 ["filters/stackoverflow/generate/main.go"],[("two passes per page","filters/stackoverflow/generate/main.go writeDictionary"),("errors","filters/stackoverflow/generate/main.go fetchTags")],["generated.go"])
p("C29","The NBA generator turns the roster page into the right table",
 "For every roster page (team tables with a sortable table of players, whose third column links to the player as Last, First, amid other links, columns and tables), the generator writes, in the current directory, a formatted Go file generated.go of package nba that compiles and maps, for each player, the name as First Last, followed by a comma and its ASCII folding if that differs, to First Last. If the page does not come with status 200 and completely, or a name does not have exactly one comma, the generator fails with a message and leaves the file as it was; if the file cannot be written completely, it fails.",
 ["inputs","fault_sequences"],"every roster page × faults × previous files",
 "there is no test of it: it needs a network",
 ["filters/nba/generate/main.go"],[("selection of links","filters/nba/generate/main.go fetchNames"),("names","filters/nba/generate/main.go getMappings")],["generated.go"])
p("C30","The jargon command streams: output keeps up, in constant memory",
 "For input of any size, endless too, from a pipe or a named pipe by -file, to a pipe or a named pipe by -out, and any flags: output comes while input is still arriving, never more than about 3 MB of buffers behind it (-count excepted, which has one line to say at the end, and tokens that are filtered out), all input is taken, and the memory that the command uses does not grow with the size of the input (-distinct excepted).",
 ["inputs","configurations","schedules"],"every set of flags × kind of input and output × size of input, before its end",
 "tests never run the command; reading everything first gives the same output for any finite input",
 ["cmd/jargon/main.go","tokenstream.go","tokenizer.go","tokenizer_html.go"],[("buffered reader and writer around a lazy stream","cmd/jargon/main.go setReader, setWriter, execute"),("WriteTo","tokenstream.go")],["the jargon binary, by pipes and its peak memory"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))

TECH={
"C01":"property-based testing (rapid) and enumeration: round trip and differential against UAX 29 segmentation",
"C02":"property-based testing: metamorphic, over generated partitions of the input into reads",
"C03":"fault injection at every offset of generated inputs, over generated filter chains (rapid)",
"C04":"property-based testing: documents with tokens known by construction, round trip, differential against the HTML tokenizer",
"C05":"exhaustive over code points, and property-based testing against a reference classification",
"C06":"stateful property-based testing: operation histories against a list",
"C07":"model-based property testing against list operators, with a writer failing at every point",
"C08":"model-based property testing against a reference filter, and small-scope enumeration",
"C09":"stateful model-based property testing: histories of additions and searches against a map",
"C10":"property-based testing with endless and instrumented sources",
"C11":"property-based testing of generated schedules under the race detector, against per-stream references",
"C12":"enumeration of the dictionary × spellings, and property-based testing against a reference filter",
"C13":"enumeration of the dictionary × spellings, and property-based testing against a reference filter",
"C14":"exhaustive over contractions × cases, and property-based testing against a reference",
"C15":"exhaustive over code points, and property-based testing against a snapshot of the folding table",
"C16":"exhaustive over code points, and property-based testing against x/text normalization",
"C17":"property-based testing: differential against the Snowball library called directly",
"C18":"property-based testing against a reference filter",
"C19":"exhaustive over code points after sigils, and property-based testing against a reference filter",
"C20":"property-based testing against function composition",
"C21":"stateful model-based property testing: operation histories on several queues against lists",
"C22":"property-based testing: staged composition and provenance invariant over generated filter chains",
"C23":"property-based testing of the built command against the reference pipeline",
"C24":"fault injection and enumeration on the built command (full disk at any byte, broken input, misuse)",
"C25":"property-based testing of the running server against the reference pipeline, with concurrent requests",
"C26":"stateful property-based testing and fault injection over HTTP, enumeration of routes",
"C27":"repeated runs of the generator against a reference table, with disk faults",
"C28":"property-based testing of the generator against a simulated API, with injected faults",
"C29":"property-based testing of the generator against a simulated site, with injected faults",
"C30":"property-based testing of the built command on endless input: bound on the lag of output, metamorphic bound on memory",
}
FAULT={"C03","C24"}
checks=[]
for x in P:
    i=x["id"]
    checks.append({"property":i,"quick_cmd":"python3 check.py %s quick"%i,"thorough_cmd":"python3 check.py %s thorough"%i,"technique":TECH[i],
      "level":"fault_enumeration" if i in FAULT else "exploration",
      "level_note":"Generated and enumerated cases, seeded by VERIF_SEED, against an explicit oracle; counts, rules and samples are in the evidence. It shows the absence of violations in the cases explored, not in all. Trusts the reference models and snapshots in harness/, and the third-party modules as installed."})
json.dump({"version":1,"setup_cmd":"python3 check.py --build","checks":checks,"not_applicable":[],"notes":"No hooks: the harness uses public APIs and the built binaries only. See DESIGN.md."},open("/verif/MANIFEST.json","w"),indent=1,ensure_ascii=False)
open("/verif/MANIFEST.json","a").write("\n")
