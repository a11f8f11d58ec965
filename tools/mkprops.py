import json
P=[]
def p(id,title,st,over,qt,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
NOTEST="No existing test touches this code at all (TestSimple/TestZeros only print)"
p("C01","Stored artifacts reload faithfully through any stream fragmentation",
 "When a dictionary, guide, ranked guide or index is written to a stream and the write reports success, reading it back reports success, however the stream splits or delays the bytes, and yields an object that answers every lookup, completion and numbering query exactly as the original did. A write emits and a read consumes exactly the announced file size, so artifacts stored one after another in one stream load one after another. Images written by the released version keep loading with the same content.",
 ["inputs","fault_sequences","schedules"],
 "for every content, every subset and order of artifacts in one stream, every division of the bytes over Read/Write calls (short, one-byte, empty, data together with EOF), and every interleaving with other users of the same objects",
 NOTEST+"; persistence is untested and a test would sample one reader that delivers everything at once.",
 ["dictionary.go","guide.go","ranked_guide.go","index.go"],
 [("count header + little-endian units, read in full","Read/Write of Dictionary, Guide, RankedGuide, Index"),("announced size","FileSize/TotalSize")],
 ["Write(io.Writer)","Read(io.Reader) / Read*(io.Reader)","lookups, completers and indexers over the reloaded objects"],
 state=[("units","the double array / child-sibling labels / counts that make up the image","dictionary.go, guide.go, ranked_guide.go, index.go")])
p("C02","An interrupted load is reported and changes nothing",
 "If a stream ends or fails before the last byte of a dictionary, guide, ranked guide or index has been delivered, the load reports failure without a panic, whatever the byte at which it stops. An object that was being reloaded then still holds all of its previous content, and a later load from a complete stream succeeds and replaces the content entirely.",
 ["crash_points","fault_sequences","histories"],
 "for every artifact, every byte at which the stream ends or returns an error, every fragmentation before that point, and every sequence of failed and successful loads into the same object, also when other goroutines run in between",
 NOTEST+"; the crash point ranges over every byte of every image.",
 ["dictionary.go","guide.go","ranked_guide.go","index.go"],
 [("read into a temporary, install on success","Read of each artifact"),("constructor returns nil on failure","ReadDictionary, ReadGuide, ReadRankedGuide, ReadIndex")],
 ["result of Read*/Read","answers and image of the object after a failed Read"])
p("C03","A failed write is reported and leaves at most a torn prefix",
 "Writing a dictionary, guide, ranked guide or index reports success only if the medium accepted every byte of the image. If the medium fails at any point the write reports failure, what reached the medium is a prefix of the image, and no load accepts a strict prefix as the artifact. The object itself stays intact, so that writing it again to a healthy medium succeeds with the same image.",
 ["crash_points","fault_sequences","histories"],
 "for every artifact, every byte at which the medium fails (error with a short write, disk full, refused write, crash with only the bytes so far surviving) and every sequence of failed and successful writes, also when other goroutines run in between",
 NOTEST+"; needs a failing writer at an arbitrary byte.",
 ["dictionary.go","guide.go","ranked_guide.go","index.go"],
 [("every write error is checked","Write of each artifact")],
 ["result of Write","bytes on the medium","image and answers of the object afterwards"])
p("C04","Concurrent readers of one dictionary get the answers of a sequential map",
 "Any number of goroutines may share one dictionary with its guides and index for lookups, completions and numbering, each with cursors of its own, while others write it to streams. At every interleaving each of them gets exactly the answers of a plain map of the inserted keys: a stored key is found with its value and every other byte string is reported as not found. No read operation changes the shared objects, and results handed out earlier stay as they were.",
 ["schedules","inputs"],
 "for every content, every set of client programs and every interleaving of their statements, including preemption in the middle of any operation",
 "The tests are single-threaded; a hidden write in a read path shows only when another goroutine runs between two particular statements.",
 ["dictionary.go","dictionary_unit.go","guide.go","ranked_guide.go","index.go","indexer.go","completer.go","ranked_completer.go"],
 [("read paths only read the shared units","Dictionary.Follow/Value/HasValue, Guide.Child/Sibling"),("all cursor state is in the completer","Completer, RankedCompleter")],
 ["Contains*/Find*","Completer/RankedCompleter/Indexer results","image of shared objects"],
 hook="statement-level yield points are inserted into a scratch copy of the sources at build time; none in /repo")
p("C05","Plain completion lists exactly the keys under a prefix, once, in byte order",
 "A completer started at the position of a prefix yields every stored key that begins with the prefix exactly once, in ascending byte order, with that key's text, length and value, and then reports the end and keeps reporting it until it is started again. This holds for any number of completers over one dictionary advanced in any interleaving, and for a completer that is restarted at any point of an earlier enumeration. Every step finishes in a bounded number of steps.",
 ["histories","schedules","inputs"],
 "for every content (including the empty dictionary and the empty key), every prefix, every history of start / next / abandon / restart over any number of cursors, and every interleaving of their owners",
 NOTEST+"; the enumeration depends on the history of the cursor.",
 ["completer.go","guide.go","guide_builder.go","dictionary.go"],
 [("child/sibling labels in dictionary order","guide_builder.go buildIndices"),("explicit stack, reset on start","completer.go Start*/Next")],
 ["Key/Length/Value after each Next","Next at and after the end"],
 state=[("path, index stack","position of the cursor","completer.go")])
p("C06","Ranked completion lists exactly the keys under a prefix, best value first",
 "A ranked completer started at the position of a prefix yields every stored key that begins with the prefix exactly once, with its text, length and value, in an order in which values never increase, and then reports the end and keeps reporting it until it is started again. This holds for any number of ranked completers over one dictionary advanced in any interleaving, and for one that is restarted at any point of an earlier enumeration. Every step finishes in a bounded number of steps.",
 ["histories","schedules","inputs"],
 "for every content and value assignment (ties, extremes), every prefix, every history of start / next / abandon / restart over any number of cursors, and every interleaving of their owners",
 NOTEST+"; ranking depends on the order in which candidates were queued over the whole history of the cursor.",
 ["ranked_completer.go","ranked_completer_candidate.go","ranked_guide.go","ranked_guide_builder.go","ranked_guide_link.go"],
 [("children ordered by best value below","ranked_guide_builder.go"),("priority queue of candidates, lazy sibling expansion","ranked_completer.go Next")],
 ["Key/Length/Value after each Next","Next at and after the end"],
 state=[("nodes, node queue, candidate queue","frontier of the cursor","ranked_completer.go")])
p("C07","Key numbering is a stable bijection between keys and 0..n-1",
 "An index over a dictionary, built with a plain or a ranked guide, counts exactly the stored keys and numbers them 0..n-1 without gaps or repeats: key to number and number to key are inverse, numbers follow byte order with a plain guide, every other byte string is reported as not found and every number from n on yields nothing. The numbering is the same for every goroutine using it at any interleaving, also if they share one indexer, and the same after the artifacts were stored and reloaded through any stream.",
 ["inputs","schedules","fault_sequences"],
 "for every content (including empty), either kind of guide, every query, every interleaving of users, and every save/reload of the artifacts in between",
 NOTEST+".",
 ["index.go","index_builder.go","indexer.go"],
 [("subtree counts shared by merged states","index_builder.go buildIndices"),("prefix sums along the guide order","indexer.go")],
 ["StringToIndex/BytesToIndex","IndexToString/IndexToBytes","TotalCount"])
p("C08","A builder's history decides its content: accepted inserts and nothing else",
 "A builder accepts an insert exactly if the key is not below the last accepted key in byte order, contains no zero byte and the value is not negative; inserting the same key again replaces its value, and a refused insert has no effect. After finishing, the dictionary contains exactly the accepted keys with their last values, whatever the caller does with its buffers afterwards, and the builder starts afresh and can be used for any number of further builds. Builders used by different goroutines do not affect each other.",
 ["histories","inputs","configurations","schedules"],
 "for every sequence of inserts (accepted, refused, repeated), finishes and reuses of a builder, every initial table size of one or more, every content size, and every interleaving with other builders",
 "The two tests insert eleven sorted keys and print; hash table growth, merging, block fixing, refusals and reuse depend on long histories.",
 ["dawg_builder.go","dawg.go","dawg_unit.go","base_unit.go","bit_pool.go","dictionary_builder.go","dictionary_unit.go","dictionary_extra_unit.go","link_table.go"],
 [("order check against the unfixed path","dawg_builder.go InsertKeyValue"),("merging of equal states through a hash table","dawg_builder.go fixUnits/findUnit/expandHashTable"),("double-array placement and unit labelling","dictionary_builder.go"),("reset after finish","dawg_builder.go clear")],
 ["result of Insert*","lookups over the built dictionary"],
 state=[("unfixed units, hash table, pools","partially built automaton","dawg_builder.go")])
p("C09","The same content always builds the same artifacts",
 "The images of the dictionary, guide, ranked guide and index, and the reported counts of states, transitions and unused units, depend only on the final set of keys and values. They do not depend on the initial table size, on repeated or refused inserts along the way, on what the builder, the automaton object or the objects that are built into were used for before, or on how many goroutines derive artifacts from one shared automaton at the same time and how they interleave.",
 ["histories","configurations","schedules"],
 "for every content, every pair of histories and configurations that end in it, and every interleaving of concurrent derivations",
 NOTEST+"; it is a relation between two histories.",
 ["dawg_builder.go","dictionary_builder.go","guide_builder.go","ranked_guide_builder.go","index_builder.go","dawg.go"],
 [("all builder state is per object and reset","dawg_builder.go clear, NewDictionaryBuilder"),("merging finds every equal state","dawg_builder.go findUnit")],
 ["bytes written by Write","NumOf* statistics"])
p("C10","UTF-C coding is exact under concurrency, nesting and aborts",
 "However encodings and decodings are interleaved between goroutines or nested in one another's byte consumers, the encoding of every valid Unicode string contains no zero byte and decodes to that string, and results already returned never change. A consumer that refuses a byte at any point has received exactly the bytes of the full encoding up to and including that byte, nothing after it, and the call reports the abort; otherwise it reports success and has delivered the full encoding. Encoding is incremental: the encoding of a prefix is a prefix of the encoding, also through a state that is copied and continued.",
 ["schedules","inputs","fault_sequences"],
 "for every valid Unicode string, every byte at which the consumer aborts, every nesting and interleaving of calls",
 "The tests round-trip about 60 strings one at a time; window switches and zero markers depend on the whole sequence of characters and on state shared between calls.",
 ["utfc.go"],
 [("state of one encoding is local to it","utfc.go UtfcFollow/UtfcEncode"),("zero markers","utfc.go"),("abort on refused byte","utfc.go UtfcState.Follow")],
 ["UtfcEncode","UtfcDecode","UtfcFollow","UtfcState.Follow/Copy/Clear"],
 state=[("offs, auxOffs, is21Bit","current windows","utfc.go UtfcState")])
p("C11","dawgtool never reports success for an incomplete dictionary",
 "When dawgtool builds a dictionary, it exits with status 0 only if the dictionary file holds the complete artifacts of every key of the lexicon, each with the value of its last line, and with a non-zero status if reading the lexicon or creating, writing or closing the dictionary file fails anywhere. A valid lexicon on healthy files always builds, with any fragmentation of the reads, and with sorting requested in any order of lines. After a failed or crashed build, the dictionary file is as it was before, or is refused when it is loaded with the same options, or answers exactly like the complete dictionary.",
 ["crash_points","fault_sequences","inputs","configurations"],
 "for every lexicon, every combination of the build options, every point at which a file operation fails, stops short or the process dies",
 "cmd/dawgtool has no tests at all; failures of files are not reachable without a fault injector.",
 ["cmd/dawgtool/main.go"],
 [("every failed step ends in log.Fatal","cmd/dawgtool/main.go handleBuildDict, main"),("scan and close errors are checked","cmd/dawgtool/main.go")],
 ["exit status","bytes of the dictionary file","answers of the tool over that file"],
 hook="the import of os is redirected to a fault-injecting shim in a scratch copy of the sources at build time; none in /repo")
p("C12","dawgtool answers queries exactly or reports failure",
 "When dawgtool loads a dictionary file and answers queries, each query line gets exactly the stored keys it asks for (prefixes, completions or ranked completions, with values and numbers as requested, as text also if keys are stored in UTF-C) and the listing of all numbered keys is complete. If the dictionary file is cut short or fails at any byte of the artifacts asked for, or opening or reading the query file or writing the answers fails, the tool exits with a non-zero status, and whatever lines it printed before are still correct answers. Fragmentation of reads does not change the output.",
 ["crash_points","fault_sequences","inputs","configurations"],
 "for every dictionary file, query list and combination of load options, and every point at which reading either file or writing the output fails or the dictionary file ends early",
 "cmd/dawgtool has no tests at all.",
 ["cmd/dawgtool/main.go","dictionary.go","guide.go","ranked_guide.go","index.go"],
 [("failed reads end in log.Fatal","cmd/dawgtool/main.go handleLoadDict")],
 ["exit status","standard output"],
 hook="as C11")
p("C13","Walking a dictionary step by step is exact for any division into steps",
 "A position obtained by following bytes from the root, in any division of the query into calls and with any other use of the dictionary in between, exists exactly as long as the bytes followed are a prefix of some stored key, and carries a value exactly if they are a stored key. A single step that cannot be taken reports failure and leaves the position where it was; multi-byte steps report how many bytes matched. Positions are plain values: they can be kept, copied and handed between goroutines.",
 ["histories","schedules","inputs"],
 "for every content, every query byte string (including zero bytes and bytes that occur in no key), every division into steps, every interleaving of walkers sharing positions",
 NOTEST+"; unused units and leaf values must never be mistaken for transitions, which depends on the layout of the whole dictionary.",
 ["dictionary.go","dictionary_unit.go","dictionary_builder.go"],
 [("labels of unused units are made unreachable","dictionary_builder.go fixBlock"),("leaf flag is part of the label","dictionary_unit.go"),("offset encoding with extension bit","dictionary_unit.go")],
 ["Follow*","HasValue/Value"])
p("C14","Whatever its history, a builder makes the minimal automaton",
 "An automaton built for a set of keys and values has exactly one state for each distinct continuation (suffixes with their values) of a prefix, so that all equivalent states are merged, and the reported numbers of states, transitions, merged and merging states and merged transitions are those of this minimal automaton. This holds at every growth of the table of states, after repeated and refused inserts, for reused builders and automaton objects and for builders interleaved by different goroutines, and the automaton stays so while its builder is used further and artifacts are derived from it.",
 ["histories","configurations","schedules"],
 "for every set of keys and values, every history of inserts that ends in it, every initial table size, every interleaving with other builders",
 NOTEST+"; whether equal states meet depends on when the table grows and what was recycled before.",
 ["dawg_builder.go","dawg.go","dawg_unit.go","bit_pool.go"],
 [("equal states are found","dawg_builder.go findUnit, areEqual"),("all states are in the grown table","dawg_builder.go expandHashTable"),("counts","dawg_builder.go fixUnits, Finish")],
 ["NumOf* statistics","Dawg.Child/Sibling/Label/IsLeaf/Value"])
p("C15","The binary layout is that of the C++ library dawgdic",
 "A dictionary, guide or ranked guide image has the layout of the C++ library this is a port of, so that files can be exchanged with it.",
 ["inputs"],"for every content","No test compares images.",
 ["dictionary.go","guide.go","ranked_guide.go","dictionary_unit.go"],[("same unit layout and byte order","dictionary_unit.go")],["bytes written by Write"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
