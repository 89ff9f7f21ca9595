import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","No input can crash the parser",
 "For every file content and every password, parsing the file - through the command line or the library, verbose or not - and reading any of its objects returns normally, with a result or an error value. It never panics, exhausts the stack, or aborts the process.",
 ["inputs"],"every byte sequence as the input file (valid, malformed, truncated, mutated, deeply nested, encrypted with damaged parameters, self-referencing), every password, every object number",
 "The tests parse 36 fixed small files, never call Parse or the command line, and never reach encryption dictionaries with damaged entries, hostile xref-stream widths, predictor parameters, self-referencing filters, decode bombs, or chains of a hundred thousand references or kids.",
 ["main.go","pdf/pdf.go","pdf/parser.go","pdf/filters.go","pdf/encryption.go","pdf/reference.go","pdf/font.go","pdf/page.go","pdf/logger.go","pdf/utility.go"],
 [("typed getters returning ok flags","pdf/dictionary.go, pdf/array.go"),("nesting limit","pdf/parser.go ReadObject"),("only whole cipher blocks are decrypted","pdf/encryption.go Decrypt"),("iterative walks over reference chains, Prev chains and page and name trees","pdf/reference.go resolve, pdf/parser.go loadXref, pdf/dictionary.go ResolveKids, getNameTreeMap"),("cap on decoded size","pdf/filters.go")],
 ["exit status and stderr of a worker process that runs Parse","return of Load and GetObject"])

p("C02","Work is bounded by the data present, not by what it claims",
 "Processing any input terminates. Neither cycles among references, cross-reference sections, page trees or name trees, nor declared counts, field widths, code ranges, sizes, lengths or decode parameters can make time or memory grow out of proportion to the bytes actually present in the file and its decoded streams.",
 ["inputs"],"every input of a few kilobytes containing any combination of cyclic structure and arbitrarily large declared numbers",
 "The loop tests cover one self-reference, one xref loop and one cmap; the quantifier ranges over all cycles and all declared numbers at every place where one is consumed.",
 ["pdf/parser.go","pdf/reference.go","pdf/dictionary.go","pdf/font.go","pdf/filters.go","pdf/utility.go"],
 [("visited sets","pdf/reference.go resolve, pdf/dictionary.go ResolveKids and getNameTreeMap, pdf/parser.go loadXref"),("loops stop at end of data","pdf/parser.go loadXrefTable, loadXrefStream; pdf/font.go NewFont")],
 ["CPU time and peak memory of the worker per case","bytes requested from the underlying reader"])

p("C03","Every legal spelling of an object parses to the value it denotes",
 "However an object is legally written - any whitespace, end-of-line convention or comment between tokens, literal or hexadecimal strings with escapes, octal codes, line continuations and balanced parentheses, names with #xx codes, integer and real numbers, keywords, references, and arbitrarily nested arrays and dictionaries - reading it yields exactly the value it denotes. A dictionary or array keeps every entry it was written with (the last one for a repeated key).",
 ["inputs"],"every object value and every legal spelling of it, at any nesting depth up to some hundreds",
 "The tests fix about ten spellings; tokenizer state (unread bytes, octal run lengths, end-of-line pairs, number look-ahead for references) depends on the byte that follows and on neighbouring tokens.",
 ["pdf/parser.go","pdf/number.go","pdf/name.go","pdf/string.go","pdf/array.go","pdf/dictionary.go"],
 [("recursive-descent reader","pdf/parser.go ReadObject, ReadArray, ReadDictionary, ReadString, ReadHexString, ReadName, ReadNumber, ReadKeyword, consumeWhitespace")],
 ["value returned by GetObject"])

p("C04","Malformed syntax is reported and does not hide its neighbours",
 "Whenever an object contains one of the abnormalities documented for errors.txt (unclosed or invalid strings, hex strings, names, arrays, dictionaries, streams, escapes, non-name dictionary keys, missing values, unnecessary escapes), errors.txt contains that message and the well-formed values before it, and after it where the construct is closed, are still delivered. errors.txt names no abnormality the file does not contain; in particular a file free of abnormalities leaves it empty.",
 ["inputs"],"every documented abnormality, at every position inside arbitrary surrounding well-formed content",
 "Tests only look at the returned value of single-abnormality files with no output attached, so nothing ever checks what is logged, nor that clean files log nothing.",
 ["pdf/parser.go","pdf/errors.go","pdf/output.go"],
 [("log_error at each recovery point","pdf/parser.go"),("message list","pdf/errors.go, README.md")],
 ["errors.txt written by Parse","value returned by GetObject"])

p("C05","Results do not depend on byte positions or on how reads are chunked",
 "Shifting objects inside the file by any amount of whitespace or comments, or delivering the same bytes through a reader that returns them in arbitrary smaller pieces, changes neither any object's value or stream nor which objects exist nor what is logged.",
 ["inputs","schedules"],"every displacement of every token relative to internal buffer boundaries, and every pattern of short reads",
 "All test files are smaller than one read buffer, so no token ever straddles a buffer boundary and no read is ever short.",
 ["pdf/parser.go","pdf/utility.go"],
 [("Seek/CurrentOffset over a buffered reader","pdf/parser.go Seek, CurrentOffset"),("multi-byte reads (stream marker window, dictionary marker, startxref window)","pdf/parser.go ReadStream, ReadDictionary, getStartXrefOffset")],
 ["values from GetObject over a shaped io.ReadSeeker","Parse output for displaced files"])

p("C06","Stream filters restore the original data exactly",
 "Data encoded with any sequence of the ASCIIHex, ASCII85, RunLength, Flate and LZW (either EarlyChange) filters, using any legal encoder choices (whitespace, end markers, odd hex digits, z groups, partial groups, run splitting, compression level, code-table resets), is restored byte for byte (up to 256 MB of decoded data), whether Filter is a name, an array, or a reference. A filter name that is not supported leaves its input unchanged, and an empty stream stays an empty stream.",
 ["inputs"],"all byte strings, filter sequences and encoder choices",
 "One fixed vector per filter; partial groups, table overflow, run lengths of 1 and 128, whitespace inside groups and filter orders are not sampled.",
 ["pdf/filters.go","pdf/parser.go"],
 [("decoders","pdf/filters.go DecodeStream and the *Decode functions"),("filter list handling","pdf/parser.go GetObject, ReadStream")],
 ["stream returned by GetObject"])

p("C07","Predictor-coded streams are restored exactly",
 "Flate and LZW streams coded with the TIFF predictor (2) or any PNG predictor (10-15, the algorithm of each row given by its tag byte) are restored byte for byte, for every number of colors, bits per component (1, 2, 4, 8, 16), column count and row count, including a final partial row.",
 ["inputs"],"all image-shaped and arbitrary data, predictors, colors, bit depths, columns, row counts and per-row algorithms",
 "No test uses a predictor at all.",
 ["pdf/filters.go","pdf/utility.go"],
 [("predictor reversal","pdf/filters.go ReversePredictor"),("bit access","pdf/utility.go GetBits, SetBits")],
 ["stream returned by GetObject"])

p("C08","Damaged streams still yield everything decodable before the damage",
 "When encoded stream data is cut short or corrupted, or its end-of-data or endstream marker is missing, the result begins with every byte that can be decoded before the damage; nothing is dropped because an error occurred later. Illegal characters in ASCII filters affect only the group they occur in: one in place of a hex digit spoils at most its byte, and an extra one in ASCII85 data is ignored.",
 ["inputs","fault_sequences"],"every filter, every original, every truncation point and corruption position",
 "No test decodes damaged data.",
 ["pdf/filters.go","pdf/parser.go"],
 [("error results of decompressors ignored when output exists","pdf/filters.go FlateDecode, LZWDecode"),("partial groups","pdf/filters.go ASCII85Decode, ASCIIHexDecode, RunLengthDecode"),("unclosed stream flush","pdf/parser.go ReadStream")],
 ["stream returned by GetObject"])

p("C09","The newest cross-reference section decides every object",
 "For a file with any chain of incremental updates - cross-reference tables, cross-reference streams (any field widths, Index subsections, filters and predictors), or a mix, linked by Prev - reading an object returns the value and generation recorded by the newest section that mentions it, objects freed by the newest section are not reported, and older versions never reappear, wherever they lie in the file.",
 ["inputs","histories"],"all update histories (define, redefine, free, revive), section kinds, subsection splits, widths, and physical orders",
 "Tests check the number of entries for four tiny chains and one object value; they never redefine or free an object across sections.",
 ["pdf/parser.go","pdf/xref.go","pdf/utility.go"],
 [("Prev-first loading with later sections overriding","pdf/parser.go Load, loadXref, loadXrefTable, loadXrefStream")],
 ["GetObject and Xref after Load","Parse output"],
 [("Parser.Xref","object number to location map","pdf/parser.go")])

p("C10","Objects are found even when cross-reference data are missing or wrong",
 "If an object is present in the file but no cross-reference section mentions it, or the entry for an in-use object does not lead to that object's header, the object as last written in the file is read anyway. This includes files that end early: every object that is completely there is read. Entries that do lead to the right object are left alone.",
 ["inputs","fault_sequences"],"every subset of entries removed or corrupted (offset shifted, swapped, past the end, startxref missing or wrong, file cut at any byte), for all documents",
 "One fixture with one missing object; no wrong offset is ever tested.",
 ["pdf/parser.go"],
 [("object scan and repair","pdf/parser.go findObjects, findXrefOffsets, Load")],
 ["GetObject after Load"])

p("C11","The right user password decrypts every string and stream exactly",
 "A document encrypted by the standard handler (V 1, 2 or 4; R 2, 3 or 4; RC4 of 40-128 bits, AESV2, Identity filters, per-stream Crypt overrides, separate embedded-file filter, EncryptMetadata either way) and opened with its user password yields exactly the plaintext strings and stream data for every object number and generation. The encryption dictionary itself and cross-reference streams are never decrypted.",
 ["inputs","configurations"],"all handler configurations, key lengths, passwords (empty to longer than 32 bytes), object numbers, generations and data lengths",
 "One RC4 fixture with an empty password, comparing a few bytes; AES, key lengths, passwords and crypt filters are never exercised.",
 ["pdf/encryption.go","pdf/parser.go"],
 [("key derivation and verification","pdf/encryption.go Init, computeEncryptionKey"),("per-object keys","pdf/encryption.go NewDecryptor"),("filter choice","pdf/parser.go GetObject")],
 ["values and streams from GetObject","Parse output"])

p("C12","A wrong password or unsupported encryption yields an error, not garbage",
 "Opening an encrypted document with a password that is not its user password fails with the incorrect-password error; an unsupported handler, version or revision fails with the unsupported error, and missing required entries (O, U, P, ID, or an Encrypt that is not a dictionary) with the missing-information error. In each case Parse returns that error and no content is extracted. An Encrypt entry written as null counts as no entry: the document is not encrypted and opens with any password.",
 ["inputs","configurations"],"all encrypted documents and all passwords other than the user password; all unsupported or incomplete encryption dictionaries",
 "No test opens a document with a wrong password or an unsupported handler.",
 ["pdf/encryption.go","pdf/parser.go","pdf/pdf.go","main.go"],
 [("password verification","pdf/encryption.go Init"),("error return before extraction","pdf/pdf.go Parse")],
 ["error returned by Load and Parse","files in the output directory"])

p("C13","References resolve to the object they name and never disturb reading",
 "A reference, directly or through a chain of references, resolves to the value (or stream) of the object it names; a missing object or a cycle resolves to null. Every typed accessor gives the same answer for a referenced value as for the same value written in place, answers 'absent' for a value of another type, and resolving does not change what is read next.",
 ["inputs","histories"],"all reference graphs, all accessor/type combinations, and all interleavings of reading and resolving",
 "Three fixed files with a chain of length one; accessors are hardly called with references.",
 ["pdf/reference.go","pdf/array.go","pdf/dictionary.go","pdf/parser.go"],
 [("resolve with visited set and offset restore","pdf/reference.go"),("typed getters","pdf/array.go, pdf/dictionary.go")],
 ["Resolve, ResolveStream, Get* results"])

p("C14","Every URL, script and launch command is extracted exactly once",
 "Every URI, Base URI, URLS name and URL file specification (in the F or Win entry of an action, or in an EmbeddedFiles tree) appears as a line of urls.txt, every JS string or stream appears in javascript.js, and every command of a Launch action reached through A, OpenAction or AA (file given as a string or dictionary, or in Win with its parameters) appears in commands.txt, wherever in the document its dictionary sits and whether values are direct or references. Each appears exactly once per occurrence and nothing else appears.",
 ["inputs"],"all placements of actions in objects (nested dictionaries and arrays, indirect arrays, streams' dictionaries), direct or referenced, encrypted or not",
 "No test calls the extraction code.",
 ["pdf/object.go","pdf/action.go","pdf/file.go","pdf/pdf.go","pdf/output.go"],
 [("recursive extraction over each object","pdf/object.go extract"),("actions","pdf/action.go, pdf/file.go")],
 ["urls.txt, javascript.js, commands.txt"])

p("C15","Embedded files are dumped byte for byte under their MD5 and listed",
 "Every file in an EmbeddedFiles name tree or embedded in an action's file specification, and every XFA form (single stream or concatenated array) is written to the output directory, byte for byte, under the MD5 of its content, with a files.txt line 'md5:name'; every referenced external file (name tree, action or launch) has a line with the all-zero hash. The dumped files and the non-zero hashes in files.txt correspond exactly.",
 ["inputs"],"all file contents (including ones containing stream keywords or ending in line breaks), names, encodings, and placements",
 "No test calls the extraction code.",
 ["pdf/file.go","pdf/object.go","pdf/action.go","pdf/output.go","pdf/parser.go"],
 [("content-addressed dump and manifest","pdf/output.go DumpFile"),("file specifications","pdf/file.go"),("stream end detection","pdf/parser.go ReadStream")],
 ["files.txt and the files in the output directory"])

p("C16","All text shown on all pages is extracted in order",
 "contents.txt holds one line per text-showing operation (Tj, ', \", TJ with any mix of strings and numbers) inside text objects, in the order of the page tree, the content streams and the operators, with the string's bytes mapped by the font selected at that point (q and Q save and restore it; inline image data are not operators). This holds however the content is split over streams, direct or referenced Contents, filters, resource inheritance (a Resources entry that is null counts as none) and operand spelling.",
 ["inputs"],"all page trees, content programs and their spellings",
 "No test extracts page text.",
 ["pdf/page.go","pdf/font.go","pdf/dictionary.go","pdf/parser.go"],
 [("content interpreter","pdf/page.go extract"),("page tree order","pdf/dictionary.go ResolveKids")],
 ["contents.txt"])

p("C17","ToUnicode maps are applied exactly",
 "A string shown in a font with a ToUnicode map is split into codes of the map's code width and each code listed by a bfchar entry, or covered by a bfrange entry (consecutive destination or array of destinations), is replaced by its destination bytes; codes that are not mapped are kept as they are. Fonts without a map keep the bytes.",
 ["inputs"],"all maps (any number of sections, one- to four-byte codes, arbitrary spelling), all strings",
 "The only cmap test checks that loading finishes.",
 ["pdf/font.go","pdf/page.go","pdf/utility.go"],
 [("cmap reader and decoder","pdf/font.go NewFont, Decode")],
 ["contents.txt"])

p("C18","raw.pdf contains every live object once, decrypted and decoded",
 "raw.pdf contains exactly one 'N G obj ... endobj' entry for every in-use object of the document and none for free ones, each with the object's decrypted value and, if it has a stream, its decrypted and fully decoded data.",
 ["inputs"],"all documents (encrypted or not, any filters, any cross-reference form)",
 "No test calls Parse or reads raw.pdf.",
 ["pdf/pdf.go","pdf/object.go","pdf/dictionary.go","pdf/array.go"],
 [("extraction loop","pdf/pdf.go Parse"),("serialization","pdf/object.go String and the String methods")],
 ["raw.pdf"])

p("C19","Nothing outside the output directory is written or removed",
 "Whatever names, paths and contents the document carries, parsing creates, changes or removes nothing outside the given output directory, leaves the input file (which lies outside that directory) unchanged, and creates in the output directory only the seven documented files and files named by an MD5. Whatever the directory held before is gone, so its content depends only on the input.",
 ["inputs"],"all documents, including file names with absolute paths, parent references, control characters and names of the report files; all previous contents of the output directory",
 "No test writes output.",
 ["pdf/output.go","pdf/file.go","pdf/pdf.go"],
 [("fixed file names and hash names joined to the directory","pdf/output.go NewOutput, DumpFile")],
 ["file-system snapshot around a run as an unprivileged user"])

p("C20","The command line never overwrites without -f and matches the library",
 "Without -f, an existing output path is left exactly as it was and nothing is parsed; with -f or a new path the output equals that of the library call with the same password, with or without -v. Failures (input that cannot be opened, output that cannot be created, wrong password, wrong arguments) are reported with a message and an input that cannot be opened leaves the output path untouched.",
 ["inputs","configurations","histories"],"all combinations of flags, previous states of the output path (absent, empty, filled, file, link), inputs and passwords, in sequences of runs",
 "The command line has no tests.",
 ["main.go","pdf/pdf.go","pdf/output.go","pdf/logger.go"],
 [("existence check","main.go main"),("open input before creating output","pdf/pdf.go Parse")],
 ["directory snapshots, stdout and stderr of the built binary"])

p("C21","Concurrent parses are independent and race-free",
 "Any number of documents parsed at the same time in one process, each into its own directory or through its own parser, give the same results as when parsed one after another, and no data race occurs.",
 ["schedules","inputs"],"all interleavings of parses of all documents, with different passwords and options",
 "Tests run sequentially, one parser at a time.",
 ["pdf/pdf.go","pdf/parser.go","pdf/font.go","pdf/encryption.go","pdf/logger.go"],
 [("per-parser state; package-level values only read","pdf/font.go FontDefault, pdf/encryption.go padding_string and noFilter")],
 ["race detector reports","outputs of concurrent against sequential runs"])

p("C22","Reading is repeatable and independent of history",
 "Parsing the same file again gives the same results up to the order of unordered entries, and on one parser the value and stream of an object are the same however often and in whatever order objects are read, references resolved and accessors called, and whatever the caller does with the values returned.",
 ["histories","inputs"],"all sequences of API calls on one or several parsers over all documents",
 "Each test reads one or two objects once from a fresh parser.",
 ["pdf/parser.go","pdf/reference.go","pdf/pdf.go"],
 [("every read seeks and re-parses","pdf/parser.go GetObject")],
 ["results of API call sequences against a fresh parser","multiset of Parse output lines"])

p("C23","Every resource taken by a parse is released",
 "When a parse returns, successfully or with an error, every file it opened is closed, no goroutine is left running, no temporary file remains, and repeated parsing does not accumulate memory.",
 ["histories","fault_sequences"],"all sequences of successful and failing parses",
 "No test calls Parse or observes descriptors.",
 ["pdf/output.go","pdf/pdf.go"],
 [("deferred Close of input and outputs","pdf/pdf.go Parse, pdf/output.go Close")],
 ["/proc/self/fd, goroutine count and live heap around calls"])

p("C24","I/O failures are survived and do not stick",
 "If reading or seeking the input fails at any point, loading and reading objects still return without crashing or hanging, and once the failure is over the same parser (loaded again if the failure hit its loading) delivers every object correctly. If the input cannot be opened or the output cannot be created, Parse returns the error and leaves nothing open.",
 ["fault_sequences"],"every position and duration of read and seek failures, and every way creating the output can fail",
 "No test injects a failure.",
 ["pdf/parser.go","pdf/output.go","pdf/pdf.go"],
 [("reset of the buffer on every seek","pdf/parser.go Seek"),("error checks in NewOutput and Parse","pdf/output.go, pdf/pdf.go")],
 ["fault-injecting io.ReadSeeker","error returned by Parse"])

p("C25","Page and name trees are walked completely, in order and only once",
 "Every page reachable through Kids references, and every name-tree entry reachable through direct or referenced Kids, at any depth and fan-out, is delivered in document order, and a node referenced again (shared or cyclic) is not delivered again. Missing or ill-typed kids are skipped without affecting the others.",
 ["inputs"],"all tree shapes including shared nodes, cycles, missing and ill-typed kids",
 "No test builds a page or name tree with more than one level.",
 ["pdf/dictionary.go","pdf/object.go"],
 [("visited sets and explicit stacks","pdf/dictionary.go ResolveKids, getNameTreeMap")],
 ["GetPageTree and GetNameTreeMap results","contents.txt, files.txt, urls.txt"])
p("C26","Damage in one place does not affect the rest of the document",
 "Whatever damaged, malformed or hostile objects a file contains next to well-formed ones (unclosed values, random bytes, cyclic or absurdly large structures, undecodable streams), every well-formed object that the newest cross-reference section leads to is still read with its value and its stream, in whatever order damaged and sound objects are asked for, and every link, script, command, embedded file and page text held by sound objects is still extracted.",
 ["inputs","histories"],"all documents with all damaged objects mixed in between, and all orders of reading them",
 "Tests read small files in which nothing or everything is damaged; no test looks at what is left after damage elsewhere.",
 ["pdf/pdf.go","pdf/parser.go","pdf/page.go","pdf/dictionary.go"],
 [("every object is read from its own offset","pdf/parser.go GetObject"),("extraction visits all objects","pdf/pdf.go Parse")],
 ["GetObject results for sound objects","report files and dumped files of Parse"])

open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
