prop('P04', 'A filename has the language last registered for its extension',
 'The language of a filename is that of the entry registered last for its extension (text after the last dot, a trailing ".gz" removed first), starting from the documented standard table, and a filename without a registered extension has none. Exactly the supported language names are accepted: registering an extension for anything else is refused and changes nothing, and the language list holds exactly the supported names. A registration concerns only its own archive (a clone starts from a copy), and srcml_unit_parse_filename uses the language found this way when neither unit nor archive has one.',
 ['inputs', 'histories'], 'every filename, every extension and language string, every sequence of registrations on archives and their clones', 'Tests look up the standard extensions and one or two registered ones; they cannot range over all filenames, shadowing histories, or clones.',
 ['src/libsrcml/language_extension_registry.cpp', 'src/parser/Language.cpp', S+'libsrcml.cpp', S+'srcml_archive.cpp'],
 [('language_extension_registry::get_language_from_filename, get_language_extension', 'src/libsrcml/language_extension_registry.cpp'), ('Language::getLanguage', 'src/parser/Language.cpp'), ('srcml_check_extension, srcml_archive_check_extension', S+'libsrcml.cpp')],
 [('registered_languages', 'vector of (extension, language), later entries win', 'src/libsrcml/language_extension_registry.hpp')], ['srcml_archive_check_extension', 'srcml_check_extension', 'srcml_check_language', 'srcml_get_language_list'], claim=True)
T = 'src/libsrcml/srcml_transform.cpp'
prop('P19', 'Calls that make no sense are refused and change nothing',
 'Every API function given a NULL archive, unit or transformation result, a missing required argument, a negative descriptor or a position beyond the end returns its documented refusal (SRCML_STATUS_INVALID_ARGUMENT, or 0 or NULL for accessors) and does not crash. Operations out of order (writing elements of a unit that was not started, writing units to an archive not open for writing or without content, reading from an archive not open for reading, unparsing a unit that was not read, parsing without a language, a transformation parameter without a transformation) are refused with the status for that case. A refused call changes no attribute, option, content or output that can be observed.',
 ['inputs', 'histories'], 'every API function, every missing-argument combination, every prior state of the archive and unit', 'Tests pass NULL for some functions on fresh objects; they cannot cover each argument in each state, nor that nothing else changed.',
 [S+'srcml_archive.cpp', S+'srcml_unit.cpp', T, S+'libsrcml.cpp'],
 [('argument guards of every srcml_archive_*, srcml_unit_*, srcml_write_* function', S+'srcml_archive.cpp'), ('srcml_append_transform_*, srcml_transform_get_*', T), ('srcml_unit_unparse_internal, srcml_unit_parse_internal', S+'srcml_unit.cpp')],
 [('archive type', 'invalid, read, write or read-write', S+'srcml_types.hpp'), ('unit_translator', 'non-null only between start and end of a unit', S+'srcml_types.hpp')], ['status codes', 'srcml_archive_get_*', 'srcml_unit_get_*'], claim=True)
PS = 'src/parser/'
prop('P08', 'Positions are the exact line and column of the marked-up text',
 'With SRCML_OPTION_POSITION every element gets a start and an end position in the namespace prefix registered for positions (default "pos"), written in decimal as line:column, counted from 1 in bytes of the UTF-8 text, where CR, LF and CRLF end a line and a tab advances to the next multiple of the archive\'s own tab stop (also inside comments and strings). The start is the position of the first character of the element, for every element whose text neither begins nor ends with white space; the end of names, operators and comments is that of their last character (in source without preprocessor lines), and no element ends before it starts. The unit records the tab stop. The option changes nothing else in the markup, and each parse follows the options of its own archive, whatever was parsed before in the same thread.',
 ['inputs', 'histories'], 'every source text made of complete statements, every tab stop 1..INT_MAX, every position prefix, every history of earlier parses', 'Position tests compare a handful of literal outputs with tab stop 8 and one parse per process; they cannot range over all texts, tab stops and histories.',
 [PS+'srcMLOutput.cpp', 'src/parser/CommentTextLexer.g', 'src/parser/KeywordLexer.g', S+'srcml_translator.cpp', PS+'UTF8CharBuffer.cpp'],
 [('srcMLOutput::addPosition, positoa', PS+'srcMLOutput.cpp'), ('tab handling of both lexers', 'src/parser/StreamMLParser.hpp')], [('tabsize', 'tab stop of the archive', S+'srcml_types.hpp')], ['pos:start and pos:end attributes', 'srcml_unit_get_srcml_outer'], claim=True)
prop('P10', 'The text of the markup is exactly the source text',
 'For every source made of complete statements and declarations in a supported language, with arbitrary text in its comments, strings and white space (any Unicode characters that XML can represent, and control characters, which become escape elements), under every combination of markup options, parsing succeeds and the character content of the markup (escape elements replaced by their character) is exactly the source, with CR and CRLF read as LF: nothing is lost, added, or reordered. Text is written with <, > and & escaped and nothing else changed; a start, end or empty token writes exactly one tag with its attributes and no text.',
 ['inputs'], 'every supported language, source text, and option combination', 'Tests compare the markup of fixed examples; losslessness is a statement about every text.',
 [PS+'srcMLOutput.cpp', 'src/parser/StreamMLParser.hpp', 'src/parser/srcMLParser.g', 'src/parser/CommentTextLexer.g', PS+'UTF8CharBuffer.cpp'],
 [('srcMLOutput::processText, processToken', PS+'srcMLOutput.cpp'), ('token stream of the parser', 'src/parser/StreamMLParser.hpp')], [('openelementcount', 'number of open elements', PS+'srcMLOutput.hpp')], ['srcml_unit_get_srcml_inner'], claim=True)
B = PS+'UTF8CharBuffer.cpp'
prop('P05', 'A source gives the same unit through every input channel and chunking',
 'The same bytes parsed from memory, a file, a file descriptor (also a pipe), a FILE or a read callback, with any sizes of the pieces the reads return, give the same status, markup, attributes, source encoding, hash and line count. Multi-byte characters, byte order marks and CRLF pairs may be split between reads at any point. A descriptor or FILE of the caller stays open, a close callback is called exactly once when there is one and nothing is read after it, and no descriptor is leaked.',
 ['inputs', 'schedules'], 'every byte sequence, every sequence of read sizes, every channel', 'Tests use short sources, which every channel delivers in a single read; splits inside characters, marks and line ends never occur.',
 [B, PS+'UTF8CharBuffer.hpp', S+'srcml_unit.cpp'],
 [('UTF8CharBuffer::readChars and its six constructors', B), ('srcml_unit_parse_filename, _memory, _FILE, _fd, _io', S+'srcml_unit.cpp')], [('raw, cooked, inbytesleft, insize, pos', 'bytes read, converted, and left over from the previous read', PS+'UTF8CharBuffer.hpp')], ['srcml_unit_parse_*', 'srcml_unit_get_srcml_outer', 'srcml_unit_get_src_encoding'], claim=True)
prop('P06', 'Source encodings and line ends are normalised to UTF-8 and LF',
 'The source is decoded with the encoding declared for the unit, else that declared for the archive, else that of its byte order mark, else ISO-8859-1; the markup is the same as for the same text given in UTF-8 with LF line ends (CR and CRLF become LF, wherever reads split them, and a byte order mark is not part of the text), and the unit records the encoding used, in upper case. A declared encoding that is not known is refused with SRCML_STATUS_INVALID_ARGUMENT and changes nothing.',
 ['inputs'], 'every text, each of UTF-8, ISO-8859-1, UTF-16 and UTF-32 in both byte orders, with and without mark, every mixture of line ends', 'Tests have a few literal sources in ISO-8859-1 and UTF-8.',
 [B, PS+'UTF8CharBuffer.hpp', S+'srcml_unit.cpp'],
 [('UTF8CharBuffer::readChars (marks, iconv)', B), ('UTF8CharBuffer::getChar (line ends)', B), ('srcml_unit_parse_internal (declared encoding)', S+'srcml_unit.cpp')], [('encoding, lastcr', 'encoding in use; the last character was CR', PS+'UTF8CharBuffer.hpp')], ['srcml_unit_get_srcml_inner', 'srcml_unit_get_src_encoding'], claim=True)
prop('P07', 'Hash and lines of a unit are those of the exact source bytes',
 'With hashing on, and no hash set before, the hash of a parsed unit is the lower-case hexadecimal SHA-1 of exactly the bytes of the source, every byte once (byte order mark and incomplete characters at the ends of reads included); a hash set before is kept, and without hashing there is none. The line count of the unit is the number of lines of the source, a last line without line end included. Both are the same after the unit is written to an archive (or as a solitary unit) and read again.',
 ['inputs', 'schedules'], 'every source, encoding and sequence of read sizes; archives and solitary units', 'Tests check the hash of a few short literals, read at once, and hardly any line count.',
 [B, S+'srcml_unit.cpp', S+'srcml_reader_handler.hpp', S+'sax2_srcsax_handler.cpp'],
 [('SHA1_Update in readChars, SHA1_Final in ~UTF8CharBuffer', B), ('loc in srcml_write_end_unit and endUnit', S+'srcml_unit.cpp')], [('hash, loc', 'attributes of the unit', S+'srcml_types.hpp')], ['srcml_unit_get_hash', 'srcml_unit_get_loc'], claim=True)
prop('P21', 'The full, outer and inner view of a unit agree with each other',
 'For a unit parsed or read from an archive, srcml_unit_get_srcml is a complete namespace-well-formed unit element, srcml_unit_get_srcml_inner is exactly the text between its start tag and its end tag (empty when there is none), and srcml_unit_get_srcml_outer is the same element without the declarations that belong to the archive (for a parsed unit that of srcML, for a unit read from an archive those of the root) and without the url attribute. The views do not depend on the order and number of calls, are not changed by writing the unit, are replaced when the unit is parsed again, and the inner view is the same after the unit is written and read.',
 ['inputs', 'histories'], 'every unit (language, attributes, namespaces with any prefix and URI, options, empty and one-character content), every sequence of calls', 'Tests compare the views of fixed units, called once; the views are cut from one text with recorded offsets, which go wrong for unusual tags.',
 [S+'srcml_unit.cpp', S+'sax2_srcsax_handler.cpp', S+'srcml_reader_handler.hpp'],
 [('srcml_unit_get_srcml, _outer, _inner', S+'srcml_unit.cpp'), ('insert_begin, insert_end, content_begin, content_end', S+'sax2_srcsax_handler.cpp'), ('srcml_write_start_unit, srcml_write_end_unit', S+'srcml_unit.cpp')], [('srcml_fragment, srcml_raw', 'cached views', S+'srcml_types.hpp')], ['srcml_unit_get_srcml', 'srcml_unit_get_srcml_outer', 'srcml_unit_get_srcml_inner'], claim=True)
prop('P16', 'A clone equals its original and neither affects the other',
 'A clone of an archive has every attribute, option, tab stop, namespace, registered extension, macro, processing instruction, transformation and transformation parameter of its original and behaves as it does, but is not open and has no error, whatever state the original is in. A clone of a unit has its attributes (encoding, revision, language, filename, version, timestamp, hash, kind of line ends, others, namespaces) and its archive, but not its contents. Cloning does not change the original, and nothing done with one of them afterwards, including setting, registering, parsing, writing, transforming, closing and freeing, changes the other.',
 ['inputs', 'histories'], 'every state of an archive or unit (also while open for reading or writing), every sequence of later operations on either', 'Tests compare some getters right after cloning a fresh archive; sharing shows only after later operations on one of the two.',
 [S+'srcml_archive.cpp', S+'srcml_unit.cpp', S+'srcml_types.hpp', T],
 [('srcml_archive_clone', S+'srcml_archive.cpp'), ('srcml_unit_clone', S+'srcml_unit.cpp'), ('srcml_append_transform_*', T)], [('every member of srcml_archive and srcml_unit', 'copied, or reset in the clone', S+'srcml_types.hpp')], ['srcml_archive_clone', 'srcml_unit_clone', 'srcml_archive_get_*', 'srcml_unit_apply_transforms'], claim=True)
prop('P15', 'What is written to an archive is read from it, in order, on every channel',
 'The units written to an archive (or to a solitary document) are read back in the same order, each exactly once, with the same language, filename, version, timestamp, hash, revision, contents and number of lines; each can be read or skipped on its own, and after the last there is none. The archive that is read has the url, version, revision, processing instruction, macros, namespaces, tab stop (with positions) and the options CPP_TEXT_ELSE and CPP_MARKUP_IF0 of the one written (a solitary document has the version of its unit). All channels for writing (memory, file name, FILE, descriptor, callbacks) give the same well-formed document and all channels for reading read it; a FILE or descriptor of the caller stays open after writing, and a close callback is called once. An archive can be closed before its end, closed twice, and opened again; units that were read can be written to another archive; archives that are open at the same time do not affect each other; an archive that could not be opened is not open.',
 ['inputs', 'histories'], 'every archive configuration and attribute value, every sequence of units, every channel, every sequence of read, skip, write, close and reopen', 'Tests write and read fixed archives with plain attribute values, mostly through memory, and seldom use an archive twice.',
 [S+'srcml_archive.cpp', S+'srcml_translator.cpp', S+'srcml_sax2_reader.cpp', S+'srcml_reader_handler.hpp', S+'sax2_srcsax_handler.cpp', S+'unit_utilities.cpp', 'src/parser/srcMLOutput.cpp'],
 [('srcml_archive_read_unit, _skip_unit, _write_unit, _close', S+'srcml_archive.cpp'), ('srcml_translator::add_unit', S+'srcml_translator.cpp'), ('srcMLOutput::startUnit', 'src/parser/srcMLOutput.cpp'), ('startRoot, startUnit, endUnit', S+'srcml_reader_handler.hpp'), ('unit_update_attributes', S+'unit_utilities.cpp')], [('type, translator, reader, output_buffer, xbuffer', 'set by opening, cleared by closing', S+'srcml_types.hpp')], ['srcml_archive_write_open_*', 'srcml_archive_read_open_*', 'srcml_archive_write_unit', 'srcml_archive_read_unit', 'srcml_archive_skip_unit', 'srcml_archive_close'], claim=True)
prop('P14', 'A unit written by elements holds exactly the tree that was written',
 'Between srcml_write_start_unit and srcml_write_end_unit a unit can be written by elements, with srcml_write_start_element, _end_element, _namespace, _attribute (of elements) and _string. Calls are carried out or refused: NULL for the unit, a name, a namespace URI or a text is an invalid argument; and a call outside a unit that was started, the end of an element when none is open, an element named unit, and an attribute or namespace after the start tag of an element has got content are invalid input. A call that is refused changes nothing. The unit then holds the tree of the calls that were carried out, all and only it: elements with prefix, name and namespace (that of srcML is not declared again), attributes and namespaces with any values, and text with any characters, quotes included, whose strings are only read; elements that are still open are ended with the unit. The unit is well-formed, its start tag has its attributes as they are at its end, its inner view is the tree, its text is the strings in their order, and its lines are those of the text. The unit can be written to an archive, and the same tree and text are read back. It can be started again, any number of times, which replaces what was written; units can be written at the same time.',
 ['inputs', 'histories'], 'every sequence of calls and every text, name and value', 'Tests write single elements, attributes and strings with fixed short names.',
 [S+'srcml_unit.cpp', S+'srcml_translator.cpp'],
 [('srcml_write_start_unit, _end_unit', S+'srcml_unit.cpp'), ('srcml_write_start_element, _end_element, _namespace, _attribute, _string', S+'srcml_unit.cpp'), ('srcml_translator::add_start_element, add_end_element, add_namespace, add_attribute, add_string', S+'srcml_translator.cpp')], [('output_unit_depth', 'the number of elements that are open', S+'srcml_translator.hpp'), ('content_begin, content_end', 'the content in the unit', S+'srcml_types.hpp')], ['srcml_write_start_unit', 'srcml_write_end_unit', 'srcml_write_start_element', 'srcml_write_end_element', 'srcml_write_namespace', 'srcml_write_attribute', 'srcml_write_string'], claim=True)
prop('P12', 'Unparsing gives the source back, with the line ends and encoding chosen',
 'Unparsing a unit that was read from an archive, or that was parsed in an archive that is open for reading, gives exactly its source: with every line end as chosen with srcml_unit_set_eol (automatic and LF: line feed, CR, CRLF), in the source encoding of the unit, or else that of the archive, or else ISO-8859-1 (UTF-16 begins with a byte order mark). Control characters come back as they were. The result is the same on every channel (memory with its exact size, file name, FILE, descriptor, callbacks) and however often and with whatever other line ends and encodings the unit was unparsed before; the unit is not changed. A FILE or descriptor of the caller is written where it is and stays open, a close callback is called once, an output that cannot be opened is reported. A unit of an archive that is not open for reading, or without contents, is refused and nothing is written. Characters that the encoding does not have are outside of this.',
 ['inputs', 'histories'], 'every source, every line end and encoding chosen, every channel, repeated in any order', 'Tests unparse a few short fixed units, mostly in UTF-8 or ISO-8859-1 and with line feeds.',
 [S+'srcml_unit.cpp', S+'unit_utilities.cpp', S+'sax2_srcsax_handler.cpp'],
 [('srcml_unit_unparse_internal', S+'srcml_unit.cpp'), ('srcml_unit_unparse_memory, _filename, _FILE, _fd, _io', S+'srcml_unit.cpp'), ('extract_src', S+'unit_utilities.cpp'), ('characters_unit', S+'sax2_srcsax_handler.cpp')], [('src, eol, encoding', 'kept by unparsing', S+'srcml_types.hpp')], ['srcml_unit_unparse_memory', 'srcml_unit_unparse_filename', 'srcml_unit_unparse_FILE', 'srcml_unit_unparse_fd', 'srcml_unit_unparse_io', 'srcml_unit_set_eol'], claim=True)
prop('P17', 'Transformations apply in order, each to every result of the one before',
 'The transformations of an archive (XPath, XPath that marks with an element or an attribute, XSLT, RelaxNG) are kept in the order in which they were appended. An append with a NULL argument, or of a stylesheet or schema that can not be read, is refused and leaves the list; an attribute for an XPath that equals the last one of the list, which has no attribute yet, goes to that one; a parameter goes to the last transformation (a string parameter in quotes) and is refused when there is none; clearing removes all. Applying them to a unit gives the first to the unit and each other to every result of the one before, as if that result were a document of its own, and collects what they give, in order and without duplicates; a result without anything for the next transformation does not keep the other results from it. The outcome is the units of the last transformation, a string, a number or a boolean, or nothing, and only the accessor of that type gives something. Every result is a unit of its own with the attributes of the unit; what it holds is exactly the node (text and attribute values are escaped), a result that is not a unit has its number in the attribute item, and the results can be written to an archive that is well-formed. Without transformations nothing happens. The unit that is transformed, the list, and the results of earlier applications do not change. What libxml2 and libxslt compute for an expression or stylesheet is theirs, and steps after a string, number, boolean, text or attribute are outside of this.',
 ['inputs', 'histories'], 'every history of appends, refusals, parameters and clears, every list of steps and every unit, applied any number of times', 'Tests append single transformations and apply one XPath to one small unit.',
 [S+'srcml_transform.cpp', S+'xpathTransformation.cpp', S+'xsltTransformation.cpp', S+'relaxngTransformation.cpp'],
 [('srcml_append_transform_*', S+'srcml_transform.cpp'), ('srcml_unit_apply_transforms', S+'srcml_transform.cpp'), ('srcml_transform_get_*', S+'srcml_transform.cpp'), ('apply', S+'xpathTransformation.cpp')], [('transformations', 'the list, in the order of the appends', S+'srcml_types.hpp')], ['srcml_append_transform_xpath', 'srcml_append_transform_xslt_memory', 'srcml_append_transform_relaxng_memory', 'srcml_append_transform_param', 'srcml_clear_transforms', 'srcml_unit_apply_transforms', 'srcml_transform_get_unit', 'srcml_transform_get_string'], claim=True)
prop('P03', 'A namespace has the prefix last registered for it, and prefixes are only names',
 'Registering a prefix for a namespace URI (srcml_archive_register_namespace, srcml_register_namespace) puts a new namespace at the end of the list or changes the prefix of the one that is there; no other namespace, its position or its use changes, each URI is in the list once, and the getters (size, prefix and URI at a position, prefix of a URI, URI of a prefix) tell exactly that list. Registering the namespace of cpp, positions or errors sets its option and no other; a NULL is refused and changes nothing. Prefixes are only names: with any distinct registered prefixes, also for other namespaces, the markup that parsing gives is namespace well-formed, every element and attribute has the prefix registered for its namespace, and with names expanded it is the same tree as with the default prefixes. Each namespace is declared exactly once where it is needed: that of srcML, registered ones and those of positions and errors (when on) at the root, those of cpp and OpenMP on the units of an archive that use them. Read back, also with the old www.sdml.info URIs, the archive has the prefixes and namespaces of the root and the units the same trees, and a unit that is read and written to an archive with the same namespaces keeps its tree and declarations.',
 ['inputs', 'histories'], 'every sequence of registrations, every choice of distinct prefixes and other namespaces, every source, archives and solitary units', 'Tests register one or two prefixes on their own and look at one small unit; which declarations a unit needs depends on what the source contains and on all the prefixes together.',
 [S+'srcml_archive.cpp', S+'srcmlns.cpp', S+'sax2_srcsax_handler.cpp', S+'srcml_reader_handler.hpp', 'src/parser/srcMLOutput.cpp'],
 [('srcml_archive_register_namespace', S+'srcml_archive.cpp'), ('operator+=, srcml_uri_normalize', S+'srcmlns.cpp'), ('srcMLOutput::outputNamespaces, initNamespaces', 'src/parser/srcMLOutput.cpp'), ('update_unit_namespace, startRoot', S+'srcml_reader_handler.hpp'), ('start_unit', S+'sax2_srcsax_handler.cpp')], [('namespaces', 'each URI once, in the order of registration, with flags of use', 'src/libsrcml/srcmlns.hpp')], ['srcml_archive_register_namespace', 'srcml_archive_get_namespace_prefix', 'srcml_archive_get_prefix_from_uri', 'srcml_unit_get_srcml', 'srcml_archive_write_unit', 'srcml_archive_read_unit'], claim=True)
prop('P11', 'A parse does not depend on other parses, earlier ones or those of other threads',
 'What parsing a source into a unit gives (status, markup with positions, lines, hash, language) depends only on the bytes of the source, its language, its encoding, and the options, tab stop and registered prefixes of its archive. Any earlier use of the library in the process (other parses, also those that fail, other archives with other options, prefixes and encodings, reading, transformations), earlier units of the same archive, and parses that other threads run at the same time, in their own archives or in the same archive, change nothing; the same parse again gives the same. Attributes of the unit (filename, version), its hash, whether the archive is solitary, and the channel of the source do not change the markup of the source. To that end no function that a parse runs writes to memory that it shares with other parses: static storage (other than its initialization) or the archive.',
 ['inputs', 'histories', 'schedules'], 'every source, every sequence of uses of the library before it, every interleaving with parses of other threads', 'Tests parse single sources in fresh archives of one thread; state that leaks from one parse to the next shows only in particular sequences, and races only in particular schedules.',
 ['src/parser/srcMLOutput.cpp', 'src/parser/UTF8CharBuffer.cpp', 'src/parser/StreamMLParser.hpp', S+'srcml_translator.cpp', S+'srcml_unit.cpp'],
 [('srcml_unit_parse_internal', S+'srcml_unit.cpp'), ('srcml_translator::translate', S+'srcml_translator.cpp'), ('positoa', 'src/parser/srcMLOutput.cpp'), ('normalizeEncodingName', 'src/parser/UTF8CharBuffer.cpp')], [('srcMLOutput::process, ModeStack::MODE_*, Language::lang2int, encodingAliases, default_namespaces', 'tables that every parse reads and none writes', 'src/parser/srcMLOutput.cpp'), ('unit->archive', 'options, encoding, language, prefixes: read by a parse, not written', S+'srcml_types.hpp')], ['frame', 'history', 'together'], claim=True)
prop('P18', 'An archive gives what it gives alone, whatever is done with other archives',
 'What the functions of the library give for an archive and its units (statuses, settings, documents that are written, units that are read, their views, source, languages of files, and results of transformations) depends only on what is done with that archive. Any use of other archives in the process, before or in between, in one thread or in others (each archive used by one thread at a time), changes nothing: settings, registered extensions, namespaces and macros, open outputs and inputs, transformations with their parameters, creating and freeing. To that end no function for archives, units and transformations writes to memory with static storage (other than its initialization).',
 ['inputs', 'histories', 'schedules'], 'every set of archives, every sequence of calls for each, every interleaving of them', 'Tests use one archive at a time, and mostly a new process for it; state that archives share shows only when their uses alternate or meet in threads.',
 [S+'srcml_archive.cpp', S+'srcml_transform.cpp', S+'xsltTransformation.cpp', S+'language_extension_registry.cpp', S+'srcml_translator.cpp', S+'srcml_reader_handler.hpp'],
 [('~xsltTransformation', S+'xsltTransformation.cpp'), ('get_language_from_filename', S+'language_extension_registry.cpp'), ('srcml_translator::add_unit', S+'srcml_translator.cpp'), ('xpathTransformation::apply', S+'xpathTransformation.cpp')], [('default_namespaces, lang2int, tables', 'tables that every archive reads and none writes', S+'srcmlns.cpp')], ['frame_archives', 'interleaved', 'threads'], claim=True)
prop('P20', 'The client writes every input once and in order, for any schedule of its threads',
 'Every request that is given to the parse queue of the client (ParseQueue) gets the next position, without gaps, and goes on exactly once: to a thread of the pool, or, when it already has an error, to the writer without a unit. srcml_consume gives it to the writer exactly once with that position, whatever fails: its unit (made once for the archive of the request if it has none) gets the language of the request if it has none, its version, timestamp and filename (without any leading ./), its source is parsed exactly once, from the file or from memory, and the transformations are applied once; a request that fails has no unit, which was freed. The writer (WriteQueue) writes each request exactly once, in the order of the positions when it is ordered and in any order otherwise, never holds the mutex while it writes, uses what the mutex guards only with it, waits only when the next request is not there, ends only when it was stopped and nothing is left, and counts the requests that are fine. Writing a request (srcml_write_request) writes its results, or its unit when it has no results, exactly once and in order (a string, the whole unit or its content with a newline at the end), nothing when it failed, tells a failure once, and frees the results once. So, for any number of threads and any schedule, what the client writes and tells is what processing one request after the other gives.',
 ['inputs', 'schedules', 'histories'], 'every sequence of requests (source, file, unit that is ready, errors), any number of threads, every interleaving', 'The tests of the repository do not build the client, and a test sees one schedule; a lost or repeated request, a wrong order or a lock that is missing shows only in some.',
 ['src/client/ParseQueue.hpp', 'src/client/WriteQueue.cpp', 'src/client/srcml_consume.cpp', 'src/client/srcml_write.cpp'],
 [('ParseQueue::schedule, wait', 'src/client/ParseQueue.hpp'), ('srcml_consume', 'src/client/srcml_consume.cpp'), ('WriteQueue::schedule, stop, process', 'src/client/WriteQueue.cpp'), ('srcml_write_request', 'src/client/srcml_write.cpp')], [('q, completed, maxposition', 'the requests that wait for the writer, guarded by qmutex', 'src/client/WriteQueue.hpp'), ('counter', 'the last position, guarded by e', 'src/client/ParseQueue.hpp')], ['ParseQueue', 'srcml_consume', 'WriteQueue', 'srcml_write_request'], claim=True)
prop('P22', 'Markup gives every construct the role that its language defines',
 'Each element of the markup (function, decl, expr, call, if, template and so on) surrounds exactly the construct of that kind in the source, for every program of C, C++, Java and C#.',
 ['inputs'], 'every program of the four languages', 'Tests compare the markup of fixed snippets.', ['src/parser/srcMLParser.g', 'src/parser/StreamMLParser.hpp'], [('srcMLParser rules', 'src/parser/srcMLParser.g')], [], ['srcml_unit_get_srcml'],
 na='No specification of the markup exists apart from the grammar itself: it is a heuristic, partial parser (12000 lines of rules with guessing), so a contract could only repeat the code. P03, P08 and P10 prove what holds for any markup: text, positions, nesting of prefixes.')
prop('P23', 'Transformations compute what XPath, XSLT and RELAX NG define',
 'The nodes, values and verdicts of a transformation are those that the standards define for its program and the markup of the unit.',
 ['inputs'], 'every program and every unit', 'Tests run a few programs.', [S+'xpathTransformation.cpp', S+'xsltTransformation.cpp', S+'relaxngTransformation.cpp'], [('apply', S+'xpathTransformation.cpp')], [], ['srcml_unit_apply_transforms'],
 na='Computed by libxml2 and libxslt, which are outside of the repository and are trusted contracts; what the repository does with the results is P17.')
prop('P24', 'Reading never hangs or loses a unit, for any schedule of its threads',
 'For every schedule of the caller and the thread that runs the SAX parser, each call of the reader ends, and units come once and in order, also when the document is not well-formed.',
 ['inputs', 'schedules'], 'every document, every schedule, every spurious wakeup', 'A test sees one schedule.', [S+'srcml_reader_handler.hpp', S+'srcml_sax2_reader.cpp'], [('wait, resume_and_wait, done, stop', S+'srcml_reader_handler.hpp')], [], ['srcml_archive_read_unit', 'srcml_archive_close'],
 na='The waits of the handshake have no predicate that they check again after a wakeup, and done() notifies without the mutex: no invariant of the lock implies progress, so there is nothing a contract verifier could discharge before a redesign of the handshake. Order and content of the units for the schedules that occur are in P15 and P18.')
