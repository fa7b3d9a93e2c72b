"""Which contracts decide which property."""
import os
LIB3 = ['libsrcml/srcml_archive.cpp', 'libsrcml/srcml_unit.cpp', 'libsrcml/libsrcml.cpp']
COMMON_ASSUMPTIONS = [
    'libstdc++, libc, boost and libxml2 behave as the contracts in vf/models.py state (unchecked; exercised by the bounded native runs)',
    'memory allocation succeeds (a new-expression that throws is not explored)',
    'pointers are compared and subtracted only within one object; objects do not alias unless the code makes them alias',
]
FIRST = ['read_first_' + x for x in ('at_once', 'short', 'two', 'two_short', 'three', 'three_short', 'four')]
CHECKS = {
 'P02': dict(groups=[dict(spec='P02_options.cpp', src=LIB3)]),
 'P01': dict(groups=[dict(spec='P01_attributes.cpp', src=LIB3), dict(spec='P01_global.cpp', src=LIB3)]),

 'P19': dict(groups=[dict(spec='P19_misuse.cpp', src=LIB3 + ['libsrcml/srcml_transform.cpp'])]),
 'P04': dict(groups=[dict(spec='P04_registry.cpp', src=['libsrcml/language_extension_registry.cpp', 'parser/Language.cpp'], setup='vf.contracts:setup_registry', budget=300),
                     dict(spec='P04_api.cpp', src=['libsrcml/libsrcml.cpp', 'parser/Language.cpp'], setup='vf.contracts:setup_language')],
             native=[dict(specs=['P04_registry.cpp']), dict(specs=['P04_api.cpp'])]),
 'P05': dict(groups=[dict(spec='P05_buffer.cpp', src=['parser/UTF8CharBuffer.cpp'], setup='vf.source:setup_source', budget=400, harnesses=['read_more', 'read_memory', 'close_and_hash', 'read_first_empty'] + FIRST),
                     dict(spec='P05_buffer.cpp', src=['parser/UTF8CharBuffer.cpp'], setup='vf.source:setup_make', harnesses=['make_io', 'make_fd', 'make_file', 'make_FILE'])],
             native=[dict(specs=['P05_source.cpp'], only=['channels'], secs=10, shards=dict(channels=4))]),
 'P06': dict(groups=[dict(spec='P05_buffer.cpp', src=['parser/UTF8CharBuffer.cpp'], setup='vf.source:setup_getchar', budget=200, harnesses=['get_char']),
                     dict(spec='P05_buffer.cpp', src=['parser/UTF8CharBuffer.cpp'], setup='vf.source:setup_source', budget=400, harnesses=['read_memory', 'read_first_at_once', 'read_first_short', 'read_first_two', 'read_first_three', 'read_first_four'])],
             native=[dict(specs=['P05_source.cpp'], only=['encodings', 'unknown_encoding'], secs=8, shards=dict(encodings=5))]),
 'P07': dict(groups=[dict(spec='P05_buffer.cpp', src=['parser/UTF8CharBuffer.cpp'], setup='vf.source:setup_source', budget=400, harnesses=['read_more', 'read_memory', 'read_first_at_once', 'close_and_hash', 'lines']),
                     dict(spec='P05_buffer.cpp', src=['parser/UTF8CharBuffer.cpp'], setup='vf.source:setup_getchar', budget=200, harnesses=['get_char'])],
             native=[dict(specs=['P05_source.cpp'], only=['hash_lines'], secs=8, shards=dict(hash_lines=5))]),
 'P03': dict(groups=[dict(spec='P03_registry.cpp', src=['libsrcml/srcml_archive.cpp'], setup='vf.ghost:setup_namespaces', budget=300)], exact=(), native=[dict(specs=['P03_prefixes.cpp'], secs=8, shards=dict(prefixes=6))]),
 'P11': dict(groups=[dict(frame='frame', spec='vf/frame.py', gen=['KeywordLexer.cpp', 'srcMLParser.cpp', 'CommentTextLexer.cpp'], dirs=['parser', 'libsrcml'], entry=r'^srcml_unit_parse_', scratch=((r'positoa.*::s$', r'positoa'),))], exact=('frame:^frame-shared',), assumptions=['frame contracts (vf/frame.py): libstdc++ and Boost functions do not write through const parameters and their copies share nothing; libxml2, iconv and the ANTLR runtime keep no state that a parse sees; standard streams are no input; uninitialized memory is outside of the proof'], native=[dict(specs=['P11_parse.cpp'], secs=20, shards=dict(history=5, together=3))]),
 'P18': dict(groups=[dict(frame='frame_archives', spec='vf/frame.py', gen=['KeywordLexer.cpp', 'srcMLParser.cpp', 'CommentTextLexer.cpp'], dirs=['parser', 'libsrcml'], entry=r'^srcml_(archive|unit|write|append|transform|add|clear|element|check_(language|encoding))', scratch=((r'positoa.*::s$', r'positoa'),), opts=dict(own=False, who='a use of an archive', threads=True, guarded=((r'^(globals_mutex|transformation_count)$', r'^xsltTransformation::~?xsltTransformation\('),)))], exact=('frame_archives:^frame-shared',), assumptions=['frame contracts (vf/frame.py): libstdc++ and Boost functions do not write through const parameters and their copies share nothing; libxml2, libxslt and libexslt keep no state that a use of an archive sees, except for the EXSLT registration, which the native runs check (its count of transformations is only written in functions that lock its mutex, whose lock guards are trusted); standard streams are no input; uninitialized memory is outside of the proof; the handshake of the reader and its thread is not covered'], native=[dict(specs=['P18_archives.cpp'], secs=15, shards=dict(interleaved=4, threads=4))]),
 'P20': dict(groups=[dict(spec='P20_queue.cpp', src=[], setup='vf.ghost:setup_queue'), dict(spec='P20_consume.cpp', src=[], setup='vf.ghost:setup_consume', budget=300), dict(spec='P20_write.cpp', src=[], setup='vf.ghost:setup_write')], exact=('process:mutex|held', 'schedule:mutex|held|notified', 'stop:mutex|held|notified|waited', 'parse_queue:mutex', 'write_string:^safety'), native=[dict(specs=['P20_threads.cpp'], secs=8, shards=dict(schedules=5))]),
 'P21': dict(groups=[dict(spec='P21_views.cpp', src=['libsrcml/srcml_unit.cpp'], setup='vf.contracts:setup_views', budget=300)], native=[dict(specs=['P21_units.cpp'], secs=6, shards=dict(views_of_units=4))]),
 'P14': dict(groups=[dict(spec='P14_writer.cpp', src=['libsrcml/srcml_unit.cpp', 'libsrcml/srcml_translator.cpp'], setup='vf.ghost:setup_writer', harnesses=['start_element', 'end_element', 'namespaces', 'attributes', 'strings']),
                     dict(spec='P14_writer.cpp', src=['libsrcml/srcml_unit.cpp', 'libsrcml/srcml_translator.cpp'], setup='vf.ghost:setup_writer_end', harnesses=['end_content', 'end_empty', 'end_refused']),
                     dict(spec='P14_writer.cpp', src=['libsrcml/srcml_unit.cpp', 'libsrcml/srcml_translator.cpp'], setup='vf.ghost:setup_writer_start', harnesses=['start_' + x for x in ('filename', 'version', 'timestamp', 'hash', 'encoding', 'url', 'revision', 'language', 'fails', 'again', 'null')])],
             exact=(), native=[dict(specs=['P14_trees.cpp'], secs=8, shards=dict(trees=6))]),
 'P12': dict(groups=[dict(spec='P12_output.cpp', src=['libsrcml/srcml_unit.cpp'], setup='vf.ghost:setup_unparse')], exact=(), native=[dict(specs=['P12_unparse.cpp'], secs=8, shards=dict(unparse_read=6))]),
 'P15': dict(groups=[dict(spec='P15_attributes.cpp', src=['libsrcml/unit_utilities.cpp', 'libsrcml/srcml_unit.cpp', 'libsrcml/srcml_archive.cpp'], setup='vf.contracts:setup_reading'),
                     dict(spec='P15_start.cpp', src=[], setup='vf.ghost:setup_start', budget=300),
                     dict(spec='P15_write.cpp', src=['libsrcml/srcml_translator.cpp'], setup='vf.contracts:setup_write', skip=['prepare', 'close_document']),
                     dict(spec='P15_write.cpp', src=['libsrcml/srcml_translator.cpp'], setup='vf.contracts:setup_document', harnesses=['prepare', 'close_document']),
                     dict(spec='P15_state.cpp', src=['libsrcml/srcml_archive.cpp', 'libsrcml/srcml_sax2_reader.cpp'], setup='vf.contracts:setup_archive', skip=['reader_header', 'reader_body']),
                     dict(spec='P15_state.cpp', src=['libsrcml/srcml_sax2_reader.cpp'], setup='vf.contracts:setup_reader', harnesses=['reader_header', 'reader_body'])],
             exact=(), native=[dict(specs=['P15_archives.cpp'], secs=8, shards=dict(archives=6, documents=2))]),
 'P17': dict(groups=[dict(spec='P17_list.cpp', src=[], setup='vf.contracts:setup_transforms')], native=[dict(specs=['P17_list.cpp'], drop=('srcml_transform.cpp.o',)), dict(specs=['P17_transforms.cpp'], secs=6, shards=dict(apply_list=6))]),
 'P16': dict(groups=[dict(spec='P16_clone.cpp', src=['libsrcml/srcml_archive.cpp', 'libsrcml/srcml_unit.cpp'], setup='vf.contracts:setup_clone')], native=[dict(specs=['P16_clones.cpp'], secs=6, shards=dict(archive_clones=3))]),
 'P10': dict(groups=[dict(spec='P10_output.cpp', src=[], setup='vf.ghost:setup_output')], exact=(), native=[dict(specs=['P10_output.cpp'], drop=('srcMLOutput.cpp.o',)), dict(specs=['P10_lossless.cpp'], secs=8, shards=dict(lossless_text=3, lossless_statements=2))]),
 'P08': dict(groups=[dict(spec='P08_position.cpp', src=[], harnesses=['decimal', 'decimal_again']), dict(spec='P08_position.cpp', src=[], setup='vf.ghost:setup_position', skip=['decimal', 'decimal_again'])], exact=(), native=[dict(specs=['P08_position.cpp'], drop=('srcMLOutput.cpp.o',)), dict(specs=['P08_parse.cpp'], secs=5)]),
}
def known(here, pid):
    """known findings: property=<id> harness=<h> label=<text> | description"""
    out = []
    p = here + '/known_findings.txt'
    if not os.path.exists(p): return out
    for l in open(p):
        if not l.startswith('known: property=%s ' % pid): continue
        head, text = l[7:].split(' | ', 1)
        d = dict(x.split('=', 1) for x in head.split(' ', 2))
        out.append(dict(harness=d['harness'], label=d['label'], text=text.strip()))
    return out
