#!/usr/bin/env python3
"""The property list; writes properties.jsonl and MANIFEST.json (python3 tools/props.py)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/libsrcml/'
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), claim=None, na=None, note='', level='proof'):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state, observe=observe, claim=claim, na=na, note=note, level=level))

prop('P01', 'Attribute getters return the value last set and nothing else changes',
 'After a successful srcml_archive_set_X, srcml_unit_set_X or global srcml_set_X, the matching getter returns exactly the string or number given (NULL gives NULL), and every other attribute, option, namespace, registered extension and processing instruction of that archive, of that unit and of the unit\'s archive reads as before. Values that make no sense (an end-of-line kind or srcDiff revision that does not exist, a tab stop of 0 or beyond INT_MAX, a NULL archive or unit) are refused with SRCML_STATUS_INVALID_ARGUMENT and change nothing. A new unit starts without attributes whatever the history of its archive.',
 ['inputs', 'histories'], 'every string or NULL, every number, every prior state of the archive or unit', 'The API test programs set a few literals on fresh objects and read them back; they never combine attributes, never check that the others stayed, and no test can range over all strings and all prior states.',
 [S+'srcml_archive.cpp', S+'srcml_unit.cpp', S+'libsrcml.cpp'],
 [('srcml_archive_set_* / srcml_archive_get_*', S+'srcml_archive.cpp'), ('srcml_unit_set_* / srcml_unit_get_*', S+'srcml_unit.cpp'), ('global setters', S+'libsrcml.cpp'), ('optional_to_c_str', S+'srcml_types.hpp')],
 [('archive and unit attributes', 'boost::optional<std::string> fields', S+'srcml_types.hpp')], ['srcml_archive_get_*', 'srcml_unit_get_*', 'srcml_get_*'], claim=True)
prop('P02', 'Option words obey set algebra',
 'srcml_archive_get_options is exactly the set of public markup options obtained by applying, in order, every set (replace), enable (union) and disable (difference) made on the archive, and likewise for the global srcml_set_options, srcml_enable_option and srcml_disable_option. The solitary-unit and hash switches read back as last chosen, independently of each other and of every option call. No option call changes any other attribute, and a NULL archive is refused.',
 ['inputs', 'histories'], 'every 64-bit option word, every sequence of option calls, every prior archive state', 'Tests enable and disable one or two options on a fresh archive; the set algebra over all words and histories is never sampled.',
 [S+'srcml_archive.cpp', S+'libsrcml.cpp', S+'srcml_types.hpp'],
 [('srcml_archive_set_options / enable_option / disable_option', S+'srcml_archive.cpp'), ('srcml_archive_enable_solitary_unit, srcml_archive_enable_hash', S+'srcml_archive.cpp')],
 [('options', 'bit set with public and internal bits', S+'srcml_types.hpp')], ['srcml_archive_get_options', 'srcml_archive_is_solitary_unit', 'srcml_archive_has_hash', 'srcml_get_options'], claim=True)
exec(open(H + '/tools/props_more.py').read())

def main():
    with open(H + '/properties.jsonl', 'w') as f:
        for p in P:
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']], state=[dict(name=n, meaning=m, where=w) for n, m, w in p['state']], observe_at=list(p['observe']), hook_needed=None))) + '\n')
            assert len(p['title']) <= 80, p['id']
    for p in P:
        for f in p['files']: assert os.path.exists('/repo/' + f), f
    m = dict(version=1, setup_cmd='python3-vt -m compileall -q vf && python3-vt -c "import vf.engine, vf.models, vf.checks, z3, cvc5"',
        hooks=dict(guard='SRCML_VERIF', enable='no hooks: the checks compile the unmodified sources of /repo', source_commits=[]), checks=[], not_applicable=[],
        notes='One driver, check.py, for every property; see DESIGN.md.')
    for p in P:
        if p['claim']:
            m['checks'].append(dict(property=p['id'], quick_cmd='./check.py %s quick' % p['id'], thorough_cmd='./check.py %s thorough' % p['id'],
                technique='contract-based deductive verification of the LLVM IR of the real sources (VC generation, z3 + cvc5), with bounded native execution of the same contracts for replay',
                level=p['level'], level_note=p['note'] or 'Every obligation of the contract harnesses is discharged for all inputs over the IR of the current sources; trusted: the VC generator, clang -O0 as semantics, the contracts on libstdc++/libc listed in the evidence. Bounded native runs are never counted as proved.'))
        else: m['not_applicable'].append(dict(property=p['id'], reason=p['na'] or 'no check yet'))
    json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
main()
