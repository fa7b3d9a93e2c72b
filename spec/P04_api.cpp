// P04 through the public API: language names, the extension registry of an archive and of the default archive.
#include "vf.h"
#include <srcml.h>
#include <cstring>
#include <string>
#include <vector>
#ifdef VF_NATIVE
#include <unistd.h>
#include <cstdlib>
#include <fstream>
#endif

// independent table: the extensions and languages of the srcml documentation
static const char* STD[][2] = { {"c","C"},{"h","C"},{"i","C"},{"cpp","C++"},{"CPP","C++"},{"cp","C++"},{"hpp","C++"},{"cxx","C++"},{"hxx","C++"},{"cc","C++"},{"hh","C++"},{"c++","C++"},{"h++","C++"},{"C","C++"},{"H","C++"},{"tcc","C++"},{"ii","C++"},{"java","Java"},{"aj","Java"},{"cs","C#"} };
static const char* LANGS[] = { "C", "C++", "C#", "Java", "Objective-C" };

static bool is_language(const char* s) { for (size_t i = 0; i < 5; ++i) if (!strcmp(s, LANGS[i])) return true; return false; }

VF_HARNESS(check_language) {
    const char* s = vf_cstr("language");
    vf_assert((srcml_check_language(s) != 0) == is_language(s), "srcml_check_language accepts exactly the supported languages");
    vf_assert(srcml_check_language(0) == 0, "srcml_check_language(NULL) is 0");
    vf_reach("end");
}
VF_HARNESS(language_list) {
    size_t pos = vf_u64("pos");
    vf_assert(srcml_get_language_list_size() == 5, "five languages are supported");
    const char* s = srcml_get_language_list(pos);
    vf_assert((s != 0) == (pos < srcml_get_language_list_size()), "the language list has a name at exactly the positions below its size");
    if (s) { vf_assert(is_language(s), "every listed language is a supported language"); vf_reach("listed"); }
}
#ifdef VF_NATIVE
#define private public
#include <language_extension_registry.hpp>
#undef private
// ids are distinct for distinct languages
VF_HARNESS(language_ids) {
    for (size_t i = 0; i < 5; ++i) for (size_t j = 0; j < 5; ++j) if (i != j) vf_assert(srcml_check_language(LANGS[i]) != srcml_check_language(LANGS[j]), "language numbers are distinct");
    for (size_t i = 0; i < srcml_get_language_list_size(); ++i) vf_assert(srcml_check_language(srcml_get_language_list(i)) != 0, "every listed language is supported");
}
static bool ext_of(const std::string& f, std::string& e) {
    std::string p = f;
    if (p.size() > 3 && p.compare(p.size() - 3, 3, ".gz") == 0) p.erase(p.size() - 3);
    size_t k = p.rfind('.');
    if (k == std::string::npos) return false;
    e = p.substr(k + 1);
    return true;
}
// the model: a list of (extension, language); the last entry of the extension wins
VF_HARNESS(extension_history) {
    static const char* exts[] = { "cpp", "c", "h", "H", "gz", "xyz", "tar", "", "c++", "x", "java", "cs", "Cpp", "gzz", "1", "C" };
    std::vector<std::pair<std::string, std::string> > model;
    for (auto& s : STD) model.push_back(std::make_pair(std::string(s[0]), std::string(s[1])));
    srcml_archive* a = srcml_archive_create(); srcml_archive* other = srcml_archive_create();
    srcml_archive* clone = 0; std::vector<std::pair<std::string, std::string> > cmodel;
    int n = vf_irange("n", 0, 12);
    for (int i = 0; i < n; ++i) {
        std::string e = vf_irange("known", 0, 3) ? exts[vf_irange("ext", 0, 15)] : vf_cstr("e");
        const char* l; int k = vf_irange("lang", 0, 7);
        std::string lang = k < 5 ? LANGS[k] : k == 5 ? "" : k == 6 ? "c++" : vf_cstr("l");
        int st = srcml_archive_register_file_extension(a, e.c_str(), lang.c_str());
        if (is_language(lang.c_str())) { vf_assert(st == SRCML_STATUS_OK, "registering an extension for a supported language succeeds"); model.push_back(std::make_pair(e, lang)); }
        else vf_assert(st != SRCML_STATUS_OK, "registering an extension for anything else is refused");
        if (!clone && vf_irange("clone", 0, 5) == 0) { clone = srcml_archive_clone(a); cmodel = model; }
    }
    vf_assert(srcml_archive_register_file_extension(0, "a", "C") == SRCML_STATUS_INVALID_ARGUMENT && srcml_archive_register_file_extension(a, 0, "C") == SRCML_STATUS_INVALID_ARGUMENT && srcml_archive_register_file_extension(a, "a", 0) == SRCML_STATUS_INVALID_ARGUMENT, "NULL arguments are refused");
    static const char* stems[] = { "a", "", "dir/a", "dir.d/a", "a.b", ".hidden", "dir.cpp/a", "x.gz", "é" };
    for (int i = 0; i < 40; ++i) {
        std::string f;
        if (vf_irange("whole", 0, 9) == 0) f = vf_cstr("file");
        else { f = stems[vf_irange("stem", 0, 8)]; if (vf_irange("dot", 0, 7)) { f += "."; f += vf_irange("fk", 0, 4) ? exts[vf_irange("fext", 0, 15)] : model[vf_irange("fm", 0, (int) model.size() - 1)].first; } if (vf_irange("gz", 0, 3) == 0) f += ".gz"; }
        std::string e; bool has = ext_of(f, e);
        for (int w = 0; w < 3; ++w) {
            if (w == 2 && !clone) continue;
            const std::vector<std::pair<std::string, std::string> >& m = w == 0 ? model : cmodel;
            std::string want;
            if (w == 1) { for (auto& s : STD) if (has && e == s[0]) want = s[1]; }
            else for (auto& p : m) if (has && p.first == e) want = p.second;
            const char* got = srcml_archive_check_extension(w == 0 ? a : w == 1 ? other : clone, f.c_str());
            vf_assert((got ? got : "") == want, "a filename has the language last registered for its extension");
            vf_assert(!got || *got, "no language is NULL");
        }
    }
    vf_assert(srcml_archive_check_extension(a, 0) == 0 && srcml_archive_check_extension(0, "a.c") == 0, "NULL has no language");
    if (clone) srcml_archive_free(clone);
    srcml_archive_free(a); srcml_archive_free(other);
}
static const char* SRC = "import a.b;\n@x template<class T> class A : b { int* c; };\nusing x;\n[x] in y;\n";
// what the registry says is what parsing uses
VF_HARNESS(parse_uses_registry) {
    static const char* exts[] = { "cpp", "c", "h", "zz", "gz", "q.r", "java" };
    srcml_archive* a = srcml_archive_create(); char* buf = 0; size_t size = 0;
    srcml_archive_write_open_memory(a, &buf, &size);
    int n = vf_irange("n", 0, 3);
    for (int i = 0; i < n; ++i) { const char* e = exts[vf_irange("e", 0, 6)]; srcml_archive_register_file_extension(a, e, LANGS[vf_irange("l", 0, 4)]); }
    std::string f = std::string("a.") + exts[vf_irange("fe", 0, 6)] + (vf_irange("gz", 0, 2) ? "" : ".gz");
    srcml_unit* u = srcml_unit_create(a);
    char dir[] = "/tmp/vf_p04_XXXXXX"; vf_assume(mkdtemp(dir) != 0);
    std::string path = std::string(dir) + "/" + f; { std::ofstream o(path); o << SRC; }
    const char* want = srcml_archive_check_extension(a, path.c_str());
    int st = srcml_unit_parse_filename(u, path.c_str());
    unlink(path.c_str()); rmdir(dir);
    if (!want) vf_assert(st == SRCML_STATUS_UNSET_LANGUAGE, "a filename without a language cannot be parsed without a language");
    else { vf_assert(st == SRCML_STATUS_OK, "parsing a known extension succeeds"); 
        srcml_unit* v = srcml_unit_create(a); srcml_unit_set_language(v, want); srcml_unit_parse_memory(v, SRC, strlen(SRC));
        const char* x = srcml_unit_get_srcml_inner(u); std::string sx = x ? x : ""; const char* y = srcml_unit_get_srcml_inner(v);
        vf_assert(y && sx == y, "the unit is parsed in the language of its extension"); srcml_unit_free(v); }
    srcml_unit_free(u); srcml_archive_close(a); srcml_archive_free(a); srcml_memory_free(buf);
}
#endif
