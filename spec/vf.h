// Intrinsics of the contract harnesses.  In the proof (clang IR -> vf/engine.py) they are symbolic;
// in the native runtime (spec/vf_native.cpp) they draw concrete values, so that the same contract is
// executed against the real code: bounded exploration, and replay of a solver's counterexample.
#ifndef VF_H
#define VF_H
#include <cstddef>
#include <string>
extern "C" {
    int vf_int(const char* name);
    unsigned vf_uint(const char* name);
    unsigned long long vf_u64(const char* name);
    char vf_char(const char* name);
    size_t vf_size(const char* name, size_t lo, size_t hi);
    int vf_irange(const char* name, int lo, int hi);      // 0 <= lo
    bool vf_bool(const char* name);
    const char* vf_cstr(const char* name);                // any NUL-terminated string
    const char* vf_cstr_or_null(const char* name);
    const char* vf_text(const char* name);                // proof: any NUL-terminated string; natively: UTF-8 legal in XML
    const char* vf_text_or_null(const char* name);
    const char* vf_bytes(const char* name, size_t* len);  // any byte buffer, no terminator
    void vf_string(const char* name, std::string* out);   // any std::string, embedded NULs included
    void* vf_object(const char* name, size_t size);       // proof only: object in an arbitrary state
    void vf_assume(bool c);
    void vf_assert(bool c, const char* label);
    void vf_reach(const char* label);                     // must be reachable (vacuity guard)
    int vf_symbolic();                                    // 1 in the proof, 0 natively
    bool vf_streq(const char* a, const char* b);          // both null, or equal strings
    void vf_str_save(int slot, const char* s);            // ghost copy of a string (or null)
    bool vf_str_same(int slot, const char* s);            // equal to the ghost copy
    void vf_frame_save(const void* p, size_t size);
    void vf_frame_check(const void* p, size_t size, size_t off1, size_t len1, size_t off2, size_t len2, const char* label);
    void vf_vector(void* vec, size_t stride, const char* schema, const char* name, size_t maxn); // proof only
}
#ifdef VF_NATIVE
extern "C" int vf_register(const char*, void (*)());
#define VF_HARNESS(name) extern "C" void vfh_##name(); static int vfr_##name = vf_register(#name, vfh_##name); extern "C" void vfh_##name()
#define VF_NATIVE_HARNESS(name) VF_HARNESS(name)
#else
#define VF_HARNESS(name) extern "C" void vfh_##name()
#endif
#endif
