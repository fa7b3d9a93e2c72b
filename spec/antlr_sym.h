// The out-of-line members of the ANTLR run time that are used (the library is binary only): trusted definitions for the proofs.
#ifndef VF_NATIVE
#include <antlr/Token.hpp>
namespace antlr {
    TokenRef::TokenRef(Token* p) : ptr(p), count(1) { if (p && !p->ref) p->ref = this; }
    TokenRef::~TokenRef() { delete ptr; }
    TokenRef* TokenRef::getRef(const Token* p) { if (!p) return 0; Token* t = const_cast<Token*>(p); return t->ref ? t->ref->increment() : new TokenRef(t); }
    int Token::getColumn() const { return 0; }
    int Token::getLine() const { return 0; }
    int Token::getType() const { return type; }
    void Token::setColumn(int) {}
    void Token::setLine(int) {}
    void Token::setText(const std::string&) {}
    void Token::setType(int t) { type = t; }
    void Token::setFilename(const std::string&) {}
}
#endif
