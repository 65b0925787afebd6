// Stand-in for the parser of scripts, which needs Python 2: programs are given
// as the XML that parser would have made of them.
#pragma once
#include <cerrno>
#include <cstdio>
#include <fstream>
#include <iterator>
#include <string>
#include <boost/throw_exception.hpp>
#include "fern/core/exception.h"
#include "fern/language/script/algebra_parser.h"

namespace front {
struct Error { int kind = 0; std::string source, statement, message; long line = 0, col = 0; int number = 0; };
inline Error error;   // raised by the next parse, when its kind is not 0
inline void raise() {
    using namespace fern::detail;
    Error const& e = error;
    if (e.kind == 1) BOOST_THROW_EXCEPTION(ParseError() << ExceptionSourceName(e.source) << ExceptionLineNr(e.line) << ExceptionColNr(e.col) << ExceptionMessage(e.message));
    if (e.kind == 2) BOOST_THROW_EXCEPTION(ParseError() << ExceptionSourceName(e.source) << ExceptionLineNr(e.line) << ExceptionColNr(e.col) << ExceptionStatement(e.statement) << ExceptionMessage(e.message));
    if (e.kind == 3) BOOST_THROW_EXCEPTION(UnsupportedLanguageConstruct() << ExceptionSourceName(e.source) << ExceptionLineNr(e.line) << ExceptionColNr(e.col) << ExceptionConstruct(e.message));
    if (e.kind == 4) BOOST_THROW_EXCEPTION(FileOpenError() << boost::errinfo_errno(e.number) << ExceptionSourceName(e.source));
}
}

namespace fern {
namespace python {
unsigned short Client::_count = 0;
Client::Client() { ++_count; }
Client::~Client() { --_count; }
bool Client::is_initialized() const { return _count > 0; }
}
namespace language {
AlgebraParser::AlgebraParser() : python::Client() {}
std::string AlgebraParser::parse_string(std::string const& s) const {
    front::raise();
    if (s.compare(0, 2, "! ") == 0) BOOST_THROW_EXCEPTION(detail::ParseError() << detail::ExceptionSourceName("<string>") << detail::ExceptionLineNr(1L) << detail::ExceptionColNr(2L) << detail::ExceptionMessage(s.substr(2)));
    return s;
}
std::string AlgebraParser::parse_file(std::string const& f) const {
    front::raise();
    FILE* p = fopen(f.c_str(), "r");
    if (!p) BOOST_THROW_EXCEPTION(detail::FileOpenError() << boost::errinfo_errno(errno) << detail::ExceptionSourceName(f));
    fclose(p);
    std::ifstream s(f, std::ios::binary);
    return {std::istreambuf_iterator<char>(s), {}};
}
}
}
