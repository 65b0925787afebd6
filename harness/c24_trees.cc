// C24: syntax trees and distributions read from XML, and what they report.
#include <cassert>
#include <string>
#include <vector>
#include "vh.h"
#include <iostream>
#include "fern/core/exception.h"
#include "fern/language/ast/core/vertices.h"
#include "fern/language/ast/xml/xml_parser.h"
#include "fern/language/io/uncertml2/uncertml2_parser.h"
#include "fern/language/uncertainty/normal_distribution.h"
#include <random>
using namespace vh;
namespace fl = fern::language;
using S = std::string;

// ---------------------------------------------------------------- the model
struct Node;
using P = std::shared_ptr<Node>;
struct Node {
    S kind;              // Expression: Name String Number Call Operator Subscript Attribute. Statement: Assign If While Def Return Expr
    S text;              // name, string value, member name
    S type;              // of numbers: i8 ... u64 f32 f64
    long long i = 0; unsigned long long u = 0; double d = 0;
    int line = 0, col = 0;
    std::vector<P> kids; // operands, arguments, condition, target and value
    std::vector<P> body, other;
};
static std::vector<std::pair<S, S>> const unary{{"Invert", "~"}, {"Not", "!"}, {"UnaryAdd", "+"}, {"UnarySub", "-"}};
static std::vector<std::pair<S, S>> const binary{{"add", "+"}, {"Sub", "-"}, {"Mult", "*"}, {"Div", "/"}, {"Mod", "%"}, {"Pow", "**"},
    {"LShift", "<<"}, {"RShift", ">>"}, {"BitOr", "|"}, {"BitXor", "^"}, {"BitAnd", "&"}, {"FloorDiv", "//"}, {"And", "and"}, {"Or", "or"},
    {"Eq", "=="}, {"NotEq", "!="}, {"Lt", "<"}, {"LtE", "<="}, {"Gt", ">"}, {"GtE", ">="}};
static S words(Rng& r) {
    static std::vector<S> const w{"a", "b", "dem", "slope_2", "f", "x.y", "<", ">", "&", "\"", "'", " ", "  ", "\t", "\n", "\xc3\xa9", "\xe2\x82\xac", "]]>", "&amp;", "<!-- -->", "\xf0\x9f\x98\x80", "0", "%1%", "\\"};
    S s; size_t n = r.chance(10) ? 0 : r.chance(60) ? 1 : 1 + r.below(8);
    if (r.chance(1)) n = 1000 + r.below(2000);
    for (size_t i = 0; i < n; ++i) s += w[r.below(r.chance(60) ? 5 : w.size())];
    return s;
}
static int pos(Rng& r) { return r.chance(3) ? std::numeric_limits<int>::max() - int(r.below(2)) : r.chance(10) ? 0 : int(r.below(r.chance(20) ? 100000 : 100)); }
template<class T> T edge(Rng& r) {
    if (r.chance(30)) return std::numeric_limits<T>::max() - T(r.below(2));
    if (r.chance(30)) return std::numeric_limits<T>::min() + T(r.below(2));
    if (r.chance(40)) return T(r.below(100));
    return T(r.next());
}
static P make(S const& kind, Rng& r) { P p = std::make_shared<Node>(); p->kind = kind; p->line = pos(r); p->col = pos(r); return p; }
static P expression(Rng& r, int depth) {
    int k = depth <= 0 ? int(r.below(3)) : int(r.below(8));
    if (k == 0) { P p = make("Name", r); p->text = words(r); return p; }
    if (k == 1) { P p = make("String", r); p->text = words(r); return p; }
    if (k == 2) {
        P p = make("Number", r);
        switch (r.below(10)) {
            case 0: p->type = "i8"; p->i = edge<int8_t>(r); break;
            case 1: p->type = "i16"; p->i = edge<int16_t>(r); break;
            case 2: p->type = "i32"; p->i = edge<int32_t>(r); break;
            case 3: p->type = "i64"; p->i = edge<int64_t>(r); break;
            case 4: p->type = "u8"; p->u = edge<uint8_t>(r); break;
            case 5: p->type = "u16"; p->u = edge<uint16_t>(r); break;
            case 6: p->type = "u32"; p->u = edge<uint32_t>(r); break;
            case 7: p->type = "u64"; p->u = edge<uint64_t>(r); break;
            case 8: p->type = "f32"; p->d = float((r.unit() - 0.5) * std::pow(10.0, double(r.range(-30, 30)))); break;
            default: p->type = "f64"; p->d = (r.unit() - 0.5) * std::pow(10.0, double(r.range(-290, 290)));
        }
        if (r.chance(5) && p->type[0] == 'f') p->d = r.chance(50) ? INFINITY : r.chance(50) ? -INFINITY : NAN;
        return p;
    }
    if (k == 3) { P p = make("Call", r); p->text = words(r); for (size_t i = r.below(5); i; --i) p->kids.push_back(expression(r, depth - 1)); return p; }
    if (k == 4) { P p = make("Operator", r); auto o = r.pick(unary); p->text = o.first; p->type = o.second; p->kids.push_back(expression(r, depth - 1)); return p; }
    if (k == 5) { P p = make("Operator", r); auto o = r.pick(binary); p->text = o.first; p->type = o.second; for (int i = 0; i < 2; ++i) p->kids.push_back(expression(r, depth - 1)); return p; }
    if (k == 6) { P p = make("Subscript", r); for (int i = 0; i < 2; ++i) p->kids.push_back(expression(r, depth - 1)); return p; }
    P p = make("Attribute", r); p->text = words(r); p->kids.push_back(expression(r, depth - 1)); return p;
}
static std::vector<P> statements(Rng& r, int depth, size_t least);
static P statement(Rng& r, int depth) {
    int k = depth <= 0 ? int(r.below(3)) : int(r.below(7)), e = int(r.below(4));
    if (k == 0) { P p = make("Expr", r); p->kids = {expression(r, e)}; p->kids[0]->line = p->line; p->kids[0]->col = p->col; return p; }
    if (k == 1) { P p = make("Assign", r); p->kids = {expression(r, e), expression(r, e)}; return p; }
    if (k == 2) { P p = make("Return", r); if (r.chance(70)) p->kids = {expression(r, e)}; return p; }
    if (k == 3 || k == 4) { P p = make(k == 3 ? "If" : "While", r); p->kids = {expression(r, e)}; p->body = statements(r, depth - 1, 1); p->other = statements(r, depth - 1, 0); return p; }
    P p = make("Def", r); p->text = words(r); for (size_t i = r.below(4); i; --i) p->kids.push_back(expression(r, 1)); p->body = statements(r, depth - 1, 1); return p;
}
static std::vector<P> statements(Rng& r, int depth, size_t least) {
    std::vector<P> v; size_t n = least + (r.chance(30) ? 0 : r.below(4));
    for (size_t i = 0; i < n; ++i) v.push_back(statement(r, depth));
    return v;
}

// ------------------------------------------------------------- its XML form
struct Writer {
    Rng& r; S o; bool noisy;
    void gap() {
        if (!noisy) return;
        if (r.chance(20)) o += S(r.below(4), ' ');
        if (r.chance(10)) o += "\n";
        if (r.chance(2)) o += "<!-- a comment: <Name>x</Name> -->";
        if (r.chance(1)) o += "<?note some?>";
    }
    void text(S const& s, bool attribute = false) {
        bool cdata = noisy && !attribute && r.chance(10) && s.find("]]>") == S::npos && !s.empty();
        if (cdata) { o += "<![CDATA[" + s + "]]>"; return; }
        for (char c : s) {
            if (c == '<') o += "&lt;"; else if (c == '>') o += "&gt;"; else if (c == '&') o += "&amp;"; else if (c == '"') o += attribute || r.chance(50) ? "&quot;" : "\"";
            else if (attribute && (c == '\n' || c == '\t')) o += c == '\n' ? "&#10;" : "&#9;";
            else if (noisy && (c & 0x80) == 0 && r.chance(5)) o += "&#" + std::to_string(int(c)) + ";";
            else o += c;
            if (noisy && !attribute && (c & 0x80) == 0 && r.chance(1)) o += "<!-- cut -->";
        }
    }
    void leaf(S const& tag, S const& value) { gap(); if (value.empty() && r.chance(50)) { o += "<" + tag + "/>"; gap(); return; } o += "<" + tag + ">"; text(value); o += "</" + tag + ">"; gap(); }
    void number(S const& tag, S const& value) { gap(); o += "<" + tag + ">" + (noisy && r.chance(10) ? " " : "") + value + (noisy && r.chance(10) ? "\n" : "") + "</" + tag + ">"; gap(); }
    void open(S const& tag) { gap(); o += "<" + tag + ">"; gap(); }
    void close(S const& tag) { gap(); o += "</" + tag + ">"; gap(); }
    void place(S const& tag, Node const& n) {
        gap(); S l = " line=\"" + std::to_string(n.line) + "\"", c = " col=\"" + std::to_string(n.col) + "\"";
        o += "<" + tag + (r.chance(50) ? l + c : c + l) + ">"; gap();
    }
    void expressions(std::vector<P> const& v) { open("Expressions"); for (auto& p : v) expr(*p); close("Expressions"); }
    void block(std::vector<P> const& v) { open("Statements"); for (auto& p : v) stat(*p); close("Statements"); }
    void expr(Node const& n) {
        place("Expression", n);
        if (n.kind == "Name" || n.kind == "String") leaf(n.kind, n.text);
        else if (n.kind == "Number") {
            S tag = n.type[0] == 'i' ? "Integer" : n.type[0] == 'u' ? "UnsignedInteger" : "Float", v;
            if (n.type[0] == 'i') v = std::to_string(n.i);
            else if (n.type[0] == 'u') v = std::to_string(n.u);
            else if (std::isnan(n.d)) v = "NaN";
            else if (std::isinf(n.d)) v = n.d > 0 ? "INF" : "-INF";
            else { char b[64]; snprintf(b, sizeof b, n.type == "f32" && r.chance(50) ? "%.9g" : "%.17g", n.d); v = b; }
            open("Number"); open(tag); number("Size", n.type.substr(1)); number("Value", v); close(tag); close("Number");
        }
        else if (n.kind == "Call" || n.kind == "Operator") { S t = n.kind == "Call" ? "FunctionCall" : "Operator"; open(t); leaf("Name", n.text); expressions(n.kids); close(t); }
        else if (n.kind == "Subscript") { open(n.kind); expr(*n.kids[0]); expr(*n.kids[1]); close(n.kind); }
        else { open(n.kind); expr(*n.kids[0]); leaf("Name", n.text); close(n.kind); }
        close("Expression");
    }
    void stat(Node const& n) {
        place("Statement", n);
        if (n.kind == "Expr") expr(*n.kids[0]);
        else if (n.kind == "Assign") { open("Assignment"); expr(*n.kids[0]); expr(*n.kids[1]); close("Assignment"); }
        else if (n.kind == "Return") { if (n.kids.empty() && r.chance(50)) o += "<Return/>"; else { open("Return"); for (auto& p : n.kids) expr(*p); close("Return"); } }
        else if (n.kind == "Def") { open("FunctionDefinition"); leaf("Name", n.text); expressions(n.kids); block(n.body); close("FunctionDefinition"); }
        else { open(n.kind); expr(*n.kids[0]); block(n.body); block(n.other); close(n.kind); }
        close("Statement");
    }
    void program(S const& source, std::vector<P> const& v) {
        if (r.chance(70)) o += "<?xml version=\"1.0\"?>";
        o += "<Fern source=\""; text(source, true); o += "\">"; block(v); o += "</Fern>";
    }
};

// --------------------------------------------------- what the tree has to be
static void wrong(S const& path, S const& what) { mon().violation("tree", path + ": " + what); }
static S cut(S const& s) { return esc(s.size() > 60 ? s.substr(0, 57) + "..." : s); }
static void place(S const& path, fl::AstVertex const& v, Node const& n) {
    if (v.line() != n.line || v.col() != n.col) wrong(path, "position " + std::to_string(v.line()) + ":" + std::to_string(v.col()) + " instead of " + std::to_string(n.line) + ":" + std::to_string(n.col));
    if (v.has_successor() || !v.successors().empty()) wrong(path, "successors");
}
template<class T> void number(S const& path, fl::ExpressionVertex const& v, T want) {
    auto* p = dynamic_cast<fl::NumberVertex<T> const*>(&v);
    if (!p) { wrong(path, "other kind of vertex than the literal's type"); return; }
    if (!(p->value() == want || (want != want && p->value() != p->value()))) wrong(path, "value " + std::to_string(p->value()) + " instead of " + std::to_string(want));
    if (std::is_integral<T>::value && p->name() != std::to_string(want)) wrong(path, "name " + cut(p->name()) + " instead of " + std::to_string(want));
}
static void same(S const& path, fl::ExpressionVertexPtr const& v, Node const& n);
static void same(S const& path, fl::ExpressionVertices const& v, std::vector<P> const& n) {
    if (v.size() != n.size()) { wrong(path, std::to_string(v.size()) + " expressions instead of " + std::to_string(n.size())); return; }
    for (size_t i = 0; i < n.size(); ++i) same(path + "/" + std::to_string(i), v[i], *n[i]);
}
static void same(S const& path0, fl::ExpressionVertexPtr const& v, Node const& n) {
    S path = path0 + ":" + n.kind;
    mon().count("vertices judged");
    if (!v) { wrong(path, "no vertex"); return; }
    place(path, *v, n);
    if (n.kind == "Name") {
        auto p = std::dynamic_pointer_cast<fl::NameVertex>(v);
        if (!p) wrong(path, "kind"); else { if (p->name() != n.text) wrong(path, cut(p->name()) + " instead of " + cut(n.text)); if (!p->definitions().empty() || !p->uses().empty()) wrong(path, "definitions or uses"); }
    } else if (n.kind == "String") {
        auto p = std::dynamic_pointer_cast<fl::StringVertex>(v);
        if (!p) wrong(path, "kind"); else { if (p->value() != n.text) wrong(path, cut(p->value()) + " instead of " + cut(n.text)); if (p->name() != "\"" + n.text + "\"") wrong(path, "name"); }
    } else if (n.kind == "Number") {
        if (n.type == "i8") number<int8_t>(path, *v, int8_t(n.i)); else if (n.type == "i16") number<int16_t>(path, *v, int16_t(n.i));
        else if (n.type == "i32") number<int32_t>(path, *v, int32_t(n.i)); else if (n.type == "i64") number<int64_t>(path, *v, n.i);
        else if (n.type == "u8") number<uint8_t>(path, *v, uint8_t(n.u)); else if (n.type == "u16") number<uint16_t>(path, *v, uint16_t(n.u));
        else if (n.type == "u32") number<uint32_t>(path, *v, uint32_t(n.u)); else if (n.type == "u64") number<uint64_t>(path, *v, n.u);
        else if (n.type == "f32") number<float>(path, *v, float(n.d)); else number<double>(path, *v, n.d);
    } else if (n.kind == "Call") {
        auto p = std::dynamic_pointer_cast<fl::FunctionCallVertex>(v);
        if (!p) wrong(path, "kind"); else { if (p->name() != n.text) wrong(path, "name " + cut(p->name())); same(path, p->expressions(), n.kids); }
    } else if (n.kind == "Operator") {
        auto p = std::dynamic_pointer_cast<fl::OperatorVertex>(v);
        if (!p) wrong(path, "kind"); else { if (p->name() != n.text || p->symbol() != n.type) wrong(path, "operator " + p->name() + " " + p->symbol()); same(path, p->expressions(), n.kids); }
    } else if (n.kind == "Subscript") {
        auto p = std::dynamic_pointer_cast<fl::SubscriptVertex>(v);
        if (!p) wrong(path, "kind"); else { same(path + "/e", p->expression(), *n.kids[0]); same(path + "/s", p->selection(), *n.kids[1]); }
    } else {
        auto p = std::dynamic_pointer_cast<fl::AttributeVertex>(v);
        if (!p) wrong(path, "kind"); else { if (p->member_name() != n.text) wrong(path, "member " + cut(p->member_name())); same(path + "/e", p->expression(), *n.kids[0]); }
    }
}
static void same(S const& path, std::shared_ptr<fl::ScopeVertex> const& scope, std::vector<P> const& n);
static void same(S const& path0, fl::StatementVertex* v, std::shared_ptr<fl::StatementVertex> const& s, Node const& n) {
    S path = path0 + ":" + n.kind;
    mon().count("vertices judged");
    if (!v) { wrong(path, "no vertex"); return; }
    place(path, *v, n);
    if (n.kind == "Expr") { auto p = std::dynamic_pointer_cast<fl::ExpressionVertex>(s); if (!p) wrong(path, "kind"); else same(path, p, *n.kids[0]); }
    else if (n.kind == "Assign") {
        auto* p = dynamic_cast<fl::AssignmentVertex*>(v);
        if (!p) wrong(path, "kind"); else { same(path + "/t", p->target(), *n.kids[0]); same(path + "/v", p->expression(), *n.kids[1]); if (p->target()->value() != p->expression()) wrong(path, "value of target"); }
    } else if (n.kind == "Return") {
        auto* p = dynamic_cast<fl::ReturnVertex*>(v);
        if (!p) wrong(path, "kind"); else if (n.kids.empty()) { if (p->expression()) wrong(path, "expression"); } else same(path, p->expression(), *n.kids[0]);
    } else if (n.kind == "If") {
        auto* p = dynamic_cast<fl::IfVertex*>(v);
        if (!p) wrong(path, "kind"); else { same(path + "/c", p->condition(), *n.kids[0]); same(path + "/1", p->true_scope(), n.body); same(path + "/0", p->false_scope(), n.other); if (!p->sentinel()) wrong(path, "sentinel"); }
    } else if (n.kind == "While") {
        auto* p = dynamic_cast<fl::WhileVertex*>(v);
        if (!p) wrong(path, "kind"); else { same(path + "/c", p->condition(), *n.kids[0]); same(path + "/1", p->true_scope(), n.body); same(path + "/0", p->false_scope(), n.other); if (!p->sentinel()) wrong(path, "sentinel"); }
    } else {
        auto* p = dynamic_cast<fl::FunctionDefinitionVertex*>(v);
        if (!p) wrong(path, "kind"); else { if (p->name() != n.text) wrong(path, "name"); same(path + "/a", p->arguments(), n.kids); same(path + "/b", p->scope(), n.body); }
    }
}
static void same(S const& path, std::shared_ptr<fl::ScopeVertex> const& scope, std::vector<P> const& n) {
    if (!scope) { wrong(path, "no scope"); return; }
    if (!scope->sentinel()) wrong(path, "no sentinel");
    if (scope->statements().size() != n.size()) { wrong(path, std::to_string(scope->statements().size()) + " statements instead of " + std::to_string(n.size())); return; }
    for (size_t i = 0; i < n.size(); ++i) same(path + "/" + std::to_string(i), scope->statements()[i].get(), scope->statements()[i], *n[i]);
}

// ----------------------------------------------------------------- the cases
enum Outcome { Read, Rejected, Foreign };
template<class F> Outcome attempt(S const& key, S const& doc, F f) {
    try { f(); return Read; }
    catch (fern::detail::ParseError const& e) {
        auto* src = boost::get_error_info<fern::detail::ExceptionSourceName>(e); auto* m = boost::get_error_info<fern::detail::ExceptionMessage>(e);
        if (!src || !m || m->empty()) mon().violation(key + "-message", "parse error without a source name or message: " + cut(doc));
        return Rejected;
    }
    catch (std::exception const& e) { mon().violation(key + "-foreign", S("other exception: ") + typeid(e).name() + " " + e.what() + " for " + cut(doc)); return Foreign; }
    catch (...) { mon().violation(key + "-foreign", "other exception for " + cut(doc)); return Foreign; }
}
static fl::XmlParser const parser; // one parser for all documents: nothing may be left of a previous one
static void rejects(S const& why, S const& doc) {
    mon().at("reject " + why + ": " + (doc.size() > 3000 ? doc.substr(0, 3000) : doc)); mon().seen("reject " + doc);
    mon().count("damaged documents");
    std::shared_ptr<fl::ModuleVertex> m;
    if (attempt("reject", doc, [&] { m = parser.parse_string(doc); }) == Read) mon().violation("reject-silent", why + " accepted: " + cut(doc));
}
static S replace_one(Rng& r, S s, S const& what, S const& by) {
    std::vector<size_t> at; for (size_t i = s.find(what); i != S::npos; i = s.find(what, i + 1)) at.push_back(i);
    if (at.empty()) return {};
    size_t i = r.pick(at); return s.replace(i, what.size(), by);
}
static void tree(Rng& r) {
    auto v = statements(r, int(r.below(4)), 0); S source = words(r);
    Writer w{r, {}, r.chance(50)}; w.program(source, v);
    S doc = w.o;
    mon().at("parse " + doc.substr(0, 3000)); mon().seen(doc, !v.empty()); mon().count("documents"); mon().sample(cut(doc));
    std::shared_ptr<fl::ModuleVertex> m;
    auto o = attempt("parse", doc, [&] { m = parser.parse_string(doc); });
    if (o == Rejected) mon().violation("rejected", "valid document rejected: " + cut(doc));
    if (m) { if (m->source_name() != source) wrong("module", "source " + cut(m->source_name()) + " instead of " + cut(source)); same("module", m->scope(), v); }
    else if (o == Read) wrong("module", "no tree");
    // Damage.
    rejects("truncated", doc.substr(0, r.below(doc.size() - 1)));
    Writer plain{r, {}, false}; plain.program(source, v); S p = plain.o;
    std::vector<std::vector<S>> const edits{
        {"no line", " line=\"", " lime=\""}, {"no col", " col=\"", " cold=\""}, {"position not a number", " line=\"", " line=\"x"}, {"negative position", " col=\"", " col=\"-1"},
        {"large position", " line=\"", " line=\"99999999999"}, {"unknown element", "<Name>", "<Nam>"}, {"two names", "<Name>", "<Name/><Name>"},
        {"size", "<Size>", "<Size>1"}, {"size not a number", "<Size>", "<Size>x"}, {"zero size", "<Size>", "<Size>0</Size><Size>"}, {"value not a number", "<Value>", "<Value>x"},
        {"value twice", "<Value>", "<Value>1</Value><Value>"}, {"extra text", "<Expressions>", "<Expressions>x"}, {"extra attribute", "<Statements>", "<Statements at=\"1\">"},
        {"no source", "<Fern source=", "<Fern sauce="}, {"other root", "<Fern ", "<Farn "}, {"unbalanced", "</Statements>", ""}, {"second block", "</Statements></Fern>", "</Statements><Statements/></Fern>"},
        {"no value", "<Assignment>", "<Assignment><Expression line=\"1\" col=\"1\"><Name>x</Name></Expression>"}, {"empty body", "</Expression><Statements>", "</Expression><Statements/><Statements>"},
        {"statement as operand", "<Expressions>", "<Expressions><Statement line=\"1\" col=\"1\"><Return/></Statement>"}, {"empty expression", "<Expressions>", "<Expressions><Expression line=\"1\" col=\"1\"></Expression>"},
        {"operator", "<Operator><Name>", "<Operator><Name>x"}, {"operands", "<Operator><Name>Not</Name><Expressions>", "<Operator><Name>Not</Name><Expressions><Expression line=\"1\" col=\"1\"><Name>x</Name></Expression>"},
        {"no operands", "</Operator>", "<Expressions/></Operator>"}, {"entity", "<Name>", "<Name>&nope;"}, {"ampersand", "<Name>", "<Name>&"}, {"two attributes", " line=\"", " line=\"1\" line=\""}, {"empty statement", "<Statements>", "<Statements><Statement line=\"1\" col=\"1\"/>"}};
    for (int i = 0; i < 3; ++i) {
        auto const& e = r.pick(edits);
        S d = replace_one(r, p, e[1], e[2]);
        if (!d.empty()) rejects(e[0], d);
    }
    // Bytes: any outcome but a crash or a foreign exception.
    S b = doc;
    for (size_t i = 0, n = 1 + r.below(4); i < n && !b.empty(); ++i) {
        size_t at = r.below(b.size());
        switch (r.below(4)) {
            case 0: b[at] = char(r.next()); break;
            case 1: b.erase(at, 1 + r.below(20)); break;
            case 2: b.insert(at, S(1, "<>/\"&'=x0 \n"[r.below(11)])); break;
            default: { size_t from = r.below(b.size()); S piece = b.substr(from, r.below(80)); b.insert(at, piece); }
        }
    }
    mon().at("bytes " + b.substr(0, 3000)); mon().seen(b);
    std::shared_ptr<fl::ModuleVertex> mb;
    mon().count(attempt("bytes", b, [&] { mb = parser.parse_string(b); }) == Read ? "damaged bytes still valid" : "damaged bytes rejected");
}
static S literal(S const& tag, S const& size, S const& value) {
    return "<Fern source=\"s\"><Statements><Statement line=\"1\" col=\"0\"><Expression line=\"1\" col=\"0\"><Number><" + tag + "><Size>" + size + "</Size><Value>" + value + "</Value></" + tag + "></Number></Expression></Statement></Statements></Fern>";
}
static void literals(Rng& r) {
    // One beyond the limits of each size, and sizes that do not exist.
    for (auto& c : std::vector<std::vector<S>>{{"Integer", "8", "128"}, {"Integer", "8", "-129"}, {"Integer", "16", "32768"}, {"Integer", "16", "-32769"}, {"Integer", "32", "2147483648"}, {"Integer", "32", "-2147483649"},
            {"Integer", "64", "9223372036854775808"}, {"Integer", "64", "-9223372036854775809"}, {"UnsignedInteger", "8", "256"}, {"UnsignedInteger", "16", "65536"}, {"UnsignedInteger", "32", "4294967296"},
            {"UnsignedInteger", "64", "18446744073709551616"}, {"UnsignedInteger", "8", "-1"}, {"UnsignedInteger", "32", "-1"}, {"Float", "32", "1e39"}, {"Float", "32", "-1e300"}, {"Float", "64", "1e400"}, {"Float", "64", "abc"}, {"Integer", "32", "1.5"}, {"Integer", "64", ""}})
        rejects("out of range", literal(c[0], c[1], c[2]));
    for (int i = 0; i < 10; ++i) {
        S tag = r.pick(std::vector<S>{"Integer", "UnsignedInteger", "Float"}); unsigned s = 1 + unsigned(r.below(200));
        if (s == 32 || s == 64 || (s == 8 && tag != "Float") || (s == 16 && tag != "Float")) continue;
        rejects("size", literal(tag, std::to_string(s), "1"));
    }
}
static void deep(Rng& r) {
    // The same construct, many times nested.
    size_t n = 50 + r.below(mon().n(500, 2000)); static std::vector<S> const kinds{"Subscript", "Selection", "Attribute", "Call", "Operator", "If", "Else", "While", "Def"}; S k = r.pick(kinds);
    P e = make("Name", r); e->text = "x"; bool stat = k == "If" || k == "Else" || k == "While" || k == "Def"; P s;
    if (!stat) for (size_t i = 0; i < n; ++i) {
        P p = make(k == "Selection" ? "Subscript" : k, r), q = make("Name", r); q->text = "y" + std::to_string(i);
        if (k == "Subscript") p->kids = {e, q}; else if (k == "Selection") p->kids = {q, e}; else p->kids = {e};
        p->text = k == "Operator" ? "UnarySub" : "n" + std::to_string(i); p->type = "-"; e = p;
    }
    s = make("Expr", r); s->kids = {e}; e->line = s->line; e->col = s->col;
    if (stat) for (size_t i = 0; i < n; ++i) {
        P p = make(k == "Else" ? "If" : k, r), c = make("Name", r); c->text = "c" + std::to_string(i); p->kids = {c}; p->text = "f" + std::to_string(i);
        if (k == "Else") { P t = make("Return", r); p->body = {t}; p->other = {s}; } else p->body = {s};
        s = p;
    }
    Writer w{r, {}, false}; w.program("deep", {s});
    mon().at("deep " + k + " " + std::to_string(n)); mon().seen("deep " + k + std::to_string(n)); mon().count("deeply nested documents");
    std::shared_ptr<fl::ModuleVertex> m;
    if (attempt("deep", k, [&] { m = parser.parse_string(w.o); }) != Read) mon().violation("rejected", "deep document rejected: " + k);
    else same("deep", m->scope(), {s});
}
static void uncertainty(Rng& r) {
    static fern::UncertML2Parser const parser;
    auto num = [&](double v) { char b[64]; snprintf(b, sizeof b, r.chance(30) ? "%.17e" : "%.17g", v); return S(b); };
    double mean = (r.unit() - 0.5) * std::pow(10.0, double(r.range(-20, 20))), var = (r.unit() + 1e-9) * std::pow(10.0, double(r.range(-20, 20)));
    if (r.chance(10)) mean = 0; if (r.chance(5)) var = std::numeric_limits<double>::max(); if (r.chance(5)) mean = -std::numeric_limits<double>::max();
    S pre = r.pick(std::vector<S>{"un", "x", ""}), c = pre.empty() ? "" : pre + ":", sp = r.chance(30) ? "\n  " : "";
    auto doc = [&](S const& m, S const& v) { return "<?xml version=\"1.0\"?>" + sp + "<" + c + "NormalDistribution xmlns" + (pre.empty() ? "" : ":" + pre) + "=\"http://www.uncertml.org/2.0\">" + sp + m + sp + v + sp + "</" + c + "NormalDistribution>" + sp; };
    auto item = [&](S const& tag, S const& v) { return "<" + c + tag + (r.chance(10) ? " href=\"http://x.y/z\"" : "") + ">" + v + "</" + c + tag + ">"; };
    S good = doc(item("mean", sp + num(mean) + sp), item("variance", num(var)));
    mon().at("uncertainty " + good); mon().seen(good); mon().count("distributions");
    std::shared_ptr<fern::Uncertainty> u;
    auto o = attempt("uncertainty", good, [&] { u = parser.parse(good); });
    if (o == Rejected) mon().violation("uncertainty-rejected", good);
    if (u) {
        auto* p = dynamic_cast<fern::NormalDistribution<double>*>(u.get());
        if (!p) mon().violation("uncertainty-kind", good);
        else if (p->mean() != mean || p->standard_deviation() != std::sqrt(var)) mon().violation("uncertainty-value", num(p->mean()) + ", " + num(p->standard_deviation()) + " from " + good);
    }
    auto bad = [&](S const& d) {
        mon().at("uncertainty reject " + d); mon().seen("u" + d); mon().count("damaged documents");
        std::shared_ptr<fern::Uncertainty> x;
        if (attempt("uncertainty-reject", d, [&] { x = parser.parse(d); }) == Read) mon().violation("uncertainty-silent", "accepted: " + d);
    };
    S m = item("mean", num(mean)), v = item("variance", num(var));
    switch (r.below(12)) {
        case 0: bad(doc(v, m)); break;
        case 1: bad(doc(m, "")); break;
        case 2: bad(doc("", v)); break;
        case 3: bad(doc(m, item("variance", num(-var)))); break;
        case 4: bad(doc(m, item("variance", r.chance(50) ? "0" : "-0.0"))); break;
        case 5: bad(doc(item("mean", num(mean) + " " + num(mean)), v)); break;
        case 6: bad(doc(m, item("variance", num(var) + " " + num(var)))); break;
        case 7: bad(doc(item("mean", ""), v)); break;
        case 8: bad(doc(item("mean", "x"), v)); break;
        case 9: bad(doc(m, v + item("variance", num(var)))); break;
        case 10: bad(doc(m, item("variance", "NaN"))); break;
        default: bad(good.substr(0, r.below(good.size() - sp.size() - 1)));
    }
    S b = good; for (size_t i = 0; i < 3; ++i) b[r.below(b.size())] = char(r.next());
    mon().at("uncertainty bytes " + b); mon().seen(b); std::shared_ptr<fern::Uncertainty> x; attempt("uncertainty-bytes", b, [&] { x = parser.parse(b); });
}
template<class T> void distribution(Rng& r) {
    T mean = T((r.unit() - 0.5) * 1000), sd = T(r.chance(10) ? 0 : r.unit() * 100);
    mon().at("distribution " + std::to_string(mean) + " " + std::to_string(sd)); mon().seen("d" + std::to_string(mean) + "," + std::to_string(sd));
    fern::NormalDistribution<T> d(mean, sd), c(d), e(0, 1), f(std::move(c)); e = d;
    for (auto* p : {&d, &e, &f}) if (p->mean() != mean || p->standard_deviation() != sd) mon().violation("distribution", "mean or deviation");
    // Draws agree with the parameters: sums within eight standard errors.
    std::mt19937_64 g(r.next()); size_t const n = 4000; double s = 0, q = 0;
    for (size_t i = 0; i < n; ++i) { double x = double(d(g)) - mean; s += x; q += x * x; }
    double eps = 1e-3 * (sd == 0 ? 1 : 0) + 1e-4 * std::fabs(double(mean)) * (sizeof(T) == 4);
    if (std::fabs(s / n) > 8 * sd / std::sqrt(double(n)) + eps) mon().violation("distribution-draws", "mean of draws is off by " + std::to_string(s / n));
    if (std::fabs(std::sqrt(q / n) - sd) > 8 * sd / std::sqrt(2.0 * n) + eps) mon().violation("distribution-draws", "deviation of draws is " + std::to_string(std::sqrt(q / n)));
    mon().count("draws", n);
}
struct Any : fl::AstVertex {};
static void vertices(Rng& r) {
    int l = pos(r), c = pos(r); S t = words(r); mon().at("vertices"); mon().seen("v" + t + std::to_string(l) + "," + std::to_string(c));
    Node n; n.line = l; n.col = c;
    fl::NameVertex name(l, c, t); place("name", name, n); if (name.name() != t) wrong("name", "name");
    fl::StringVertex str(l, c, t); place("string", str, n); if (str.value() != t) wrong("string", "value");
    fl::NameVertex use(t); if (use.name() != t || use.line() || use.col()) wrong("name", "use");
    name.add_definition(&name); name.add_use(&use); use.add_definition(&name);
    if (name.definitions() != std::vector<fl::NameVertex*>{&name} || name.uses() != std::vector<fl::NameVertex*>{&use} || use.definitions() != std::vector<fl::NameVertex*>{&name}) wrong("name", "uses");
    fl::NumberVertex<uint8_t> num(l, c, uint8_t(l)); place("number", num, n); number<uint8_t>("number", num, uint8_t(l));
    std::vector<fl::AstVertex*> some; fl::ReturnVertex v; size_t k = r.below(5); fl::NameVertex a("a"), b("b"); fl::AstVertex* all[] = {&a, &b, &v, &name, &use};
    for (size_t i = 0; i < k; ++i) { auto* s = all[r.below(5)]; if (some.empty() && r.chance(50)) v.set_successor(s); else v.add_successor(s); some.push_back(s); }
    if (v.successors() != some || v.has_successor() != !some.empty()) wrong("successors", "list");
    fl::AstVertex const& cv = v;
    for (size_t i = 0; i < k; ++i) if (v.successor(i) != some[i] || cv.successor(i) != some[i]) wrong("successors", "index");
    if (k && (v.successor() != some[0] || cv.successor() != some[0])) wrong("successors", "first");
    v.set_position(l, c); if (v.line() != l || v.col() != c || v.expression()) wrong("return", "position");
}

int main(int argc, char** argv) {
    mon().init(argc, argv);
    auto* out = std::cout.rdbuf(nullptr); // the parser chats
    auto run = [&](char const* g, size_t k, void (*f)(Rng&)) { if (!mon().want(g)) return; Rng r = mon().rng(g); for (size_t i = 0; i < k; ++i) f(r); };
    run("tree", mon().n(4000, 120000), tree);
    run("literals", mon().n(20, 200), literals);
    run("deep", mon().n(40, 400), deep);
    run("uncertainty", mon().n(3000, 100000), uncertainty);
    run("distribution", mon().n(100, 3000), [](Rng& r) { distribution<double>(r); distribution<float>(r); });
    run("vertices", mon().n(500, 5000), vertices);
    std::cout.rdbuf(out);
    return mon().finish();
}
