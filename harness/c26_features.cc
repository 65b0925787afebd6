// C26: features, attributes, the arguments of operations and the operations registry.
#include "vh.h"
#include <algorithm>
#include <iostream>
#include <memory>
#include "fern/language/feature/core/attributes.h"
#include "fern/language/feature/visitor/attribute_type_visitor.h"
#include "fern/language/operation/core/attribute_argument.h"
#include "fern/language/operation/core/feature_argument.h"
#include "fern/language/operation/core/operations.h"
using namespace vh;
namespace fl = fern::language;
using std::string; using std::vector; using std::shared_ptr; using std::make_shared;

// --- trees of features -------------------------------------------------------
struct Node {
    shared_ptr<fl::Feature> own;                 // null for the root
    fl::Feature* f = nullptr;
    std::map<string, shared_ptr<Node>> kids;
    std::map<string, shared_ptr<fl::Attribute>> attrs;
};
using NodeP = shared_ptr<Node>;

static string a_name(Rng& r) {
    static vector<string> const names{"a", "b", "c", "earth", "is_land", "x y", "a.b", ".hidden", "r\xc3\xa9gion", "a-b", "0", "A", "name:with", "[b]", "continents"};
    if (r.chance(85)) return r.pick(names);
    string s; size_t n = 1 + r.below(30);
    for (size_t i = 0; i < n; ++i) s += char('a' + r.below(26));
    return s;
}
static string join(vector<string> const& v, bool absolute) {
    string s;
    for (size_t i = 0; i < v.size(); ++i) s += (i || absolute ? "/" : "") + v[i];
    return s;
}
static bool reaches(NodeP const& from, NodeP const& to) {
    if (from == to) return true;
    for (auto& k : from->kids) if (reaches(k.second, to)) return true;
    return false;
}
template<class T> static bool same_names(vector<string> got, std::map<string, T> const& want) {
    vector<string> w; for (auto& p : want) w.push_back(p.first);
    std::sort(got.begin(), got.end());
    return got == w;
}
// A path below n: mostly along existing vertices, then possibly off the tree.
static vector<string> some_path(Rng& r, NodeP n, unsigned off) {
    vector<string> p; 
    while (!n->kids.empty() && r.chance(65)) {
        auto it = n->kids.begin(); std::advance(it, r.below(n->kids.size()));
        p.push_back(it->first); n = it->second;
    }
    if (r.chance(40) && !n->attrs.empty()) { auto it = n->attrs.begin(); std::advance(it, r.below(n->attrs.size())); p.push_back(it->first); }
    while (r.chance(off)) p.push_back(a_name(r));
    if (p.empty()) p.push_back(a_name(r));
    return p;
}
static NodeP find(NodeP n, vector<string> const& p, size_t k) {
    for (size_t i = 0; i < k; ++i) { auto it = n->kids.find(p[i]); if (it == n->kids.end()) return nullptr; n = it->second; }
    return n;
}
static bool judge(NodeP const& root, vector<string> const& p, bool absolute) {
    fl::Feature const& f = *root->f;
    fern::Path path(join(p, absolute));
    NodeP at = find(root, p, p.size()), up = find(root, p, p.size() - 1);
    bool attr = up && up->attrs.count(p.back());
    string where = path.generic_string();
    bool cf = f.contains_feature(path), ca = f.contains_attribute(path);
    if (cf != bool(at)) { mon().violation("contains-feature", where + " gave " + str(cf)); return false; }
    if (ca != attr) { mon().violation("contains-attribute", where + " gave " + str(ca)); return false; }
    auto g = f.feature(path);
    if (g.get() != (at ? at->f : nullptr)) { mon().violation("feature", where + " gave another feature"); return false; }
    if (at) {
        if (f.nr_features(path) != at->kids.size()) { mon().violation("nr-features", where + " has " + str(f.nr_features(path)) + " instead of " + str(at->kids.size())); return false; }
        if (f.nr_attributes(path) != at->attrs.size()) { mon().violation("nr-attributes", where + " has " + str(f.nr_attributes(path)) + " instead of " + str(at->attrs.size())); return false; }
        if (!same_names(at->f->feature_names(), at->kids)) { mon().violation("feature-names", where); return false; }
        if (!same_names(at->f->attribute_names(), at->attrs)) { mon().violation("attribute-names", where); return false; }
        if (at->f->nr_features() != at->kids.size() || at->f->nr_attributes() != at->attrs.size()) { mon().violation("counts", where); return false; }
    }
    if (attr && f.attribute(path) != up->attrs[p.back()]) { mon().violation("attribute", where + " gave another attribute"); return false; }
    mon().count(at ? "features looked up" : attr ? "attributes looked up" : "absent paths looked up");
    return true;
}
static bool judge_all(NodeP const& root, NodeP const& n, vector<string>& p, bool absolute, size_t& budget) {
    for (auto& k : n->kids) {
        if (!budget) return true;
        --budget;
        p.push_back(k.first);
        if (!judge(root, p, absolute) || !judge_all(root, k.second, p, absolute, budget)) return false;
        p.pop_back();
    }
    for (auto& a : n->attrs) { p.push_back(a.first); if (!judge(root, p, absolute)) return false; p.pop_back(); }
    return true;
}

static void trees(Rng& r, size_t id) {
    fl::Feature feature;
    NodeP root = make_shared<Node>(); root->f = &feature;
    vector<NodeP> nodes{root};
    size_t steps = 1 + r.below(40);
    string log;
    for (size_t s = 0; s < steps; ++s) {
        // From where: the root or, through a pointer, any feature below it.
        NodeP from = r.chance(75) ? root : nodes[r.below(nodes.size())];
        vector<string> p = some_path(r, from, 45);
        bool absolute = r.chance(40);
        unsigned kind = r.below(10);
        NodeP up = find(from, p, p.size() - 1);
        bool taken = up && (up->kids.count(p.back()) || up->attrs.count(p.back()));
        string what = (kind < 4 ? "feature " : kind < 7 ? "attribute " : "query ") + join(p, absolute);
        if (kind < 7 && (!up || taken)) kind = 9;
        log += " " + what;
        mon().at("tree " + str(id) + ":" + log);
        if (kind < 4) {
            NodeP child;
            if (nodes.size() > 1 && r.chance(12)) {
                NodeP old = nodes[1 + r.below(nodes.size() - 1)];
                if (!reaches(old, up)) { child = old; mon().count("features stored twice"); }
            }
            if (!child) { child = make_shared<Node>(); child->own = make_shared<fl::Feature>(); child->f = child->own.get(); nodes.push_back(child); }
            from->f->add_feature(join(p, absolute), child->own);
            up->kids[p.back()] = child;
            mon().count("features added");
            if (p.size() > 1) mon().count("features added below the first level");
        } else if (kind < 7) {
            shared_ptr<fl::Attribute> a = r.chance(50) ? shared_ptr<fl::Attribute>(make_shared<fl::ConstantAttribute<double>>(r.unit()))
                : shared_ptr<fl::Attribute>(make_shared<fl::FieldAttribute<int32_t>>());
            from->f->add_attribute(join(p, absolute), a);
            up->attrs[p.back()] = a;
            mon().count("attributes added");
        }
        if (!judge(from, p, absolute) || !judge(from, p, !absolute)) return;
    }
    for (int i = 0; i < 6; ++i) { NodeP from = nodes[r.below(nodes.size())]; if (!judge(from, some_path(r, from, 40), r.chance(50))) return; }
    vector<string> p; size_t budget = 300;
    if (!judge_all(root, root, p, r.chance(50), budget)) return;
    mon().seen(log, steps > 2);
    if (id < 2) mon().sample("tree:" + log.substr(0, 160));
}

// --- attributes --------------------------------------------------------------
template<class T> static T any_value(Rng& r) {
    if constexpr (std::is_same<T, string>::value) { string s; size_t n = r.below(12); for (size_t i = 0; i < n; ++i) s += char(' ' + r.below(94)); return s; }
    else if constexpr (std::is_floating_point<T>::value) { T v = T((r.unit() - 0.5) * std::pow(10.0, double(r.range(-30, 30)))); return v; }
    else return T(r.next());
}
template<class T> static string name_of() { if constexpr (std::is_same<T, string>::value) return "string"; else return tn<T>(); }

template<class P, size_t n> static P point(Rng& r) {
    P p; fern::set<0>(p, double(r.range(-5, 5)));
    if constexpr (n > 1) fern::set<1>(p, r.unit());
    if constexpr (n > 2) fern::set<2>(p, double(r.range(0, 1)));
    return p;
}
template<class P, size_t n> static bool eq(P const& a, P const& b) {
    if (fern::get<0>(a) != fern::get<0>(b)) return false;
    if constexpr (n > 1) if (fern::get<1>(a) != fern::get<1>(b)) return false;
    if constexpr (n > 2) if (fern::get<2>(a) != fern::get<2>(b)) return false;
    return true;
}
template<class P, size_t n> struct PointGeometry { using Domain = fl::SpatialDomain<P>; static P make(Rng& r) { return point<P, n>(r); } static bool same(P const& a, P const& b) { return eq<P, n>(a, b); } };
template<class P, size_t n> struct BoxGeometry {
    using B = fl::Box<P>; using Domain = fl::SpatialDomain<B>;
    static B make(Rng& r) { return B(point<P, n>(r), point<P, n>(r)); }
    static bool same(B const& a, B const& b) { return eq<P, n>(a.min_corner(), b.min_corner()) && eq<P, n>(a.max_corner(), b.max_corner()); }
};

template<class G, class V> static void spatial(Rng& r, string const& what) {
    using D = typename G::Domain; using Geo = typename D::Geometry;
    fl::SpatialAttribute<D, V> a;
    D d;
    std::map<size_t, std::pair<Geo, V>> model; std::map<size_t, Geo> dmodel;
    size_t steps = r.below(25);
    mon().at("spatial attribute of " + what + ", " + str(steps) + " geometries");
    if (!a.empty() || a.size() != 0 || !d.empty()) mon().violation("spatial-new", what);
    Geo g = G::make(r);
    for (size_t s = 0; s < steps; ++s) {
        if (!r.chance(20)) g = G::make(r);       // the same geometry may be added again
        V v = any_value<V>(r);
        size_t gid = a.add(g, v);
        if (model.count(gid)) { mon().violation("spatial-gid", what + ": id " + str(gid) + " given twice"); return; }
        model.emplace(gid, std::make_pair(g, v));
        size_t id = d.add(g);
        if (dmodel.count(id)) { mon().violation("domain-gid", what + ": id " + str(id) + " given twice"); return; }
        dmodel.emplace(id, g);
        if (a.empty() || a.size() != model.size() || a.values().size() != model.size() || a.values().empty() || a.domain().size() != model.size()) { mon().violation("spatial-size", what); return; }
        for (auto& m : model) if (!(vh::same<V>(a.values().value(m.first), m.second.second))) { mon().violation("spatial-value", what + ": value of geometry " + str(m.first) + " changed"); return; }
        size_t k = 0;
        for (auto& p : a.domain()) { auto it = model.find(p.first); if (it == model.end() || !G::same(it->second.first, p.second)) { mon().violation("spatial-geometry", what); return; } ++k; }
        if (k != model.size()) { mon().violation("spatial-iteration", what); return; }
        for (auto& m : dmodel) if (!G::same(d.geometry(m.first), m.second)) { mon().violation("domain-geometry", what); return; }
        k = 0; for (auto it = d.cbegin(); it != d.cend(); ++it) ++k;
        if (k != dmodel.size() || d.size() != k || d.empty()) { mon().violation("domain-size", what); return; }
        if (a.domain().cbegin()->first != a.values().cbegin()->first) { mon().violation("spatial-order", what); return; }
    }
    mon().count("geometries added", steps);
    mon().seen("spatial " + what + str(steps) + str(r.s), steps > 1);
}

struct Log : fl::AttributeVisitor {
    using fl::AttributeVisitor::Visit;
    vector<fl::Attribute const*> seen; int special = 0;
    void Visit(fl::Attribute const& a) override { seen.push_back(&a); }
    void Visit(fl::ConstantAttribute<int16_t> const&) override { ++special; }
};
static shared_ptr<fl::Attribute> an_attribute(Rng& r, fern::DataType& dt, fern::ValueType& vt, string& what) {
    bool field = r.chance(50); dt = field ? fern::DT_STATIC_FIELD : fern::DT_CONSTANT;
    switch (r.below(12)) {
#define T(i, type, v) case i: { vt = fern::v; what = string(field ? "field " : "constant ") + #v; \
        if (field) return make_shared<fl::FieldAttribute<type>>(); return make_shared<fl::ConstantAttribute<type>>(any_value<type>(r)); }
        T(0, bool, VT_BOOL) T(1, int8_t, VT_INT8) T(2, int16_t, VT_INT16) T(3, int32_t, VT_INT32) T(4, int64_t, VT_INT64) T(5, uint8_t, VT_UINT8)
        T(6, uint16_t, VT_UINT16) T(7, uint32_t, VT_UINT32) T(8, uint64_t, VT_UINT64) T(9, float, VT_FLOAT32) T(10, double, VT_FLOAT64) T(11, string, VT_STRING)
#undef T
    }
    return nullptr;
}

template<class T> static void constant(Rng& r) {
    string what = name_of<T>();
    T v = any_value<T>(r);
    mon().at("constant " + what);
    fl::ConstantAttribute<T> a(v), b;
    for (size_t i = 0, n = 1 + r.below(5); i < n; ++i) {
        if (!vh::same<T>(a.values().value(), v)) { mon().violation("constant-value", what); return; }
        v = any_value<T>(r); a.set(v); b.set(v);
        if (!vh::same<T>(b.values().value(), v)) { mon().violation("constant-set", what); return; }
    }
    if (!vh::same<T>(a.values().value(), v)) mon().violation("constant-value", what);
    mon().seen("constant " + what + str(r.s));
}

// Fields: values per box, each a masked array.
template<class T> static void field(Rng& r) {
    string what = name_of<T>();
    mon().at("field " + what);
    fl::FieldAttribute<T> a;
    size_t n = r.below(4);
    vector<vector<T>> cells; vector<vector<bool>> marks; vector<size_t> ids, cols;
    for (size_t k = 0; k < n; ++k) {
        size_t nr = 1 + r.below(5), nc = 1 + r.below(5);
        auto v = make_shared<fl::FieldValue<T>>(fern::extents[nr][nc]);
        if (v->shape()[0] != nr || v->shape()[1] != nc || v->mask().shape()[0] != nr || v->mask().shape()[1] != nc) { mon().violation("field-extent", what); return; }
        for (size_t i = 0; i < nr; ++i) for (size_t j = 0; j < nc; ++j) if (v->mask()[i][j]) { mon().violation("field-mark", what); return; }
        cells.emplace_back(); marks.emplace_back(); cols.push_back(nc);
        for (size_t i = 0; i < nr; ++i) for (size_t j = 0; j < nc; ++j) {
            T x = any_value<T>(r); bool m = r.chance(30);
            (*v)[i][j] = x; v->mask()[i][j] = m; cells[k].push_back(x); marks[k].push_back(m);
        }
        ids.push_back(a.add(BoxGeometry<fl::d2::Point, 2>::make(r), v));
    }
    for (size_t k = 0; k < n; ++k) {
        auto& v = *a.values().value(ids[k]);
        for (size_t c = 0; c < cells[k].size(); ++c) {
            size_t i = c / cols[k], j = c % cols[k];
            if (!vh::same<T>(v[i][j], cells[k][c]) || v.mask()[i][j] != marks[k][c]) { mon().violation("field-cell", what + " cell " + str(i) + "," + str(j)); return; }
        }
    }
    mon().count("fields", n);
    mon().seen("field " + what + str(r.s), n > 0);
}

static void types(Rng& r) {
    fl::AttributeTypeVisitor visitor; Log log;
    vector<shared_ptr<fl::Attribute>> all; int special = 0; vector<fl::Attribute const*> want;
    for (size_t i = 0, n = 1 + r.below(6); i < n; ++i) {
        fern::DataType dt; fern::ValueType vt; string what;
        auto a = an_attribute(r, dt, vt, what); all.push_back(a);
        mon().at("type of " + what);
        fl::Attribute const& ca = *a;
        ca.Accept(visitor);
        if (visitor.data_type() != dt || visitor.value_type() != vt) { mon().violation("attribute-type", what); return; }
        fl::AttributeArgument arg(a);
        if (arg.argument_type() != fl::ArgumentType::AT_ATTRIBUTE || arg.attribute() != a || arg.data_type() != dt || arg.value_type() != vt) { mon().violation("attribute-argument", what); return; }
        ca.Accept(log);
        if (dt == fern::DT_CONSTANT && vt == fern::VT_INT16) ++special; else want.push_back(a.get());
        if (log.special != special || log.seen != want) { mon().violation("attribute-visit", what); return; }
        mon().count("attributes visited");
        mon().seen("type " + what + str(i));
    }
    auto f = make_shared<fl::Feature>();
    fl::FeatureArgument arg(f);
    if (arg.argument_type() != fl::ArgumentType::AT_FEATURE || arg.feature() != f) mon().violation("feature-argument", "another feature or type");
}

// --- operations --------------------------------------------------------------
struct Op : fl::Operation {
    shared_ptr<fl::Feature> tag;
    Op(string const& n, string const& d, vector<fl::Parameter> const& p, vector<fl::Result> const& r) : fl::Operation(n, d, p, r) {}
    vector<shared_ptr<fl::Argument>> execute(vector<shared_ptr<fl::Argument>> const& a) const override { return a; }
};
struct ModelOp { string name, text; vector<std::array<string, 2>> ps, rs; vector<std::array<unsigned, 2>> pt, rt; };
static fern::DataTypes dts(unsigned b) { fern::DataTypes t; if (b & 1) t |= fern::DataTypes::CONSTANT; if (b & 2) t |= fern::DataTypes::STATIC_FIELD; return t; }
static fern::ValueTypes vts(unsigned b) {
    fern::ValueTypes t;
    static vector<fern::ValueTypes> const all{fern::ValueTypes::INT8, fern::ValueTypes::INT32, fern::ValueTypes::UINT64, fern::ValueTypes::FLOAT64, fern::ValueTypes::STRING};
    for (unsigned i = 0; i < all.size(); ++i) if (b >> i & 1) t |= all[i];
    return t;
}
static string text(Rng& r) { string s = a_name(r); while (r.chance(40)) s += " " + a_name(r); return s; }
static shared_ptr<Op> build(ModelOp const& m) {
    vector<fl::Parameter> p; vector<fl::Result> q;
    for (size_t i = 0; i < m.ps.size(); ++i) p.emplace_back(m.ps[i][0], m.ps[i][1], dts(m.pt[i][0]), vts(m.pt[i][1]));
    for (size_t i = 0; i < m.rs.size(); ++i) q.emplace_back(m.rs[i][0], m.rs[i][1], fern::ExpressionType(dts(m.rt[i][0]), vts(m.rt[i][1])));
    return make_shared<Op>(m.name, m.text, p, q);
}
static ModelOp a_model(Rng& r) {
    ModelOp m; m.name = a_name(r); m.text = text(r);
    for (size_t i = 0, n = r.below(4); i < n; ++i) { m.ps.push_back({text(r), text(r)}); m.pt.push_back({unsigned(1 + r.below(3)), unsigned(1 + r.below(31))}); }
    for (size_t i = 0, n = r.below(3); i < n; ++i) { m.rs.push_back({text(r), text(r)}); m.rt.push_back({unsigned(1 + r.below(3)), unsigned(1 + r.below(31))}); }
    return m;
}
static bool matches(fl::Operation const& o, ModelOp const& m, string const& how) {
    bool ok = o.name() == m.name && o.description() == m.text && o.arity() == m.ps.size() && o.parameters().size() == m.ps.size() && o.results().size() == m.rs.size();
    for (size_t i = 0; ok && i < m.ps.size(); ++i) {
        auto& p = o.parameters()[i]; auto t = p.expression_types();
        ok = p.name() == m.ps[i][0] && p.description() == m.ps[i][1] && t.size() == 1 && t[0].data_type() == dts(m.pt[i][0]) && t[0].value_type() == vts(m.pt[i][1]);
    }
    for (size_t i = 0; ok && i < m.rs.size(); ++i) {
        auto& q = o.results()[i];
        ok = q.name() == m.rs[i][0] && q.description() == m.rs[i][1] && q.expression_type().data_type() == dts(m.rt[i][0]) && q.expression_type().value_type() == vts(m.rt[i][1]);
    }
    if (!ok) mon().violation("operation-" + how, m.name + " does not report what it was made from");
    return ok;
}
static void registry(Rng& r) {
    std::map<string, ModelOp> models;
    for (size_t i = 0; i < 5; ++i) { ModelOp m = a_model(r); models[m.name] = m; }
    vector<fl::OperationPtr> ops;
    for (auto& m : models) ops.push_back(build(m.second));
    for (size_t i = ops.size(); i > 1; --i) std::swap(ops[i - 1], ops[r.below(i)]);
    std::unique_ptr<fl::Operations> o;
    mon().at("operations " + str(ops.size()));
    size_t used = std::min<size_t>(ops.size(), r.below(5));
    if (used == 0) o.reset(new fl::Operations(std::initializer_list<fl::OperationPtr>{}));
    else if (used == 1) o.reset(new fl::Operations{ops[0]});
    else if (used == 2) o.reset(new fl::Operations{ops[0], ops[1]});
    else if (used == 3) o.reset(new fl::Operations{ops[0], ops[1], ops[2]});
    else o.reset(new fl::Operations{ops[0], ops[1], ops[2], ops[3]});
    if (o->size() != used || o->empty() != (used == 0)) mon().violation("operations-size", str(o->size()) + " of " + str(used));
    for (size_t i = 0; i < ops.size(); ++i) {
        if (o->has_operation(ops[i]->name()) != (i < used)) mon().violation("operations-has", ops[i]->name());
        else if (i < used && o->operation(ops[i]->name()) != ops[i]) mon().violation("operations-lookup", ops[i]->name() + " gives another operation");
    }
    if (o->has_operation("no such operation") || o->has_operation("")) mon().violation("operations-has", "an absent operation");
    for (auto& m : models) {
        auto a = build(m.second);
        if (!matches(*a, m.second, "members")) return;
        Op copy(*a);
        if (!matches(copy, m.second, "copy")) return;
        ModelOp other = a_model(r); auto b = build(other);
        Op& alias = *b; alias = alias;
        if (!matches(*b, other, "self-assignment")) return;
        *b = *a;
        if (!matches(*b, m.second, "assignment") || !matches(*a, m.second, "assignment-source")) return;
        a.reset();
        if (!matches(*b, m.second, "assignment-after-source") || !matches(copy, m.second, "copy-after-source")) return;
        mon().count("operations judged");
        mon().seen("operation " + m.second.name + m.second.text + str(m.second.ps.size()) + str(m.second.rs.size()));
    }
}

int main(int argc, char** argv) {
    mon().init(argc, argv);
    Rng r = mon().rng("trees"), a = mon().rng("attributes"), o = mon().rng("operations");
    if (mon().want("trees")) for (size_t i = 0, n = mon().n(150, 2000); i < n; ++i) trees(r, i);
    if (mon().want("attributes")) for (size_t i = 0, n = mon().n(1000, 10000); i < n; ++i) {
        spatial<PointGeometry<fl::d1::Point, 1>, int32_t>(a, "1d points");
        spatial<PointGeometry<fl::d2::Point, 2>, double>(a, "2d points");
        spatial<PointGeometry<fl::d3::Point, 3>, string>(a, "3d points");
        spatial<BoxGeometry<fl::d2::Point, 2>, uint8_t>(a, "2d boxes");
        spatial<BoxGeometry<fl::d3::Point, 3>, float>(a, "3d boxes");
        constant<bool>(a); constant<int8_t>(a); constant<uint16_t>(a); constant<int32_t>(a); constant<uint64_t>(a); constant<float>(a); constant<double>(a); constant<string>(a);
        field<int8_t>(a); field<uint16_t>(a); field<int32_t>(a); field<uint64_t>(a); field<float>(a); field<double>(a);
        for (int k = 0; k < 8; ++k) types(a);
    }
    if (mon().want("operations")) for (size_t i = 0, n = mon().n(2000, 60000); i < n; ++i) registry(o);
    return mon().finish();
}
