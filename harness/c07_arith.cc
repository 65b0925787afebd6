// C07: exact-arithmetic monitor. OP selects the operation (see specs.py).
#include "fa.h"
#include "fern/algorithm/algebra/elementary/add.h"
#include "fern/algorithm/algebra/elementary/subtract.h"
#include "fern/algorithm/algebra/elementary/multiply.h"
#include "fern/algorithm/algebra/elementary/divide.h"
using namespace vh;

#define ADD 1
#define SUBTRACT 2
#define MULTIPLY 3
#define DIVIDE 4
#if OP == ADD
#define NAME "add"
#define CALL(...) fa::algebra::add<fa::add::OutOfRangePolicy>(__VA_ARGS__)
#define PLAIN(...) fa::algebra::add(__VA_ARGS__)
template<class A, class B> using RT = fa::add::result_value_type<A, B>;
#elif OP == SUBTRACT
#define NAME "subtract"
#define CALL(...) fa::algebra::subtract<fa::subtract::OutOfRangePolicy>(__VA_ARGS__)
#define PLAIN(...) fa::algebra::subtract(__VA_ARGS__)
template<class A, class B> using RT = fa::subtract::result_value_type<A, B>;
#elif OP == MULTIPLY
#define NAME "multiply"
#define CALL(...) fa::algebra::multiply<fa::multiply::OutOfRangePolicy>(__VA_ARGS__)
#define PLAIN(...) fa::algebra::multiply(__VA_ARGS__)
template<class A, class B> using RT = fa::multiply::result_value_type<A, B>;
#else
#define NAME "divide"
#define CALL(...) fa::algebra::divide<fa::divide::OutOfDomainPolicy, fa::divide::OutOfRangePolicy>(__VA_ARGS__)
#define PLAIN(...) fa::algebra::divide(__VA_ARGS__)
template<class A, class B> using RT = fa::divide::result_value_type<A, B>;
#endif

// Exact verdict: valid? and if so which value.
template<class R, class A, class B> bool exact(A a, B b, R& r)
{
    if constexpr(std::is_floating_point<R>::value) {
        R x = R(a), y = R(b);
#if OP == ADD
        r = x + y;
#elif OP == SUBTRACT
        r = x - y;
#elif OP == MULTIPLY
        r = x * y;
#else
        if(b == B(0)) return false;
        r = x / y;
#endif
        return std::isfinite(r);
    } else {
        i128 x = a, y = b, v;
        i128 lo = std::numeric_limits<R>::min(), hi = std::numeric_limits<R>::max();
#if OP == ADD
        v = x + y;
#elif OP == SUBTRACT
        v = x - y;
#elif OP == MULTIPLY
        if(x >= 0 && y >= 0 && x != 0 && y > hi / x) return false;
        v = x * y;
#else
        if(y == 0) return false;
        v = x / y;
#endif
        if(v < lo || v > hi) return false;
        r = R(v);
        return true;
    }
}

template<class R, class T> T fit(T v)
{ // operands are representable in the result type (see property)
    if constexpr(std::is_integral<T>::value && std::is_integral<R>::value)
        if(i128(v) > i128(std::numeric_limits<R>::max())) return T(v >> 1);
    return v;
}
template<class T> T clampto(i128 v)
{
    i128 lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
    return T(v < lo ? lo : v > hi ? hi : v);
}

template<class R, class A, class B> void operands(Rng& r, A& a, B& b)
{
    a = fit<R>(value<A>(r));
    b = fit<R>(value<B>(r));
    if(r.chance(10)) b = B(0);
    if constexpr(std::is_integral<A>::value && std::is_integral<B>::value) {
        if(r.chance(45)) { // steer the exact result to the edges of R
            i128 t = r.chance(50) ? i128(std::numeric_limits<R>::max()) : i128(std::numeric_limits<R>::min());
            t += r.range(-2, 2);
            i128 w;
#if OP == ADD
            w = t - i128(a);
#elif OP == SUBTRACT
            w = i128(a) - t;
#elif OP == MULTIPLY
            w = a ? t / i128(a) + r.range(-1, 1) : 0;
#else
            w = r.chance(50) ? -1 : 1; if(r.chance(60)) a = fit<R>(r.chance(50) ? std::numeric_limits<A>::min() : std::numeric_limits<A>::max());
#endif
            b = fit<R>(clampto<B>(w));
        }
    } else {
        using F = R;
        if(r.chance(30)) { // near the overflow threshold / special values
            switch(r.below(6)) {
            case 0: if constexpr(std::is_floating_point<A>::value) a = A(std::sqrt(std::numeric_limits<A>::max()) * (0.5 + r.unit())); if constexpr(std::is_floating_point<B>::value) b = B(std::sqrt(std::numeric_limits<B>::max()) * (0.5 + r.unit())); break;
            case 1: if constexpr(std::is_floating_point<A>::value) a = std::numeric_limits<A>::infinity(); break;
            case 2: if constexpr(std::is_floating_point<B>::value) b = -std::numeric_limits<B>::infinity(); break;
            case 3: if constexpr(std::is_floating_point<A>::value) a = std::numeric_limits<A>::quiet_NaN(); break;
            case 4: if constexpr(std::is_floating_point<B>::value) b = std::numeric_limits<B>::quiet_NaN(); break;
            default: if constexpr(std::is_floating_point<A>::value) a = std::numeric_limits<A>::max(); if constexpr(std::is_floating_point<B>::value) b = std::numeric_limits<B>::denorm_min(); break;
            }
        }
        // the same number in both types: exact cancellation
        if(r.chance(5)) { if constexpr(std::is_floating_point<A>::value && std::is_floating_point<B>::value) { if(std::isfinite(a) && std::fabs((double)a) < 1e30) b = B(a); } }
    }
    a = fit<R>(a); b = fit<R>(b);
}

template<class A, class B> void judge(char const* shape, std::vector<A> const& a, std::vector<B> const& b,
    RT<A, B> const* r, bool const* m, size_t n, bool s1, bool s2)
{
    using R = RT<A, B>;
    for(size_t i = 0; i < n; ++i) {
        A x = a[s1 ? 0 : i]; B y = b[s2 ? 0 : i];
        R want{};
        bool ok = exact<R>(x, y, want);
        auto show = [&]() { return str(x) + " op " + str(y) + ": got " + (m[i] ? "no-data" : str(r[i])) + " want " + (ok ? str(want) : "no-data"); };
        std::string key = std::string(NAME) + ":" + tn<A>() + "," + tn<B>() + ":" + shape;
        if(m[i] == ok) mon().violation(key + (ok ? ":rejected" : ":accepted"), show());
        else if(ok && !same(r[i], want)) mon().violation(key + ":value", show());
        mon().seen(fnv(std::string(NAME) + tn<A>() + tn<B>() + shape + str(x) + "/" + str(y)));
        mon().count(ok ? "valid results" : "marked results");
    }
}

// pairs that are also run on two dimensional arguments and without policies
template<class A, class B, class X, class Y> constexpr bool is2 = std::is_same<A, X>::value && std::is_same<B, Y>::value;
template<class A, class B> constexpr bool twod = is2<A, B, uint8_t, int16_t> || is2<A, B, int32_t, float> || is2<A, B, double, uint8_t> ||
    is2<A, B, int64_t, int64_t> || is2<A, B, float, float> || is2<A, B, int32_t, uint32_t> || is2<A, B, int8_t, int8_t>;

template<class A, class B> void pair(Rng& rng)
{
    using R = RT<A, B>;
    fa::SequentialExecutionPolicy seq;
    size_t const n = mon().n(160, 1200);
    std::vector<A> a(n), b_dummy;
    std::vector<B> b(n);
    for(size_t i = 0; i < n; ++i) { A x; B y; operands<R>(rng, x, y); a[i] = x; b[i] = y; }
    using In = fa::InputNoDataPolicies<SkipNoData, SkipNoData>;
    std::string what = std::string(NAME) + " " + tn<A>() + "," + tn<B>();
    {
        mon().at(what + " 1d,1d");
        fern::Array<R, 1> r(extents[n]); Mask<1> m(extents[n]);
        MarkM<1> mark(m);
        CALL(In{{}, {}}, mark, seq, a, b, r);
        judge("1d_1d", a, b, r.data(), m.data(), n, false, false);
    }
    size_t const k = mon().n(8, 30), w = 24;
    for(size_t q = 0; q < k; ++q) {
        std::vector<A> as(w); std::vector<B> bs(w);
        for(size_t i = 0; i < w; ++i) { operands<R>(rng, as[i], bs[i]); }
        {
            mon().at(what + " 0d,1d " + str(as[0]));
            fern::Array<R, 1> r(extents[w]); Mask<1> m(extents[w]); MarkM<1> mark(m);
            A const c = as[0];
            CALL(In{{}, {}}, mark, seq, c, bs, r);
            judge("0d_1d", as, bs, r.data(), m.data(), w, true, false);
        }
        {
            mon().at(what + " 1d,0d " + str(bs[0]));
            fern::Array<R, 1> r(extents[w]); Mask<1> m(extents[w]); MarkM<1> mark(m);
            B const c = bs[0];
            CALL(In{{}, {}}, mark, seq, as, c, r);
            judge("1d_0d", as, bs, r.data(), m.data(), w, false, true);
        }
        {
            mon().at(what + " 0d,0d");
            for(size_t i = 0; i < 4; ++i) {
                R r{}; bool m = false; Mark0 mark(m, true);
                A const c = as[i]; B const d = bs[i];
                CALL(In{{}, {}}, mark, seq, c, d, r);
                std::vector<A> ca{c}; std::vector<B> cb{d};
                judge("0d_0d", ca, cb, &r, &m, 1, true, true);
            }
        }
    }
    if constexpr(twod<A, B>) {
    for(size_t q = 0; q < mon().n(4, 20); ++q) {
        size_t rows = 1 + rng.below(6), cols = 1 + rng.below(6);
        if(rng.chance(2)) (rng.chance(50) ? rows : cols) += 100 + rng.below(300);
        size_t const c = rows * cols;
        std::vector<A> as(c); std::vector<B> bs(c);
        for(size_t i = 0; i < c; ++i) operands<R>(rng, as[i], bs[i]);
        fern::Array<A, 2> fa_(extents[rows][cols]); fern::Array<B, 2> fb(extents[rows][cols]);
        std::copy(as.begin(), as.end(), fa_.data()); std::copy(bs.begin(), bs.end(), fb.data());
        mon().at(what + " 2d");
        { fern::Array<R, 2> r(extents[rows][cols]); Mask<2> m(extents[rows][cols]); MarkM<2> mark(m);
          CALL(In{{}, {}}, mark, seq, fa_, fb, r); judge("2d_2d", as, bs, r.data(), m.data(), c, false, false); }
        { fern::Array<R, 2> r(extents[rows][cols]); Mask<2> m(extents[rows][cols]); MarkM<2> mark(m); A const s = as[0];
          CALL(In{{}, {}}, mark, seq, s, fb, r); judge("0d_2d", as, bs, r.data(), m.data(), c, true, false); }
        { fern::Array<R, 2> r(extents[rows][cols]); Mask<2> m(extents[rows][cols]); MarkM<2> mark(m); B const s = bs[0];
          CALL(In{{}, {}}, mark, seq, fa_, s, r); judge("2d_0d", as, bs, r.data(), m.data(), c, false, true); }
    }
    { // without policies: valid results are the same
        std::vector<R> r(n);
        std::vector<A> a2 = a; std::vector<B> b2 = b;
        for(size_t i = 0; i < n; ++i) { R x; while(!exact<R>(a2[i], b2[i], x)) { operands<R>(rng, a2[i], b2[i]); } }
        mon().at(what + " plain");
        PLAIN(seq, a2, b2, r);
        std::vector<char> none(n, 0);
        judge("plain", a2, b2, r.data(), reinterpret_cast<bool const*>(none.data()), n, false, false);
    }
    }
}

int main(int argc, char** argv)
{
    mon().init(argc, argv);
    Rng r = mon().rng(NAME);
    for(size_t k = 0; k < mon().n(1, 20); ++k)
        each(AllTypes{}, [&](auto* pa) {
            each(AllTypes{}, [&](auto* pb) {
                pair<std::remove_pointer_t<decltype(pa)>, std::remove_pointer_t<decltype(pb)>>(r);
            });
        });
    mon().sample(std::string(NAME) + " over all pairs of ten value types; e.g. " + mon().where());
    return mon().finish();
}
