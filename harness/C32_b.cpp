#define PART 1
#include "C32.cpp"
// the user's container may change or die afterwards
E(from_lvalue, ([&] { auto c = std::make_unique<std::vector<val_t>>(vec(in)); auto o = src::from_iterable<M>(*c, s); for (auto& x : *c) x = -5; c.reset(); return o; }()))
E(just_lvalue, ([&] { val_t a = in.v[0], b = in.n; auto o = src::just<M>(s, a, b); a = b = -4; return o; }()))
E(start_with, ([&] { val_t a = in.v[0]; auto o = src::just(s, val_t{in.n}) | op::start_with<M>(s, a, val_t{in.v[1]}); a = -4; return o; }()))
E(from_callable, (src::from_callable<M>([in] { return val_t{in.v[0]}; }) | op::repeat(2)))
// iteration which fails
struct Bad
{
    In in;
    struct It
    {
        using iterator_category = std::forward_iterator_tag; using value_type = int; using difference_type = std::ptrdiff_t; using pointer = const int*; using reference = const int&;
        const Bad* b; int i;
        const int& operator*() const { if (i == b->in.bad) throw Err{4}; return b->in.v[i]; }
        It& operator++() { ++i; return *this; }
        It operator++(int) { auto c = *this; ++i; return c; }
        bool operator==(const It& o) const { return i == o.i; }
    };
    It begin() const { if (in.bad == in.n && in.n > 0) throw Err{5}; return {this, 0}; }
    It end() const { return {this, in.n}; }
};
extern "C" void H_throwing() { sym_want("values"); all([]<class M>(const auto& s, const In& in) { return src::from_iterable<M>(Bad{in}, s); }, true); }
