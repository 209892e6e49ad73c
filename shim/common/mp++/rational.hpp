// Stand-in for mppp::rational: a normalised pair of stand-in integers.
#pragma once
#include <mp++/integer.hpp>
#include <stdexcept>

namespace mppp
{
struct zero_division_error : std::domain_error {
    using std::domain_error::domain_error;
};

template <std::size_t SSize>
class rational
{
public:
    using int_t = integer<SSize>;

private:
    int_t num, den{1};
    void canonicalise()
    {
        if (den.v < 0) {
            num.v = -num.v;
            den.v = -den.v;
        }
        __int128 a = num.v < 0 ? -num.v : num.v, b = den.v;
        while (b != 0) {
            const auto t = a % b;
            a = b;
            b = t;
        }
        if (a > 1) {
            num.v /= a;
            den.v /= a;
        }
        if (num.v == 0) {
            den.v = 1;
        }
    }

public:
    rational() = default;
    rational(const int_t &n) : num(n) {}
    template <typename T, std::enable_if_t<detail::is_int_v<T>, int> = 0>
    rational(const T &n) : num(n)
    {
    }
    template <typename T, typename U>
    rational(const T &n, const U &d) : num(n), den(d)
    {
        if (den.is_zero()) {
            throw zero_division_error("zero denominator");
        }
        canonicalise();
    }
    const int_t &get_num() const { return num; }
    const int_t &get_den() const { return den; }
    bool is_zero() const { return num.is_zero(); }
    bool is_one() const { return num.is_one() && den.is_one(); }
    int sgn() const { return num.sgn(); }
    rational &neg()
    {
        num.neg();
        return *this;
    }
    rational operator-() const
    {
        rational r(*this);
        r.neg();
        return r;
    }
    friend rational operator+(const rational &a, const rational &b) { return rational(a.num * b.den + b.num * a.den, a.den * b.den); }
    friend rational operator-(const rational &a, const rational &b) { return rational(a.num * b.den - b.num * a.den, a.den * b.den); }
    friend rational operator*(const rational &a, const rational &b) { return rational(a.num * b.num, a.den * b.den); }
    friend rational operator/(const rational &a, const rational &b) { return rational(a.num * b.den, a.den * b.num); }
    rational &operator+=(const rational &o) { return *this = *this + o; }
    rational &operator-=(const rational &o) { return *this = *this - o; }
    rational &operator*=(const rational &o) { return *this = *this * o; }
    rational &operator/=(const rational &o) { return *this = *this / o; }
    friend bool operator==(const rational &a, const rational &b) { return a.num == b.num && a.den == b.den; }
    friend bool operator!=(const rational &a, const rational &b) { return !(a == b); }
    friend bool operator<(const rational &a, const rational &b) { return a.num * b.den < b.num * a.den; }
    friend bool operator>(const rational &a, const rational &b) { return b < a; }
    explicit operator double() const { return static_cast<double>(num) / static_cast<double>(den); }
    template <typename T, std::enable_if_t<detail::is_int_v<T> && !std::is_same_v<T, bool>, int> = 0>
    explicit operator T() const
    {
        return static_cast<T>(int_t(num / den));
    }
    std::string to_string() const { return den.is_one() ? num.to_string() : num.to_string() + "/" + den.to_string(); }
};
template <std::size_t SSize>
inline std::ostream &operator<<(std::ostream &os, const rational<SSize> &q)
{
    return os << q.to_string();
}
template <std::size_t SSize>
inline bool is_zero(const rational<SSize> &q)
{
    return q.is_zero();
}
} // namespace mppp
