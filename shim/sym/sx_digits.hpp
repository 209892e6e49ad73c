// The decimal form of an integer: for numbers of up to 3 digits, without divisions (which are costly for the solver).
#pragma once
#include <string>
inline std::string sx_digits(__int128 n)
{
    std::string r;
    if (n < 0) {
        r += '-';
        n = -n;
    }
    if (n >= 1000) {
        std::string s;
        while (n) {
            s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(n % 10)));
            n /= 10;
        }
        return r + s;
    }
    auto v = static_cast<unsigned short>(n);
    const bool h = v >= 100u, t = v >= 10u;
    const auto digit = [&v](unsigned unit) {
        unsigned d = 0;
        for (unsigned k = 1; k < 10u; ++k) {
            d += static_cast<unsigned>(v >= k * unit);
        }
        v = static_cast<unsigned short>(v - d * unit);
        return static_cast<char>('0' + d);
    };
    if (h) {
        r += digit(100);
    }
    if (t) {
        r += digit(10);
    }
    r += static_cast<char>('0' + v);
    return r;
}
