// Stand-in for mppp::type_name().
#pragma once
#include <string>
#include <typeinfo>
namespace mppp
{
template <typename T>
inline std::string type_name()
{
#if defined(SX_SYMBOLIC)
    return std::string();
#else
    return typeid(T).name();
#endif
}
} // namespace mppp
