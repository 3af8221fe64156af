// Stand-in for GMLC-TDC/utilities (submodule not available offline).
#pragma once
#include <cstdlib>
#include <cxxabi.h>
#include <string>
#include <typeinfo>

namespace gmlc {
inline std::string demangle(const char* name)
{
    int status = -4;
    char* res = abi::__cxa_demangle(name, nullptr, nullptr, &status);
    std::string ret = (status == 0) ? std::string(res) : std::string(name);
    std::free(res);
    return ret;
}
template<class T>
std::string demangle(const T& t)
{
    return demangle(typeid(t).name());
}
}  // namespace gmlc
