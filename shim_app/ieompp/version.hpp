// Stand-in for the generated header (tools/configure.py); used only if /repo does not hold one.
#ifndef IEOMPP_VERSION_HPP_
#define IEOMPP_VERSION_HPP_
namespace ieompp
{
    constexpr auto version = "0.0.0-unknown";
}
#endif
