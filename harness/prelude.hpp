// Force-included before everything else (library sources and harnesses): assertions of Eigen and of the library become
// exceptions, so that a broken precondition inside the library is an observable failure of the generated case.
#pragma once
#include <stdexcept>
#include <string>
namespace pbt
{
struct AssertionFailure : std::runtime_error
{
  explicit AssertionFailure(const std::string & s) : std::runtime_error(s) {}
};
[[noreturn]] inline void assertFailed(const char * kind, const char * e, const char * f, long l)
{
  throw AssertionFailure(std::string(kind) + " assertion failed: " + e + " at " + f + ":" + std::to_string(l));
}
} // namespace pbt
#undef eigen_assert
#define eigen_assert(x) \
  do                    \
  {                     \
    if(!(x)) ::pbt::assertFailed("Eigen", #x, __FILE__, __LINE__); \
  } while(false)
