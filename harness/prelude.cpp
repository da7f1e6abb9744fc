// Handlers used by every harness: assertion handler of Boost, deterministic std::random_device, no core files.
#include <boost/assert.hpp>
#include <random>
namespace boost
{
void assertion_failed(char const * expr, char const *, char const * file, long line)
{
  ::pbt::assertFailed("library", expr, file, line);
}
void assertion_failed_msg(char const * expr, char const * msg, char const *, char const * file, long line)
{
  ::pbt::assertFailed("library", (std::string(expr) + " (" + (msg ? msg : "") + ")").c_str(), file, line);
}
} // namespace boost
namespace pbt
{
unsigned randomDeviceValue = 5489u;
}
std::random_device::result_type std::random_device::_M_getval()
{
  return pbt::randomDeviceValue;
}
