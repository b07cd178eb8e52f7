// clang instantiates only the members defined before an explicit instantiation: repeat the one of
// arki/stream/abstract.cc after its definitions (g++ instantiates at the end of the translation unit)
#include "arki/stream/abstract.h"
#include "arki/stream/abstract.tcc"
namespace arki {
namespace stream {
template class AbstractStreamOutput<LinuxBackend>;
template class AbstractStreamOutput<TestingBackend>;
}
}
