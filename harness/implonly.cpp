// the only source file with the special header
#include <uncertainties/impl.hpp>
