// Driver: the command line tool as it is.
#include <tools/nudb.cpp>
