#define PART 1
#include "../harness/c23.hh"
