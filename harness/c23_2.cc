#define PART 2
#include "../harness/c23.hh"
