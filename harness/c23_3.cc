#define PART 3
#include "../harness/c23.hh"
