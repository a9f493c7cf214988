#define PART 0
#include "../harness/c23.hh"
