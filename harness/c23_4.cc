#define PART 4
#include "../harness/c23.hh"
