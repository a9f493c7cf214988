#define PART 5
#include "../harness/c23.hh"
