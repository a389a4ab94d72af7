#include "pool_common.h"
int main(int argc, char** argv) { return mcx::run_main(argc, argv, "C03", pool::scenarios()); }
