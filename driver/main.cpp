#include "common.h"
int main(int argc, char **argv) { return driver_main(argc, argv); }
