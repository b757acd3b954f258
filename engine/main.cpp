#include "pbt.hpp"
int main(int argc, char** argv) { return pbt::main_(argc, argv); }
