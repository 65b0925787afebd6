// The main function of the command, under another name.
#define main fern_main
#include "fern/language/command/fern.cc"
