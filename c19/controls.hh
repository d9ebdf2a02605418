// Small programs with known behaviour for the explorer itself.
#pragma once
#include <string>
namespace ctl {
const int kCount = 13;
extern const char* const kName[kCount];
extern const char* const kExpect[kCount];   // "" for a correct program, otherwise what has to be found: race, result, deadlock
std::string Run(int program, int thread);
}
