// Makes calls into the HDF5 and SDDS libraries fail. Every call made by the code under test passes through here (linker
// option --wrap for all functions in wraplist.h); calls of the libraries among themselves and of the harness do not count.
#pragma once
#include <string>
#include <vector>
namespace fault {
enum Mode{ NONE, SKIP /* not executed, reports failure */, AFTER /* executed, reports failure */, FROM /* this and all later calls fail unexecuted */ };
void arm(std::vector<int> at,Mode m); // number the calls from 0, let those in `at` fail
void disarm();
long calls();                         // calls made since arm()
std::string name(long i);             // function called in i-th call (shared with forked children)
long hits();                          // failures delivered
}
