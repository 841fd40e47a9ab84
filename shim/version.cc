#include "version.h"

char const * dcp::version = "devel";
char const * dcp::git_commit = "none";
bool const dcp::built_with_debug = true;
