// Stand-in for Elements (not available offline): just the API surface /repo uses.
#pragma once
namespace Elements {
enum class ExitCode : int { OK = 0, NOT_OK = 1, USAGE = 64, DATAERR = 65, NOINPUT = 66, UNAVAILABLE = 69, SOFTWARE = 70,
                            OSERR = 71, CANTCREAT = 73, IOERR = 74, CONFIG = 78 };
using ExitCodeType = int;
}
