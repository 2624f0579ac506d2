#include "settings/Settings.h"
namespace ref { int f(int a) { return a; } }
