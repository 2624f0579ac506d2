#pragma once
#include <cura-formulae-engine/eval.h>
