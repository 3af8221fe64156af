// Stand-in for GMLC-TDC/utilities (submodule not available offline).
#pragma once
#include "string_viewConversion.h"
