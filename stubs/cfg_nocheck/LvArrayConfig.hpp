// LvArrayConfig.hpp as CMake would write it (no optional component).
#pragma once
#define LVARRAY_VERSION_MAJOR 0
#define LVARRAY_VERSION_MINOR 2
#define LVARRAY_VERSION_PATCHLEVEL 1

#define LVARRAY_ADDR2LINE_EXEC /usr/bin/addr2line
