#pragma once
#include <seasocks/all_stubs.h>
