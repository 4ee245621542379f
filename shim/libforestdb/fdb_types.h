// Part of the ForestDB stand-in used by the verification harness.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
