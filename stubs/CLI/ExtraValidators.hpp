// CLI11 2.4.1 (installed) declares in Validators.hpp what CLI11 >= 2.6 moved to this header.
#pragma once
#include <CLI/App.hpp>
#include <CLI/Validators.hpp>
