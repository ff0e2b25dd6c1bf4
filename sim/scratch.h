// A scratch directory for worlds that touch real files; removed when the process ends normally (and by check.py).
#pragma once
#include <string>
namespace sim { const std::string &scratch_dir(); void scratch_clean(); }
