#pragma once
#include <string>
#include <vector>
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureal2.hpp>
std::vector<std::pair<std::string, uncertainties::Id>> &early_ids();
void other_tu_statics(std::vector<std::pair<std::string, uncertainties::Id>> &);
uncertainties::udouble other_tu_make(double n, double s);
uncertainties::udouble2m other_tu_make2(double n, double s);
