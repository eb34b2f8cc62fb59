#pragma once
#include <cstdint>
#include <string>
void NamesReset();
void NameGiven(uint64_t x);
std::string NameOf(uint64_t x);
const char* Keep_(const std::string& s);
