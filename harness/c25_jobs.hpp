#pragma once
#include <string>
// Everything of the library that threads may do at the same time, each with objects of its own (jobs 0..), or on one asset which
// nobody modifies (the jobs whose name begins with "shared"). Returns a description of everything the job observed.
namespace jobs {
int count();
const char* name(int job);
bool heavy(int job);
void prepare(const char* const (&documents)[3]); // before the threads exist; does not call the library's loader or exporter
std::string run(int job, int thread, const std::string& dir);
}
