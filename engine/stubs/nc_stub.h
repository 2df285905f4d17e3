// In-memory replacement of the netCDF calls used for writing.
#ifndef NC_STUB_H
#define NC_STUB_H
#include <map>
#include <string>
#include <vector>
struct NcMemVar {
  std::string name; int type; std::vector<int> dims;
  std::map<std::vector<size_t>, double> val;   // written values by index
  std::map<std::vector<size_t>, int> writes;   // how often each was written
  std::map<std::string, std::string> att;
};
struct NcMemFile {
  std::string path; bool open;
  std::vector<std::string> dimName; std::vector<size_t> dimLen; std::vector<bool> unlimited;
  std::vector<NcMemVar> var;
  std::map<std::string, std::string> att;
  const NcMemVar *find(const std::string &n) const { for (auto &v : var) if (v.name == n) return &v; return 0; }
};
extern std::vector<NcMemFile> nc_files;
#endif
