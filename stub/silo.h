// Stand-in for the Silo library: records what the SPH example dumps.
#ifndef VF_SILO_H
#define VF_SILO_H
#include <cstdio>
#include <vector>
struct DBfile { int cycle; };
enum { DB_CLOBBER, DB_LOCAL, DB_HDF5, DB_FLOAT };
namespace silo {
struct dump { int cycle; std::vector<float> x, y; };
struct stop {};
struct recorder { std::vector<dump> dumps; std::size_t limit; int open; };
inline recorder& rec() { static recorder r = {{}, 1, 0}; return r; }
}
inline DBfile* DBCreate(const char* name, int, int, const char*, int) { DBfile* f = new DBfile; f->cycle = -1; std::sscanf(name, "output%d.silo", &f->cycle); ++silo::rec().open; return f; }
inline int DBPutPointmesh(DBfile* f, const char*, int dims, float* c[], int n, int, void*) { silo::dump d; d.cycle = f->cycle; if (dims == 2) { d.x.assign(c[0], c[0] + n); d.y.assign(c[1], c[1] + n); } silo::rec().dumps.push_back(d); return 0; }
inline int DBClose(DBfile* f) { delete f; --silo::rec().open; if (silo::rec().dumps.size() >= silo::rec().limit) throw silo::stop(); return 0; }
#endif
