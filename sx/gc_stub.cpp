// Plain allocation in place of the garbage collector
#include <minizinc/gc.hh>
#include <cstdlib>
#include <cstring>
namespace MiniZinc {
void* GC::alloc(size_t size) {
  void* p = malloc(size);
  memset(p, 0, size);
  return p;
}
ASTVec::ASTVec(size_t size) : ASTNode(NID_VEC), _size(size) {}
ASTChunk::ASTChunk(size_t size, unsigned int id) : ASTNode(id), _size(size) {}
GCLock::GCLock() {}
GCLock::~GCLock() {}
void GC::lock() {}
void GC::lockNoGC() {}
void GC::unlock() {}
void GC::add(GCMarker*) {}
void GC::remove(GCMarker*) {}
bool GC::locked() { return true; }
}  // namespace MiniZinc
