// Simulated pluginlib: classes come from the simulated world, which may make any step fail.
#pragma once
#include "../simros.h"
#include "exceptions.hpp"
namespace simros
{
struct LoaderHandle;  // identity of one class loader instance
LoaderHandle* loader_open(const std::string& package, const std::string& base_class);
void loader_close(LoaderHandle* h);
std::vector<std::string> loader_classes(LoaderHandle* h);
// Returns a heap object created by the registered factory, or throws (library or class creation failures).
void* loader_create(LoaderHandle* h, const std::string& cls);
void loader_instance_deleted(LoaderHandle* h);
}
namespace pluginlib
{
template <class T>
class ClassLoader
{
public:
  typedef typename std::unique_ptr<T, std::function<void(T*)>> UniquePtr;
  ClassLoader(std::string package, std::string base_class, std::string /*attrib*/ = std::string("plugin"), std::vector<std::string> /*xml*/ = std::vector<std::string>())
    : base_(base_class), h_(simros::loader_open(package, base_class)) {}
  ~ClassLoader() { simros::loader_close(h_); }
  ClassLoader(const ClassLoader&) = delete;
  ClassLoader& operator=(const ClassLoader&) = delete;
  UniquePtr createUniqueInstance(const std::string& n)
  {
    T* t = static_cast<T*>(simros::loader_create(h_, n));
    simros::LoaderHandle* h = h_;
    return UniquePtr(t, [h](T* p) { delete p; simros::loader_instance_deleted(h); });
  }
  std::shared_ptr<T> createSharedInstance(const std::string& n) { return std::shared_ptr<T>(createUniqueInstance(n)); }
  std::shared_ptr<T> createInstance(const std::string& n) { return createSharedInstance(n); }
  T* createUnmanagedInstance(const std::string& n) { return static_cast<T*>(simros::loader_create(h_, n)); }
  std::vector<std::string> getDeclaredClasses() { return simros::loader_classes(h_); }
  bool isClassAvailable(const std::string& n) { auto v = simros::loader_classes(h_); return std::find(v.begin(), v.end(), n) != v.end(); }
  bool isClassLoaded(const std::string&) { return true; }
  void loadLibraryForClass(const std::string&) {}
  int unloadLibraryForClass(const std::string&) { return 0; }
  void refreshDeclaredClasses() {}
  std::string getBaseClassType() const { return base_; }
  std::string getName(const std::string& n) { return n; }
  std::string getClassDescription(const std::string& n) { return n; }
  std::string getClassType(const std::string& n) { return n; }
  std::string getClassPackage(const std::string& n) { return n; }
  std::vector<std::string> getRegisteredLibraries() { return std::vector<std::string>(); }

private:
  std::string base_;
  simros::LoaderHandle* h_;
};
}
