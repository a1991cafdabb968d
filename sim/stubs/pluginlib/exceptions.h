#pragma once
#include <stdexcept>
#include <string>
namespace pluginlib
{
class PluginlibException : public std::runtime_error { public: PluginlibException(const std::string& s) : std::runtime_error(s) {} };
class LibraryLoadException : public PluginlibException { public: LibraryLoadException(const std::string& s) : PluginlibException(s) {} };
class CreateClassException : public PluginlibException { public: CreateClassException(const std::string& s) : PluginlibException(s) {} };
class ClassLoaderException : public PluginlibException { public: ClassLoaderException(const std::string& s) : PluginlibException(s) {} };
class LibraryUnloadException : public PluginlibException { public: LibraryUnloadException(const std::string& s) : PluginlibException(s) {} };
class InvalidXMLException : public PluginlibException { public: InvalidXMLException(const std::string& s) : PluginlibException(s) {} };
}
