// Simulated disk and processes.
#pragma once
#include "rt.h"
namespace sim { namespace fs {
typedef std::vector<uint8_t> Bytes;
void put(const std::string &path, const Bytes &data);
void replace(const std::string &path, const Bytes &data); // a new file takes the name, as a rename over it does
bool get(const std::string &path, Bytes &out);
bool exists(const std::string &path);
void mkdirs(const std::string &path);
void setWritable(const std::string &path, bool w);   // directory: may entries be created
void setReadable(const std::string &path, bool r);
void rm(const std::string &path);
std::vector<std::string> list(const std::string &dir); // names of plain files
std::vector<std::string> listAll();                    // every file path in the disk
bool streamOpen(FILE *f);
int openCount(int proc = -1);                          // open streams, of files and directories
int openCountOf(const std::string &path);
void setCapacity(int64_t bytes);                       // -1 unlimited
void setCwd(int proc, const std::string &path);
void setFdLimit(int n);
uint64_t openSince(uint64_t ino);                      // earliest opening among the streams open on it, or -1
uint64_t inodeOf(const std::string &path);
extern void (*onOpen)(int proc, const std::string &path, bool write);
extern void (*onRemove)(int proc, const std::string &path, bool inUse, uint64_t ino);
uint32_t umaskOf(int proc);                             // file mode creation mask of a process
void setUmask(int proc, uint32_t mask);
uint32_t modeOf(const std::string &path);              // permission bits
void setMode(const std::string &path, uint32_t mode);
uint64_t bytesRead();
std::string norm(int proc, const std::string &path);
} }
