// Reads behaviours printed by TLC (PrintT(ToJson(..))), for the replay harnesses.
#ifndef VERIF_TRACE_H
#define VERIF_TRACE_H
#include <string>
#include <vector>
#include <fstream>
#include <iostream>
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include <functional>
#include <stdexcept>
#include <fcntl.h>
#include <unistd.h>

namespace vt {

// What to look at besides the replies (option -m).
inline std::string& watched() { static std::string s; return s; }
inline bool watch(char c) { return watched().find(c) != std::string::npos; }

struct J {
   enum T {INT, STR, ARR, OBJ, BOOL} t{INT};
   long i{0};
   std::string s;
   std::vector<J> a;
   std::vector<std::string> keys;

   const J& operator[](int n) const { return (*this)[(size_t) n]; }
   const J& operator[](long n) const { return (*this)[(size_t) n]; }
   const J& operator[](size_t n) const { if(n >= a.size()) throw std::logic_error("bad trace: index"); return a[n]; }
   const J& at(const char* k) const {
      for(size_t n = 0; n < keys.size(); ++n) if(keys[n] == k) return a[n];
      throw std::logic_error(std::string("bad trace: no ") + k);
   }
   bool has(const char* k) const { for(const auto& x: keys) if(x == k) return true; return false; }
   size_t size() const { return a.size(); }
   long num() const { return i; }
};

class Parser {
   const char* p; const char* e;
   void ws() { while(p < e && (*p == ' ' || *p == '\n')) ++p; }
public:
   Parser(const std::string& s): p(s.data()), e(s.data() + s.size()) {}
   J parse() {
      J v; ws();
      if(p >= e) throw std::logic_error("bad trace: end");
      if(*p == '[' || *p == '{') {
         bool obj = *p == '{';
         char close = obj ? '}' : ']';
         v.t = obj ? J::OBJ : J::ARR; ++p; ws();
         while(p < e && *p != close) {
            if(obj) { J k = parse(); v.keys.push_back(k.s); ws(); ++p; }
            v.a.push_back(parse()); ws();
            if(p < e && *p == ',') ++p;
            ws();
         }
         ++p;
      }
      else if(*p == '"') {
         v.t = J::STR; ++p;
         while(p < e && *p != '"') {
            if(*p == '\\') {
               ++p;
               switch(*p) { case 'n': v.s += '\n'; break; case 't': v.s += '\t'; break; case 'r': v.s += '\r'; break; case 'f': v.s += '\f'; break; case 'b': v.s += '\b'; break; default: v.s += *p; }
               ++p;
            }
            else v.s += *p++;
         }
         ++p;
      }
      else if(*p == 't') { v.t = J::BOOL; v.i = 1; p += 4; }
      else if(*p == 'f') { v.t = J::BOOL; v.i = 0; p += 5; }
      else { char* q; v.i = strtol(p, &q, 10); if(q == p) throw std::logic_error("bad trace: char"); p = q; }
      return v;
   }
};

struct Mismatch: std::runtime_error { using std::runtime_error::runtime_error; };

[[noreturn]] inline void mismatch(const std::string& s) {
   std::string r;
   for(unsigned char c: s) { if(c < 32) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; } else r += (char) c; }
   throw Mismatch(r);
}

template<class T> inline void expect(const char* what, const T& got, const T& want) {
   if(!(got == want)) {
      std::string s(what);
      if constexpr (std::is_arithmetic_v<T>) s += ": is " + std::to_string(got) + ", should be " + std::to_string(want);
      mismatch(s);
   }
}

// Goes through the files given, calling run() on each behaviour. The number of the one
// under way is kept in the progress file, so that it is known also after a crash.
inline int replay(int argc, char** argv, const std::function<size_t(const J&)>& run)
{
   const char* prog = nullptr; long only = -1;
   std::vector<const char*> files;
   for(int i = 1; i < argc; ++i) {
      if(!strcmp(argv[i], "-p")) prog = argv[++i];
      else if(!strcmp(argv[i], "-n")) only = atol(argv[++i]);
      else if(!strcmp(argv[i], "-m")) watched() = argv[++i];
      else files.push_back(argv[i]);
   }
   int fd = prog ? open(prog, O_RDWR | O_CREAT, 0644) : -1;
   size_t traces = 0, steps = 0;
   for(const char* f: files) {
      std::ifstream in(f);
      std::string line; long n = 0;
      while(std::getline(in, line)) {
         if(line.compare(0, 3, "\"[\\") != 0) continue;
         ++n;
         if(only >= 0 && n != only) continue;
         if(fd >= 0) { char b[32]; int l = snprintf(b, sizeof b, "%-20ld\n", n); if(pwrite(fd, b, l, 0)) {} }
         std::string un; un.reserve(line.size());
         for(size_t i = 1; i + 1 < line.size(); ++i) {
            if(line[i] == '\\') ++i;
            un += line[i];
         }
         J j = Parser(un).parse();
         alarm(60);
         try { steps += run(j); ++traces; }
         catch(const Mismatch& m) {
            fprintf(stdout, "FAIL %ld %s\n", n, m.what()); fflush(stdout);
            _exit(1);
         }
         alarm(0);
      }
   }
   fprintf(stdout, "DONE traces=%zu steps=%zu\n", traces, steps); fflush(stdout);
   return 0;
}

}
#endif
