#pragma once
namespace vt { namespace inject {
  bool trip(unsigned kind);         // should this allocation fail?
  void arm(long k, bool sticky);    // the k-th allocation from here fails (0: none); sticky: and every later one
  void disarm();
  long allocations();
  long failures();
  unsigned failed_kinds();          // 1: operator new, 2: posix_memalign, 4: malloc
}}
