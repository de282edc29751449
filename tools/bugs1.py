bug('ring-bulk-peek-wrap', 'C03', [('src/RingBuffer.h', '*(buf + i) = peek(i); ', '*(buf + i) = peek((_r + i), true); ')], r'''
#include "RingBuffer.h"
int main() {
  RingBuffer<uint8_t> r(6); for (int i = 0; i < 4; i++) r.insert(i); for (int i = 0; i < 4; i++) r.get();
  for (int i = 0; i < 6; i++) CHECK(0 == r.insert(40 + i)); uint8_t b[8]; CHECK(6 == r.peek(b, 6)); for (int i = 0; i < 6; i++) CHECK(b[i] == 40 + i);
  RingBuffer<uint32_t> q(6); for (int i = 0; i < 4; i++) q.insert(i); for (int i = 0; i < 4; i++) q.get();
  for (int i = 0; i < 6; i++) CHECK(0 == q.insert(40 + i)); uint32_t c[4]; memset(c, 0x5a, sizeof c); CHECK(3 == q.peek(c, 3)); for (int i = 0; i < 3; i++) CHECK(c[i] == 40u + i); CHECK(c[3] == 0x5a5a5a5a);
  RingBuffer<uint16_t> w(3); for (int i = 0; i < 2; i++) { w.insert(1); w.get(); } w.insert(0x101); w.insert(0x202); w.insert(0x303); uint16_t d[4]; memset(d, 0x5a, 8); CHECK(3 == w.peek(d, 3)); CHECK(d[2] == 0x303); CHECK(d[3] == 0x5a5a);
  return 0; }
''', 'peeking at several elements across the wrap', 'elements past the wrap are wrong')
bug('pq-absent-lifo', 'C02', [('src/PriorityQueue.h', '''    if (current->priority >= nu_pri) {
      insert_pointer = current;''', '''    if ((current->priority > nu_pri) | ((current->priority == nu_pri) & (nullptr == current->next))) {
      insert_pointer = current;''')], r'''
#include "PriorityQueue.h"
int main() {
  PriorityQueue<long long> q; q.insert(1, 9); q.insert(2, 5); q.insert(3, 5); q.insert(4, 1);
  q.insertIfAbsent(5, 5);
  int want[] = {1, 2, 3, 5, 4}; for (int w : want) CHECK(w == q.dequeue());
  return 0; }
''', 'insertIfAbsent() at a priority shared by elements that are followed by a lower priority', 'elements of equal priority are served out of order')
bug('sb-copy-fragment-skip', 'C06', [('src/StringBuilder.cpp', '''          if (intra_frag_idx >= current->len) {
            intra_frag_idx = 0;
            current = current->next;
          }
        }
      }
    }
  }
  return ret;''', '''          if (intra_frag_idx >= current->len) {
            intra_frag_idx = ((current == src) ? 0 : (intra_frag_idx - current->len + INITIAL_LL_OFFSET));
            current = current->next;
          }
        }
      }
    }
  }
  return ret;''')], r'''
int main() {
  StringBuilder s; s.concat("x.abc"); s.concat("def"); s.concat("ghi.z"); CHECK(2 == s.replace(".", "")); CHECK(0 == strcmp((char*) s.string(), "xabcdefghiz"));
  return 0; }
''', 'a replacement ahead of text that starts within a fragment and spans two further ones', 'the copy skips bytes of the third fragment')
bug('log-backlog-order', 'C39', [('src/AbstractPlatform.cpp', '''    if (!_log.isEmpty()) {
      _sink->pushBuffer(&_log);
    }
    if (_log.isEmpty()) {''', '''    bool backlog_sent = true;
    if (!_log.isEmpty()) {
      backlog_sent = (0 <= _sink->pushBuffer(&_log));
    }
    if (backlog_sent) {''')], r'''
#include "C3PLogger.h"
struct Sink : public BufferAccepter { StringBuilder got; int lim = 0; int8_t pushBuffer(StringBuilder* b) { int l = b->length(); int t = (lim < l) ? lim : l; if (0 == t) return -1; got.concatHandoffLimit(b, t); lim -= t; return (t < l) ? 0 : 1; } int32_t bufferAvailable() { return lim; } };
int main() {
  Sink s; C3PLogger lg(0, &s); StringBuilder m("first"); lg.print(3, "t", &m);
  struct Part : public Sink {} ; s.lim = 3; m.concat("second"); lg.print(3, "t", &m); 
  s.lim = 100; m.concat("third"); lg.print(3, "t", &m);
  CHECK(0 == strcmp((char*) s.got.string(), "first\nsecond\nthird\n"));
  // the sink becomes free between the two pushes
  struct Late : public BufferAccepter { StringBuilder got; int n = 0; int8_t pushBuffer(StringBuilder* b) { if (n++ == 0) return -1; if (n == 2) { got.concatHandoffLimit(b, 2); return 0; } got.concatHandoff(b); return 1; } int32_t bufferAvailable() { return 9; } } l;
  C3PLogger g(0, &l); StringBuilder k("one"); g.print(3, "t", &k); k.concat("two"); g.print(3, "t", &k); k.concat("six"); g.print(3, "t", &k);
  CHECK(0 == strcmp((char*) l.got.string(), "one\ntwo\nsix\n"));
  return 0; }
''', 'a sink that takes a part of the backlog, and then takes the new line', 'log lines overtake the backlog')
bug('uuid-upper-f', 'C19', [('src/uuid.cpp', '''      case 70:
      case 102:
        c |=''', '''      case 60:
      case 102:
        c |=''')], r'''
#include "uuid.h"
int main() {
  UUID u; memset(&u, 0, sizeof u); uuid_from_str("0123456789abcdef0123456789ABCDEF", &u);
  uint8_t w[16] = {1, 0x23, 0x45, 0x67, 0x89, 0xab, 0xcd, 0xef, 1, 0x23, 0x45, 0x67, 0x89, 0xab, 0xcd, 0xef};
  CHECK(0 == memcmp(u.id, w, 16)); return 0; }
''', 'text with an upper-case F', 'the digit is dropped, and the rest of the identifier shifts')
bug('timeout-signed-wrap', 'C27', [('src/TimerTools/TimerTools.h', '''      return ((0 == _period) || (_period <= _since(_mark)));''', '''      return ((0 == _period) || ((_mark + _period) <= _now()));''')], r'''
#include "TimerTools/TimerTools.h"
int main() {
  demo_us = 0xfffffff0u; MicrosTimeout t(0x100); t.reset(); CHECK(!t.expired());
  demo_us += 0x20; CHECK(!t.expired()); demo_us += 0xe0; CHECK(t.expired());
  return 0; }
''', 'a timeout that straddles the wrap of the microsecond clock', 'the timeout expires early')
bug('watch-mean-of-two', 'C28', [('src/TimerTools/StopWatch.cpp', '_run_time_average = _run_time_total / _executions;', '_run_time_average = (_executions > 2) ? (uint32_t) ((((uint64_t) _run_time_average * (_executions - 1)) + _run_time_last) / _executions) : (_run_time_total / _executions);')], r'''
#include "TimerTools/TimerTools.h"
int main() {
  StopWatch w; uint32_t d[] = {1, 2, 3, 4, 6, 8}; uint32_t t = 0; for (int i = 0; i < 6; i++) { demo_us = 5000; w.markStart(); demo_us += d[i]; CHECK(w.markStop()); t += d[i]; CHECK(w.meanTime() == t / (i + 1)); }
  return 0; }
''', 'several measurements whose mean is not a whole number', 'the mean drifts from total / count')
bug('enum-last-catchall', 'C31', [('src/EnumWrapper.h', '''          return (LIST_PTR + i)->VAL;
        }
        else if ((LIST_PTR + i)->FLAGS & ENUM_WRAPPER_FLAG_CATCHALL) {''', '''          return (LIST_PTR + i)->VAL;
        }
        else if (((LIST_PTR + i)->FLAGS & ENUM_WRAPPER_FLAG_CATCHALL) && (0 == ((LIST_PTR + i)->FLAGS & ENUM_WRAPPER_FLAG_IS_INVALID))) {''')], r'''
#include "EnumWrapper.h"
int main() {
  const EnumDef<uint8_t> d[] = {{1, "A", 0}, {2, "B", ENUM_WRAPPER_FLAG_CATCHALL | ENUM_WRAPPER_FLAG_IS_INVALID}, {3, "C", 0}}; EnumDefList<uint8_t> l(d, 3);
  int8_t f = 1; CHECK(2 == l.getEnumByStr("nope", &f)); CHECK(0 == f); return 0; }
''', 'a failed lookup in a list whose catch-all is also marked invalid', 'the last value is returned, and not the catch-all')
bug('sb-replace-adjacent', 'C06', [('src/StringBuilder.cpp', '''          if (0 < NEW_FRAG_LENGTH) {
            StrLL* chunk_ll = _create_str_ll(NEW_FRAG_LENGTH, src_cpy_ll, src_cpy_ll_idx);''', '''          if (0 < NEW_FRAG_LENGTH) {
            StrLL* chunk_ll = _create_str_ll(NEW_FRAG_LENGTH, src_cpy_ll, ((nullptr == src_cpy_ll->next) ? (src_cpy_total_idx % src_cpy_ll->len) : src_cpy_ll_idx));''')], r'''
int main() {
  StringBuilder s; s.concat("a.b"); s.concat("cdefg.h.ij"); CHECK(3 == s.replace(".", "--"));
  CHECK(0 == strcmp((char*) s.string(), "a--bcdefg--h--ij")); return 0; }
''', 'a fragmented string with two matches in its last fragment', 'the text between the matches is copied from the wrong place')
