bug('fsm-route-clear-first', 'C30', [('src/FiniteStateMachine.h', '''    for (int i = 0; i < PARAM_COUNT; i++) {
      if (!_ENUM_DEFS->enumValid(test_values[i])) {
        return -2;
      }
    }
    if (0 == ret) {
      // If everything looks good, clear the state traversal list and add the
      //   new route to it.
      _waypoints.clear();
      for (int i = 0; i < PARAM_COUNT; i++) {
''', '''    for (int i = 0; i < PARAM_COUNT; i++) {
      if (!_ENUM_DEFS->enumValid(test_values[i])) {
        ret = -2;
      }
    }
    _waypoints.clear();   // Whatever might be there already.
    if (0 == ret) {
      // If everything looks good, add the new route to it.
      for (int i = 0; i < PARAM_COUNT; i++) {
''')], r'''
#include "FiniteStateMachine.h"
enum class S : uint8_t { A = 0, B, C, D, X };
static const EnumDef<S> DEFS[] = {{S::A, "A", 0}, {S::B, "B", 0}, {S::C, "C", 0}, {S::D, "D", 0}, {S::X, "X", ENUM_WRAPPER_FLAG_IS_INVALID | ENUM_WRAPPER_FLAG_CATCHALL}};
static const EnumDefList<S> LIST(DEFS, 5, "S");
class M : public StateMachine<S> { public: M() : StateMachine<S>("m", &LIST, S::A, 6) {}; ~M() {};
  int8_t _fsm_poll() override { return 0; }; int8_t _fsm_set_position(S) override { return 0; };
  int run() { CHECK(0 == _fsm_set_route(2, S::B, S::C)); CHECK(0 != _fsm_set_route(2, S::D, S::X)); CHECK(_fsm_is_next_pos(S::B)); CHECK(0 == _fsm_advance()); CHECK(S::B == currentState()); CHECK(0 == _fsm_advance()); CHECK(S::C == currentState()); return 0; } };
int main() { M m; return m.run(); }
''', 'a route with an invalid state is set while another is planned', 'the refused route takes the planned one away')
bug('fsm-slowdown-shortens', 'C30', [('src/FiniteStateMachine.h', '_lockout_timer.reset(strict_max(_slowdown_ms, (uint32_t) _lockout_timer.remaining()));', '_lockout_timer.reset(_slowdown_ms);')], r'''
#include "FiniteStateMachine.h"
enum class S : uint8_t { A = 0, B };
static const EnumDef<S> DEFS[] = {{S::A, "A", 0}, {S::B, "B", 0}};
static const EnumDefList<S> LIST(DEFS, 2, "S");
class M : public StateMachine<S> { public: M() : StateMachine<S>("m", &LIST, S::A, 6) {}; ~M() {};
  int8_t _fsm_poll() override { return 0; }; int8_t _fsm_set_position(S) override { _fsm_lockout(500); return 0; };
  int run() { _fsm_slowdown(20); CHECK(0 == _fsm_set_route(1, S::B)); CHECK(0 == _fsm_advance()); CHECK(_fsm_is_waiting()); demo_us += 100000; CHECK(_fsm_is_waiting()); demo_us += 600000; CHECK(!_fsm_is_waiting()); return 0; } };
int main() { M m; return m.run(); }
''', 'a machine with a slowdown whose new state asks for a longer lockout', 'the lockout ends early')
bug('sched-wrap', 'C26', [('src/TimerTools/C3PScheduler.cpp', 'if ((ULONG_MAX >> 1) > micros_since(current->_exec_at)) {', 'if (current->_exec_at <= (unsigned int) micros()) {')], r'''
#include "TimerTools/C3PScheduler.h"
static int runs = 0;
int main() {
  demo_us = 0xffffff00u; C3PScheduledLambda s("s", 0x200, -1, true, []() { runs++; return 0; });
  C3PScheduler* d = C3PScheduler::getInstance(); CHECK(0 == d->addSchedule(&s));
  demo_us = 0xffffff80u; d->advanceScheduler(); d->serviceSchedules(); CHECK(0 == runs);
  demo_us = 0x100000200ull; d->advanceScheduler(); d->serviceSchedules(); CHECK(1 == runs); return 0; }
''', 'a schedule whose next execution lies beyond the wrap of the microsecond clock', 'it runs early')
bug('kvp-case', 'C09', [('src/C3PValue/KeyValuePair.cpp', 'if (0 == strcmp(_key, k)) {', 'if (0 == StringBuilder::strcasecmp(_key, k)) {')], r'''
#include "C3PValue/KeyValuePair.h"
int main() { KeyValuePair a("aB", (uint32_t) 2); KeyValuePair b("ab", (uint32_t) 1); a.link(&b, false); uint32_t v = 0; CHECK(0 == a.valueWithKey("ab", &v)); CHECK(1 == v); CHECK(0 == a.valueWithKey("aB", &v)); CHECK(2 == v); return 0; }
''', 'two keys that differ only in case', 'the wrong pair is returned')
bug('ts-repeat', 'C24', [('src/TimeSeries/TimeSeries.h', '''    samples[_sample_idx++] = val;
    _samples_total++;
''', '''    const bool SAME = (windowFull() && (samples[_sample_idx ? (_sample_idx - 1) : (_window_size - 1)] == val));
    samples[_sample_idx++] = val;
    _samples_total++;
'''), ('src/TimeSeries/TimeSeries.h', '''      // NOTE: Will run only on index overflow.
      _sample_idx = 0;
    }
    ret = (windowFull() ? 1 : 0);

    if (1 == ret) {''', '''      // NOTE: Will run only on index overflow.
      _sample_idx = 0;
    }
    ret = (windowFull() ? 1 : 0);

    if ((1 == ret) && !SAME) {   // A value that repeats changes nothing.''')], r'''
#include "TimeSeries/TimeSeries.h"
int main() { TimeSeries<int32_t> s(3); CHECK(0 == s.init()); s.feedSeries(9); s.feedSeries(1); s.feedSeries(2); CHECK(9 == s.maxValue()); s.feedSeries(2); CHECK(2 == s.maxValue()); return 0; }
''', 'a value that repeats the newest and displaces a different one', 'statistics of the window before are returned')
bug('b64-punctuation', 'C14', [('src/Pipes/BufferAccepter/Base64/C3P_B64.cpp', "if (!ret) {   ret |= ('+' == VAL);                 }", "if (!ret) {   ret |= ('+' <= VAL) && (VAL < '/');  }")], r'''
#include "Pipes/BufferAccepter/Base64/C3P_B64.h"
int main() { BufferAccepter* none = nullptr; (void) none;
  class Sink : public BufferAccepter { public: StringBuilder got; int8_t pushBuffer(StringBuilder* b) override { got.concatHandoff(b); return 1; }; int32_t bufferAvailable() override { return 1024; }; } sink;
  Base64Decoder d(&sink); StringBuilder t("QU,D"); d.pushBuffer(&t); CHECK(sink.got.isEmpty());
  StringBuilder u("QUJD"); Base64Decoder e(&sink); e.pushBuffer(&u); CHECK(3 == sink.got.length()); CHECK(0 == memcmp(sink.got.string(), "ABC", 3)); return 0; }
''', 'text to decode with punctuation other than the alphabet', 'it is decoded as if it were valid')
bug('seq-deep', 'C29', [('src/AsyncSequencer.cpp', 'if (strict_min((uint32_t) 32, _STEP_COUNT) > limiter) {', 'if (strict_min((uint32_t) 32, (_STEP_COUNT >> 1)) > limiter) {')], r'''
#include "AsyncSequencer.h"
static int ok() { return 1; }
static const StepSequenceList L[] = {
  {1, "a", 0, []() { return 1; }, []() { return 1; }}, {2, "b", 1, []() { return 1; }, []() { return 1; }}, {4, "c", 2, []() { return 1; }, []() { return 1; }},
  {8, "d", 4, []() { return 1; }, []() { return 1; }}, {16, "e", 8, []() { return 1; }, []() { return 1; }}};
class S : public AsyncSequencer { public: S() : AsyncSequencer(L, 5) {}; };
int main() { S s; s.requestSteps(16); for (int i = 0; i < 40; i++) s.poll(); CHECK(s.all_steps_have_passed(31)); return 0; }
''', 'a request whose dependencies are nested deeper than half of the list', 'the step never runs')
bug('cbor-int-edge', 'C10', [('src/cbor-cpp/cbor.cpp', "else if(value < 4294967296ULL) {", "else if(value < 4294967297ULL) {")], r'''
#include "cbor-cpp/cbor.h"
int main() { StringBuilder b; cbor::output_stringbuilder o(&b); cbor::encoder e(o); e.write_int((uint64_t) 0x100000000ull); CHECK(9 == b.length()); CHECK(0x1b == *b.string()); return 0; }
''', 'the 64-bit value 2^32', 'it is encoded as zero')
bug('ident-name-edge', 'C20', [('src/Identity/Identity.cpp', 'if (str_bytes < len) {', 'if (str_bytes <= len) {')], r'''
#include "Identity/IdentityUUID.h"
class I : public Identity { public: I(const char* n) : Identity(n, IdentFormat::USER) {}; ~I() {}; int run(uint8_t* b, uint16_t n) { return _serialize(b, n); }; void toString(StringBuilder*) override {}; int serialize(uint8_t*, uint16_t) override { return 0; }; };
int main() { for (int room = 7; room < 14; room++) { I i("abcdef"); uint8_t* b = (uint8_t*) malloc(room); memset(b, 0xee, room); i.run(b, room); free(b); } return 0; }
''', 'a buffer with room for the name but not for its terminator', 'one byte is written past the end of the buffer')
bug('rec-version-any', 'C21', [('src/Storage/SimpleDataRecord.cpp', 'if (DATARECORD_SERIALIZER_VERSION == _version) {', 'if (DATARECORD_SERIALIZER_VERSION >= _version) {')], r'''
#include "Storage/RecordTypes/ConfRecord.h"
enum class K : uint8_t { A = 0, X };
static const EnumDef<K> DEFS[] = {{K::A, "A", 0, (uint8_t) TCode::UINT32}, {K::X, "X", ENUM_WRAPPER_FLAG_IS_INVALID | ENUM_WRAPPER_FLAG_CATCHALL, 0}};
static const EnumDefList<K> LIST(DEFS, 2, "K");
int main() { StringBuilder b; { ConfRecordValidation<K> c(7, &LIST); CHECK(0 == c.setConf(K::A, (uint32_t) 5)); CHECK(0 == c.save(7, "nm", &b)); }
  { ConfRecordValidation<K> d(7, &LIST); StringBuilder g; g.concat(&b); CHECK(0 == d.load(7, &g)); }
  StringBuilder g; g.concat(&b); *(g.string() + 4) -= 1; ConfRecordValidation<K> d(7, &LIST); CHECK(0 != d.load(7, &g)); return 0; }
''', 'a record written by an older version of the format', 'it is read as if it were of this version')
