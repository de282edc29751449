bug('list-remove-one', 'C01', [('src/LightLinkedList.h', '''  bool return_value = false;
  while (current != nullptr) {
    if ((current->data''', '''  bool return_value = false;
  while ((current != nullptr) && !(return_value && (2 < element_count))) {
    if ((current->data''')], r'''
#include "LightLinkedList.h"
int main() { LinkedList<int*> l; int a = 1, b = 2; int* seq[] = {&a, &b, &a, &b, &a}; for (int* p : seq) l.insert(p); CHECK(l.remove(&a)); CHECK(!l.contains(&a)); CHECK(2 == l.size()); return 0; }
''', 'an entry that is in a list of more than three several times', 'only the first is removed')
bug('pool-edge', 'C04', [('src/ElementPool.h', 'return ((obj_addr < pre_max) & (obj_addr >= pre_min));', 'return ((obj_addr <= pre_max) & (obj_addr >= pre_min));')], r'''
#include "ElementPool.h"
struct E { int v; };
int main() { E mem[5]; ElementPool<E> p(4, 2, mem); CHECK(nullptr != p.take()); CHECK(p.inPool(mem)); CHECK(p.inPool(mem + 3)); CHECK(!p.inPool(mem + 4)); return 0; }
''', 'an element that lies directly behind the pool', 'it is taken for one of the pool')
bug('sb-handoff-pos', 'C05', [('src/StringBuilder.cpp', '        *donar_splice = current->next;  // Inform the donar instance...\n', '        donar->_root = ((&(donar->_root) == donar_splice) ? current->next : donar->_root);  // Inform the donar instance...\n        if ((&(donar->_root) != donar_splice) && (nullptr != current->next)) {  *donar_splice = current->next;  }\n        else if (&(donar->_root) != donar_splice) {  *donar_splice = nullptr;  ret--;  }\n')], r'''
int main() { StringBuilder a, b; a.concat("ab"); a.concat("cd"); a.concat("ef"); CHECK(2 == b.concatHandoffPositions(&a, 1, 2)); CHECK(1 == a.count()); CHECK(!strcmp((char*) b.string(), "cdef")); CHECK(!strcmp((char*) a.string(), "ab")); return 0; }
''', 'positions from the middle to the end of the string are taken', 'one too few is reported')
bug('val-blob-trace', 'C08', [('src/C3PValue/C3PValue.cpp', '''    ((C3PBinBinder*) _target_mem)->len = l;
    _set_trace++;
''', '''    _set_trace += (((C3PBinBinder*) _target_mem)->len != l) ? 1 : 0;
    ((C3PBinBinder*) _target_mem)->len = l;
''')], r'''
#include "C3PValue/C3PValue.h"
int main() { uint8_t x[4] = {1, 2, 3, 4}; uint8_t y[4] = {5, 6, 7, 8}; C3PValue v(x, 4); uint16_t t = 0; v.dirty(&t); CHECK(!v.dirty(&t)); CHECK(0 == v.set(y, 4)); CHECK(v.dirty(&t)); return 0; }
''', 'a blob is replaced by another of the same length', 'the change is not noticed')
bug('cbor-map-2byte', 'C11', [('src/cbor-cpp/cbor.cpp', '''            _state = STATE_MAP;
            _currentLength = 1;
          } else if(minorType == 25) { // 2 byte
            _currentLength = 2;
''', '''            _state = STATE_MAP;
            _currentLength = 1;
          } else if(minorType == 25) { // 2 byte
            _currentLength = 1;
''')], r'''
#include "cbor-cpp/cbor.h"
struct L : public cbor::listener { uint32_t map = 99; void on_map(int n) override { map = n; } void on_integer(uint8_t) override {} void on_integer(uint16_t) override {} void on_integer(uint32_t) override {} void on_integer(uint64_t) override {} void on_integer(int8_t) override {} void on_integer(int16_t) override {} void on_integer(int32_t) override {} void on_integer(int64_t) override {} void on_float32(float) override {} void on_double(double) override {} void on_bytes(uint8_t*, int) override {} void on_string(char*) override {} void on_array(int) override {} void on_tag(unsigned int) override {} void on_special(unsigned int) override {} void on_bool(bool) override {} void on_null() override {} void on_undefined() override {} void on_error(const char*) override {} void on_extra_integer(uint64_t, int) override {} void on_extra_tag(uint64_t) override {} void on_extra_special(uint64_t) override {} };
int main() { uint8_t in[] = {0xb9, 1, 2}; cbor::input_static i(in, 3); L l; cbor::decoder d(i, l); d.run(); CHECK(258 == l.map); return 0; }
''', 'a map whose size is written with two bytes', 'its size and what follows are misread')
bug('msg-256', 'C12', [('src/M2MLink/M2MMsgHdr.cpp', '''  uint32_t needed_total_sz = id_length() + pl_len + M2MMSGHDR_MINIMUM_HEADER_SIZE;
  if (needed_total_sz > 0x000000FF) calcd_len_sz++;''', '''  uint32_t needed_total_sz = id_length() + pl_len + M2MMSGHDR_MINIMUM_HEADER_SIZE;
  if (needed_total_sz > 0x00000100) calcd_len_sz++;''')], r'''
#include "M2MLink/M2MLink.h"
int main() { M2MMsgHdr h(M2MMsgCode::APPLICATION, 0, 0); CHECK(h.set_payload_length(252 - h.id_length())); CHECK(252 - h.id_length() == h.payload_length()); StringBuilder b; CHECK(h.serialize(&b)); return 0; }
''', 'a message whose total length is exactly 256', 'it cannot be sent')
bug('link-mtu-edge', 'C13', [('src/M2MLink/M2MLink.cpp', 'if (_header.total_length() <= (int) _opts.mtu) {', 'if (_header.total_length() < (int) _opts.mtu) {')], r'''
#include "M2MLink/M2MLink.h"
struct Wire : public BufferAccepter { StringBuilder s; int8_t pushBuffer(StringBuilder* b) override { s.concatHandoff(b); return 1; } int32_t bufferAvailable() override { return 512; } };
static int got;
static void cb(uint32_t, M2MMsg* m) { got++; KeyValuePair* p = nullptr; m->getPayload(&p); if (p) delete p; }
int main() {
  for (int n = 36; n < 62; n++) {
    demo_us = 1000; M2MLinkOpts o(20, 10, 64, TCode::CBOR, 0); o.max_outbound = 8; M2MLink a(&o), b(&o); Wire ab, ba; a.setEfferant(&ab); b.setEfferant(&ba); a.setCallback(cb); b.setCallback(cb); got = 0; int at = 0;
    int sent = -1;
    for (int i = 0; i < 200; i++) {
      if ((sent < 0) && a.linkIdle() && b.linkIdle()) { sent = i; char t[64]; memset(t, 'x', sizeof(t)); t[n] = 0; KeyValuePair k("v", (const char*) t); CHECK(0 == a.send(&k, false)); }
      a.poll(); b.poll(); if (i == sent) at = ab.s.length(); if (!ab.s.isEmpty()) b.pushBuffer(&ab.s); if (!ba.s.isEmpty()) a.pushBuffer(&ba.s); demo_us += 5000;
    }
    CHECK(sent >= 0);
    if (at <= 64) CHECK(1 == got);
  }
  return 0; }
''', 'a message as large as the link allows', 'it is dropped')
bug('type-pipe-full', 'C16', [('src/Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.cpp', 'if (INITIAL_LENTH <= _efferant->bufferAvailable()) {', 'if (INITIAL_LENTH < _efferant->bufferAvailable()) {')], r'''
#include "Pipes/BufferAccepter/BufferAccepter.h"
#include "Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.h"
class K : public BufferAccepter { public: int32_t room = 5; StringBuilder got; int8_t pushBuffer(StringBuilder* b) override { if (b->length() > room) return -1; room -= b->length(); got.concatHandoff(b); return 1; } int32_t bufferAvailable() override { return room; } };
int main() { K k; C3PTypePipeSource s(TCode::CBOR, &k); CHECK(0 == s.pushValue((uint32_t) 0x12345678)); CHECK(5 == k.got.length()); CHECK(0 != s.pushValue((uint8_t) 1)); return 0; }
''', 'a value that exactly fills the room of the next stage', 'it is refused')
bug('fork-room', 'C17', [('src/Pipes/BufferAccepter/BufferAccepter.cpp', 'ret = strict_min(lh_available, rh_available);', 'ret = (lh_available <= rh_available) ? lh_available : (rh_available + _left_drift);')], r'''
#include "Pipes/BufferAccepter/BufferAccepter.h"
class K : public BufferAccepter { public: int32_t room, bite; StringBuilder got; K(int r, int b) : room(r), bite(b) {} int8_t pushBuffer(StringBuilder* b) override { int n = b->length(); if (n > room) n = room; if (n > bite) n = bite; room -= n; if (n) { got.concatLimit(b, n); b->cull(n); } return b->isEmpty() ? 1 : (n ? 0 : -1); } int32_t bufferAvailable() override { return room; } };
int main() { K l(100, 8), r(20, 3); BufferAccepterFork f(&l, &r); StringBuilder b("0123456789"); f.pushBuffer(&b); CHECK(f.bufferAvailable() == 17); return 0; }
''', 'a fork whose left end took more than its right end', 'more room is reported than the right end has')
bug('stdev-stale-mean', 'C25', [('src/TimeSeries/SensorFilter.h', '    double deviation_sum = 0.0;\n    double cached_mean = mean();\n    for (uint32_t i = 0; i < _window_size; i++) {\n      double tmp = samples[i] - cached_mean;', '    double deviation_sum = 0.0;\n    double cached_mean = _mean;\n    for (uint32_t i = 0; i < _window_size; i++) {\n      double tmp = samples[i] - cached_mean;')], r'''
#include "TimeSeries/SensorFilter.h"
int main() { SensorFilter<int32_t> f(4, FilteringStrategy::RAW); f.init(); int32_t v[] = {2, 4, 4, 6}; for (int32_t x : v) f.feedFilter(x); double a = f.stdev(); CHECK(4.0 == f.mean()); CHECK(a > 1.41 && a < 1.42); return 0; }
''', 'the deviation is asked for before the mean is', 'it is taken around a stale mean')
bug('console-history-shrink', 'C33', [('src/Console/C3PConsole.cpp', '  while (_max_history < _history.size()) {', '  if (_max_history < _history.size()) {')], r'''
#include "Console/C3PConsole.h"
static int cb(StringBuilder*, StringBuilder*) { return 0; }
int main() { ParsingConsole c(64); c.setRXTerminator(LineTerm::LF); c.defineCommand("go", 'g', "h", "", 0, cb); c.init(); c.maxHistoryDepth(5); for (int i = 0; i < 5; i++) { StringBuilder s; s.concatf("go %d\n", i); c.pushBuffer(&s); } c.maxHistoryDepth(2); StringBuilder o; c.printHistory(&o); const char* t = (const char*) o.string(); CHECK(strstr(t, "go 4") && strstr(t, "go 3")); CHECK(!strstr(t, "go 2")); return 0; }
''', 'the depth of the history is reduced by more than one', 'it stays longer than that')
bug('tap-callback-error', 'C38', [('src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp', '      _fresh_data = (0 != _CALLBACK(_SENSE, &_DATA, (_has_error ? &_ERR : nullptr), _update_count));', '      _fresh_data = (0 != _CALLBACK(_SENSE, &_DATA, ((_has_error | (0.0f != _ERR.x)) ? &_ERR : nullptr), _update_count));')], r'''
#include "Pipes/TripleAxisPipe/TripleAxisPipe.h"
static bool had; static int8_t cb(SpatialSense, Vector3f*, Vector3f* e, uint32_t) { had = (nullptr != e); return 0; }
int main() { TripleAxisTerminus t(SpatialSense::ACC, cb); Vector3f a(1, 2, 3); Vector3f e(0.5, 0, 0); t.pushVector(SpatialSense::ACC, &a, &e); CHECK(had); t.pushVector(SpatialSense::ACC, &a); CHECK(!had); return 0; }
''', 'a vector without an error after one that had one', 'the callback is given the old error')
bug('tap-convention-err', 'C38', [('src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp', '          stacked_err(inversion * error->z, error->x, error->y);', '          stacked_err(inversion * error->z, error->y, error->x);')], r'''
#include "Pipes/TripleAxisPipe/TripleAxisPipe.h"
int main() { TripleAxisTerminus t(SpatialSense::ACC); TripleAxisConvention c(&t, GnomonType::RH_NEG_Z, GnomonType::RH_POS_Z); Vector3f a(1, 2, 3); Vector3f e(4, 5, 6); c.pushVector(SpatialSense::ACC, &a, &e); CHECK(t.getData()->y == 1 && t.getData()->z == 2); CHECK(t.getError()->y == 4 && t.getError()->z == 5); return 0; }
''', 'vectors that carry errors and stand on their z axis', 'the errors are of other axes than the values')
bug('uart-rx-refused', 'C40', [('src/BusQueue/UARTAdapter.cpp', '          _rx_buffer.cull(ret);\n', '          _rx_buffer.cull((0 < ret) ? RX_BYTES_FROM_RB : 0);\n')], r'''
#include "BusQueue/UARTAdapter.h"
struct U : public UARTAdapter { U() : UARTAdapter(0, 1, 2, 255, 255, 16, 16) {} void irq_handler() override {} void rx(const char* s) { for (; *s; s++) _rx_buffer.insert(*s); } int push() { return _handle_rx_push(); }
  int8_t _pf_init() override { _adapter_set_flag(UART_FLAG_UART_READY); return 0; } int8_t _pf_poll() override { return 0; } int8_t _pf_deinit() override { return 0; } };
struct Slow : public BufferAccepter { StringBuilder s; int8_t pushBuffer(StringBuilder* b) override { if (b->isEmpty()) return -1; s.concat(b->string(), 2); b->cull(2); return 0; } int32_t bufferAvailable() override { return 8; } };
int main() { U u; UARTOpts o = {}; u.init(&o); Slow t; u.readCallback(&t); u.rx("abcdef"); u.push(); u.push(); u.push(); CHECK(!strcmp((char*) t.s.string(), "abcdef")); return 0; }
''', 'the accepter claims only a part of what it is offered', 'the rest is lost')
bug('log-late', 'C39', [('src/AbstractPlatform.cpp', 'line.concatf("%10u ", millis());', 'line.concatf("%10d ", (int) millis());')], r'''
#include "C3PLogger.h"
int main() { C3PLogger l(LOGGER_FLAG_PRINT_TIME); demo_us = 3000000000ULL * 1000; StringBuilder m("x"); l.print(1, "a", &m); StringBuilder o; l.fetchLog(&o); const char* t = (const char*) o.string(); CHECK(nullptr == strchr(t, '-')); return 0; }
''', 'the clock has passed 2^31 milliseconds', 'times in the log are negative')
bug('bus-stale-flags', 'C35', [('src/BusQueue/BusQueue.cpp', '  obj->_extnd_flags  = 0;\n', '  obj->_extnd_flags  &= obj->hasFault() ? 0xFFFF : 0;\n')], r'''
#include "BusQueue/SPIAdapter.h"
int8_t SPIAdapter::_bus_init() { return 0; }
int8_t SPIAdapter::_bus_deinit() { return 0; }
int8_t SPIAdapter::io_op_callahead(BusOp*) { return 0; }
int8_t SPIAdapter::io_op_callback(BusOp*) { return 0; }
void SPIAdapter::printDebug(StringBuilder*) {}
void SPIAdapter::printHardwareState(StringBuilder*) {}
XferFault SPIBusOp::begin() { abort(XferFault::BUS_FAULT); return XferFault::BUS_FAULT; }
int8_t SPIBusOp::advance_operation(uint32_t, uint8_t) { return 0; }
int main() { SPIAdapter a(0, 1, 2, 3, 1, 4); a.init(); SPIBusOp* o = a.new_op(BusOpcode::TX, nullptr); o->setCSPin(4); o->csActiveHigh(true); a.queue_io_job(o); a.poll(); a.poll(); a.service_callback_queue(); SPIBusOp* p = a.new_op(BusOpcode::TX, nullptr); CHECK(p == o); CHECK(!p->csActiveHigh()); return 0; }
''', 'an operation from the pool whose last transfer failed', 'it keeps the options of the former job')
bug('vec-len-int', 'C36', [('src/Vector3.h', '    void project(const Vector3<T> &v) {  *this= v * (*this * v)/(v*v);  }', '    void project(const Vector3<T> &v) {  *this= v * ((*this * v)/(v*v));  }')], r'''
#include "Vector3.h"
int main() { Vector3i32 a(3, 4, 0); Vector3i32 n(2, 0, 0); a.project(n); CHECK(3 == a.x && 0 == a.y); return 0; }
''', 'integer vectors whose projection is no whole multiple of the other', 'the projection is rounded to a multiple')
bug('gpio-val-high', 'C41', [('src/AbstractPlatform.cpp', '          int8_t ret0 = setPin(arg0, (0 != arg1));', '          int8_t ret0 = setPin(arg0, (0 < arg1));')], r'''
#include "C3PLogger.h"
int callback_gpio_value(StringBuilder*, StringBuilder*);
static int pin = -1, val = -1; int8_t setPin(uint8_t p, bool v) { pin = p; val = v; return 0; }
int main() { StringBuilder a("val 7 -1"); a.split(" "); StringBuilder o; callback_gpio_value(&o, &a); CHECK(7 == pin); CHECK(strstr((char*) o.string(), "high")); CHECK(1 == val); return 0; }
''', 'a negative number is given as the value', 'the pin is set low, and high is reported')
bug('ts-month-31', 'C34', [('src/CppPotpourri.cpp', '(days > 31)', '(days > 30 + (month & 1))')], r'''
int main() { CHECK(1501545599ULL == stringToTimestamp("2017-07-31T23:59:59Z")); CHECK(1504223999ULL == stringToTimestamp("2017-08-31T23:59:59Z")); return 0; }
''', 'the last day of August, October or December', 'the date is refused')
bug('gps-zero-scale', 'C18', [('src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp', "if (c >= 'a' && c <= 'f') return c - 'a' + 10;", "if (c >= 'a' && c <= 'e') return c - 'a' + 10;")], r'''
#include "Pipes/BufferAccepter/GPSWrapper/GPSWrapper.h"
static int n; static int8_t cb(LocationFrame*) { n++; return 0; }
int main() { GPSWrapper g; g.init(); g.setCallback(cb);
  char body[80]; int got = 0;
  for (int k = 0; k < 10; k++) { for (int m = 0; m < 10; m++) { sprintf(body, "GPVTG,054.7,T,034.4,M,005.%d,N,010.%d,K", k, m); uint8_t c = 0; for (char* p = body; *p; p++) c ^= *p; StringBuilder s; s.concatf("$%s*%02x\n", (const char*) body, c); for (int i = 0; i < 4; i++) s.concat("$GPVTG,054.7\n"); int n0 = n; s.concat("                                                                                           \n"); g.pushBuffer(&s); if (n == n0 + 1) got++; } }
  CHECK(100 == got); return 0; }
''', 'a checksum written in lower case that has the digit f', 'the sentence is rejected')
bug('ui-reposition-y', 'C37', [('src/Image/GfxUI/GfxUI.cpp', '  _y += shift_y;\n  if (_children.hasNext()) {', '  _y += shift_y;\n  if (_children.hasNext() && ((int32_t) _x != shift_x)) {')], r'''
#include "Image/Image.h"
#include "Image/GfxUI.h"
struct E : public GfxUIElement { E(GfxUILayout l) : GfxUIElement(l, GfxUIStyle(), 0) {} int _render(UIGfxWrapper*) override { return 0; } bool _notify(const GfxUIEvent, PixUInt, PixUInt, PriorityQueue<GfxUIElement*>*) override { return false; } void add(GfxUIElement* e) { _add_child(e); } };
int main() { E g(GfxUILayout(0, 5, 20, 20)); E b(GfxUILayout(2, 7, 8, 8)); g.add(&b); g.reposition(3, 9); CHECK(b.elementPosX() == 5 && b.elementPosY() == 11); return 0; }
''', 'a group that stands at the left edge is moved', 'its children stay behind')
bug('ui-frame-thick', 'C37', [('src/Image/GfxUI/GfxUI.cpp', 'drawFastVLine((_x+(_w-(1+i))), _y, _h, COLOR);', 'drawFastVLine((_x+(_w-1)+i), _y, _h, COLOR);')], r'''
#include "Image/Image.h"
#include "Image/GfxUI.h"
struct E : public GfxUIElement { E(GfxUILayout l, GfxUIStyle s) : GfxUIElement(l, s, GFXUI_FLAG_DRAW_FRAME_MASK) {} int _render(UIGfxWrapper*) override { return 0; } bool _notify(const GfxUIEvent, PixUInt, PixUInt, PriorityQueue<GfxUIElement*>*) override { return false; } };
int main() { static uint8_t px[32 * 32]; Image im(32, 32, ImgBufferFormat::GREY_8, px); UIGfxWrapper w(&im); GfxUIStyle st; st.color_border = 0x55; E g(GfxUILayout(4, 4, 16, 16, 0, 0, 0, 0, 2, 2, 2, 2), st); g.render(&w, true); CHECK(0 == im.getPixel(20, 8)); CHECK(0 != im.getPixel(18, 8)); return 0; }
''', 'a border of more than one pixel at the right', 'it is drawn outside of the element')
bug('img-flip-rot', 'C22', [('src/Image/Image.cpp', '    *yn = (y() - 1) - *yn;\n', '    *yn = (((ImgOrientation::ROTATION_90 == orientation()) ? x() : y()) - 1) - *yn;\n')], r'''
#include "Image/Image.h"
int main() { static uint8_t px[8 * 4]; Image im(8, 4, ImgBufferFormat::GREY_8, px); im.orientation(ImgOrientation::ROTATION_90); im.flipY(true); CHECK(im.setPixel(1, 6, 7)); CHECK(7 == im.getPixel(1, 6)); return 0; }
''', 'an image that is not square is rotated and flipped', 'pixels are refused')
bug('img-green-low', 'C22', [('src/Image/Image.cpp', '      g = (uint8_t) ((c >> 5) & 0x3F) << 2;', '      g = (uint8_t) ((c >> 6) & 0x1F) << 3;')], r'''
#include "Image/Image.h"
int main() { static uint8_t px[8]; Image im(2, 2, ImgBufferFormat::R5_G6_B5, px); im.setPixel(0, 0, (uint32_t) (0x21 << 5)); CHECK((0x84 << 8) == im.getPixelAsFormat(0, 0, ImgBufferFormat::R8_G8_B8)); return 0; }
''', 'a 16-bit color of odd green is read in another format', 'it loses a bit')
bug('font-offset-size', 'C23', [('src/Image/Image.cpp', 'fillRect(x+(xo16+xx)*size, y+(yo16+yy)*size, size, size, color);', 'fillRect(x+xo16+xx*size, y+(yo16+yy)*size, size, size, color);')], r'''
#include "Image/Image.h"
int main() { static uint8_t px[256], bits[1] = {0x80}; GFXglyph g[1] = {{0, 1, 1, 4, 2, -1}}; GFXfont f = {bits, g, 'A', 'A', 5}; Image im(16, 16, ImgBufferFormat::GREY_8, px); im.setFont(&f); im.setTextColor(7); im.setTextSize(3); im.textWrap(false); im.setCursor(0, 9); im.writeString("A"); CHECK(7 == im.getPixel(6, 6)); CHECK(0 == im.getPixel(5, 6)); return 0; }
''', 'a magnified glyph that begins right of the cursor', 'it is drawn too far left')
bug('conv-int16-top', 'C07', [('src/C3PValue/C3PType.cpp', 'if ((*((int64_t*) src) <= INT16_MAX) & ((*((int64_t*) src) >= INT16_MIN))) {', 'if ((*((int64_t*) src) <= -INT16_MIN) & ((*((int64_t*) src) >= INT16_MIN))) {')], r'''
#include "C3PValue/C3PValue.h"
int main() { C3PValue v(TCode::INT16); v.set((int16_t) 5); CHECK(0 != v.set((int64_t) 32768)); int16_t o = 0; v.get_as(TCode::INT16, &o); CHECK(5 == o); return 0; }
''', 'the least integer that does not fit', 'it becomes negative')
bug('sched-burst', 'C26', [('src/TimerTools/C3PScheduler.h', '      _exec_queue(MAX_SCHEDULE_COUNT),', '      _exec_queue(MAX_SCHEDULE_COUNT >> 1),')], r'''
#include "TimerTools/C3PScheduler.h"
int main() { static int runs; C3PScheduler* sc = C3PScheduler::getInstance(); demo_us = 1000; demo_step = 0; for (int i = 0; i < 6; i++) sc->addSchedule(new C3PScheduledLambda("s", 100 + i, 1, true, []() { runs++; return 0; })); demo_us += 500; sc->advanceScheduler(); sc->serviceSchedules(); CHECK(6 == runs); return 0; }
''', 'more than half as many schedules as there can be come due at once', 'some do not run in that service')
bug('pipe-unwritable', 'C16', [('src/Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.cpp', 'int8_t C3PTypePipeSource::pushValue(KeyValuePair* val) {\n  int8_t ret = -1;\n  if (_push_ok_locally(val)) {\n    ret--;\n    StringBuilder tmp;\n    if (0 == val->serialize(&tmp, _FORMAT)) {\n      ret--;', 'int8_t C3PTypePipeSource::pushValue(KeyValuePair* val) {\n  int8_t ret = -1;\n  if (_push_ok_locally(val)) {\n    ret++;\n    StringBuilder tmp;\n    if (0 == val->serialize(&tmp, _FORMAT)) {\n      ret -= 2;')], r'''
#include "C3PValue/KeyValuePair.h"
#include "Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.h"
int main() { StringBuilderSink wire(64); C3PTypePipeSource src(TCode::STR, &wire); KeyValuePair k("k", (uint32_t) 5); CHECK(0 != src.pushValue(&k)); CHECK(0 == wire.length()); return 0; }
''', 'a pair that can not be written in the format of the pipe', 'it is reported as pushed, and is not')
