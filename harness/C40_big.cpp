//@ reach: done
//@ bounds: and rings of 300 and 1024 bytes, in writes and reads of 1 to 700 bytes at a time, 3000 bytes in all
#include "plat.h"
#include "rt_common.h"
#include "BusQueue/UARTAdapter.h"
struct U : public UARTAdapter {
  U(int t, int r) : UARTAdapter(2, 1, 2, 255, 255, t, r) {}
  int8_t _pf_init() override { _adapter_set_flag(UART_FLAG_UART_READY | UART_FLAG_HAS_TX | UART_FLAG_HAS_RX); return 0; } int8_t _pf_poll() override { return 0; } int8_t _pf_deinit() override { return 0; } void irq_handler() override {}
  int tx() { return _tx_buffer.count() ? _tx_buffer.get() : -1; } bool rx(uint8_t b) { return 0 == _rx_buffer.insert(b); } int push() { return _handle_rx_push(); }
};
struct End : public BufferAccepter { int room = 0, n = 0; uint8_t mark; bool ok = true; int8_t pushBuffer(StringBuilder* b) override; int32_t bufferAvailable() override { return room; } };
static uint8_t mark; static uint8_t val(int i) { return i % 97 == 5 ? mark : (uint8_t) (i * 7 + i / 256); }
int8_t End::pushBuffer(StringBuilder* b) { int l = b->length(); sx_assert(l <= room, "an end is given no more than it has room for"); for (int i = 0; i < l; i++) sx_assert(b->byteAt(i) == val(n + i), "what was received is passed on in order"); n += l; b->clear(); return 1; }
int sx_main() {
  sx_budget(600000000); plat_us_step = 0; uint32_t heap0 = sx_heap_bytes(); mark = sx_u8("mark");
  {
    const int cap = sx_choose(2, "cap") ? 1024 : 300; static const int ST[5] = {1, 63, 255, 256, 700}; const int step = ST[sx_choose(5, "step")]; static const int OUT[4] = {1, 64, 257, 700}; const int out = OUT[sx_choose(4, "out")]; U u(cap, cap); End e; UARTOpts o; memset(&o, 0, sizeof(o)); o.bitrate = 9600; sx_assert(0 == u.init(&o), "an adapter is initialized");
    uint8_t d[700]; int in = 0, got = 0; const int N = step == 1 || out == 1 ? 700 : 3000; const int mode = sx_choose(4, "mode");
    while (got < N) {
      if (mode < 2) {
        int l = step < N - in ? step : N - in, pend = in - got, take = l < cap - pend ? l : cap - pend; for (int i = 0; i < l; i++) d[i] = val(in + i);
        if (l) { if (mode == 0) sx_assert((int) u.write(d, l) == take, "a write tells how much was taken"); else { StringBuilder b; for (int i = 0; i < l; i += 100) b.concat(d + i, l - i < 100 ? l - i : 100); int r = u.pushBuffer(&b); sx_assert(r == (take == 0 ? -1 : take == l ? 1 : 0) && b.length() == l - take, "a push tells whether all was taken"); if (take < l) sx_assert(b.byteAt(0) == val(in + take), "what was not taken is left"); } } in += take;
        sx_assert(u.pendingTxBytes() == in - got && u.bufferAvailable() == cap - (in - got), "what is pending is known"); for (int i = 0; i < out && got < in; i++) { sx_assert(u.tx() == val(got), "what was written is transmitted in order"); got++; } if (got == in) sx_assert(u.tx() == -1, "nothing is transmitted that was not written");
      } else {
        for (int i = 0; i < step && in < N; i++) { bool ok = u.rx(val(in)); sx_assert(ok == (in - got < cap), "the receive ring has its capacity"); if (!ok) break; in++; } sx_assert(u.pendingRxBytes() == in - got, "what is pending is known"); int t = in - got < out ? in - got : out;
        if (mode == 2) { sx_assert((int) u.read(d, out) == t, "a read tells how much was read"); for (int i = 0; i < t; i++) sx_assert(d[i] == val(got + i), "what was received is read in order"); } else if (out == 700) { StringBuilder b; t = in - got; sx_assert(u.read(&b) == t && b.length() == t, "all that was received is read"); for (int i = 0; i < t; i++) sx_assert(b.byteAt(i) == val(got + i), "what was received is read in order"); }
        else { u.readCallback(&e); e.room = out; int n0 = e.n; u.push(); sx_assert(e.n - n0 == t || (e.n - n0 > 0 && e.n - n0 < t), "what was received is passed on"); t = e.n - n0; }
        got += t;
      }
    }
    sx_assert(in == N && got == N && u.pendingRxBytes() == 0 && u.pendingTxBytes() == 0, "all comes through"); sx_reach("done");
  }
  sx_assert(sx_heap_bytes() == heap0, "all memory returned");
  return 0;
}
