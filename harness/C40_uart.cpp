//@ reach: full partial rejected fragmented wrapped received pushed_on rx_partial reset no_tx read_back conf empty_push end_refuses
//@ bounds: rings of 3 (transmit) and 4 (receive) bytes; every sequence of 4 (thorough 5) writes (of buffers in 1 or 2 fragments, arrays and characters), transmissions, receptions, reads and pushes to an end with every room of 0..3 and every willingness to take; every byte value
//@ outside: real hardware, and interrupts during the calls; ends that take more than they announced
#include "plat.h"
#include "rt_common.h"
#include "BusQueue/UARTAdapter.h"
static int inits, deinits; static int pf_ret;
struct U : public UARTAdapter {
  U() : UARTAdapter(2, 1, 2, 255, 255, 3, 4) {} 
  int8_t _pf_init() override { inits++; _adapter_set_flag(UART_FLAG_UART_READY | UART_FLAG_HAS_TX | UART_FLAG_HAS_RX); return 0; } int8_t _pf_poll() override { return pf_ret; } int8_t _pf_deinit() override { deinits++; return 0; } void irq_handler() override {}
  int tx() { return _tx_buffer.count() ? _tx_buffer.get() : -1; } bool rx(uint8_t b) { return 0 == _rx_buffer.insert(b); } int push() { return _handle_rx_push(); } void notx() { _adapter_clear_flag(UART_FLAG_HAS_TX); } bool conf() { return _adapter_flag(UART_FLAG_PENDING_CONF); }
};
struct End : public BufferAccepter { int room = 0, willing = 0; uint8_t got[32]; int n = 0; int8_t pushBuffer(StringBuilder* b) override { int t = b->length(); if (t > room) sx_assert(false, "an end is given no more than it has room for"); if (t > willing) t = willing; for (int i = 0; i < t; i++) got[n++] = b->byteAt(i); int l = b->length(); if (t) b->cull(t); return t == 0 ? -1 : (t < l ? 0 : 1); } int32_t bufferAvailable() override { return room; } };
int sx_main() {
  plat_us_step = 0; inits = deinits = pf_ret = 0; uint32_t heap0 = sx_heap_bytes();
  {
    U u; End e; uint8_t tx[4], rx[8]; int tn = 0, rn = 0, wn = 0; uint8_t sent[40]; UARTOpts o; memset(&o, 0, sizeof(o)); o.bitrate = sx_u32("bitrate"); o.bit_per_word = 8; o.parity = UARTParityBit::EVEN; o.stop_bits = UARTStopBit::STOP_2; o.flow_control = UARTFlowControl::RTS_CTS;
    sx_assert(u.write("x") == 0 && !u.initialized(), "nothing is written before initialization"); sx_assert(u.init(&o) == 0 && u.initialized() && u.bitrate() == o.bitrate && 0 == memcmp(u.uartOpts(), &o, sizeof(o)) && u.conf(), "an adapter has the options it was given"); sx_reach("conf"); u.readCallback(&e); int taken = 0; uint8_t in[40]; int inn = 0;
    bool rxpart = sx_choose(2, "receive"); int quirk = sx_choose(3, "quirk"); if (quirk == 1) { pf_ret = (int8_t) sx_u8("poll"); bool pos = sx_branch(pf_ret > 0), zero = sx_branch(pf_ret == 0); PollResult pr = u.poll(); sx_assert(pr == (zero ? PollResult::NO_ACTION : pos ? PollResult::ACTION : PollResult::ERROR), "a poll tells what the hardware did"); return 0; }
    if (quirk == 2) { u.notx(); StringBuilder b("ab"); sx_assert(u.pushBuffer(&b) == -1 && b.length() == 2 && u.write((char) 'c') == 0 && u.write((uint8_t*) "ab", 2) == 0 && u.pendingTxBytes() == 0, "an adapter that cannot transmit takes nothing"); sx_reach("no_tx"); return 0; }
    for (int k = 0; k < (THOROUGH ? 5 : 4); k++) {
      int op = sx_choose(4, "op"); switch (op == 3 ? 6 : rxpart ? op + 3 : op) {
        case 0: { int l = sx_choose(5, "len"); uint8_t d[4]; for (int i = 0; i < l; i++) d[i] = sx_u8("d"); StringBuilder b; int cut = l > 1 ? sx_choose(2, "cut") : 0; if (cut) { b.concat(d, 1); b.concat(d + 1, l - 1); sx_reach("fragmented"); } else if (l) b.concat(d, l); int room = 3 - tn, take = l < room ? l : room; sx_assert(u.bufferAvailable() == room, "the room is announced"); bool viaw = sx_choose(2, "write"); int r = viaw ? (int) u.write(&b) : u.pushBuffer(&b);
          if (viaw) sx_assert(r == take, "a write tells how much was taken"); else if (take == 0) { sx_assert(r == -1, "what cannot be taken is refused"); sx_reach(l ? "rejected" : "empty_push"); } else { sx_assert(r == (take == l ? 1 : 0), "a push tells whether all was taken"); sx_reach(take == l ? "full" : "partial"); } sx_assert(b.length() == l - take, "what was taken is taken from the front"); for (int i = take; i < l; i++) sx_assert(b.byteAt(i - take) == d[i], "what was not taken is left"); for (int i = 0; i < take; i++) tx[tn++] = d[i]; } break;
        case 1: { uint8_t d[4]; int l = 1 + sx_choose(4, "len"); for (int i = 0; i < l; i++) d[i] = sx_u8("d"); int room = 3 - tn, take = l < room ? l : room; sx_assert((int) u.write(d, l) == take, "a write tells how much was taken"); for (int i = 0; i < take; i++) tx[tn++] = d[i]; uint8_t c = sx_u8("c"); int r = u.write((char) c); sx_assert(r == (tn < 3 ? 1 : 0), "a character is taken when there is room"); if (tn < 3) tx[tn++] = c; } break;
        case 2: { int x = u.tx(); if (tn == 0) { sx_assert(x == -1, "nothing is transmitted that was not written"); break; } sx_assert(x == tx[0], "what was written is transmitted in order"); tn--; for (int i = 0; i < tn; i++) tx[i] = tx[i + 1]; if (++wn > 2) sx_reach("wrapped"); } break;
        case 3: { int l = 1 + sx_choose(3, "n"); for (int i = 0; i < l; i++) { uint8_t v = sx_u8("rx"); bool ok = u.rx(v); sx_assert(ok == (rn < 4), "the receive ring has its capacity"); if (ok) { rx[rn++] = v; in[inn++] = v; } } sx_reach("received"); } break;
        case 4: { if (sx_choose(2, "sb")) { StringBuilder b; int r = u.read(&b); sx_assert(r == rn && b.length() == rn, "all that was received is read"); for (int i = 0; i < rn; i++) sx_assert(b.byteAt(i) == rx[i], "what was received is read in order"); rn = 0; } else { uint8_t d[4] = {1, 1, 1, 1}; int w = 2, t = rn < w ? rn : w; sx_assert((int) u.read(d, w) == t, "a read tells how much was read"); for (int i = 0; i < t; i++) sx_assert(d[i] == rx[i], "what was received is read in order"); sx_assert(d[2] == 1 && d[3] == 1, "no more is read than asked for"); rn -= t; for (int i = 0; i < rn; i++) rx[i] = rx[i + t]; } sx_reach("read_back"); } break;
        case 5: { if (e.n == 0 && k == 1 && sx_choose(2, "no end")) { u.readCallback(nullptr); sx_assert(u.push() == 0 && u.pendingRxBytes() == rn, "without an end, what was received stays"); u.readCallback(&e); break; } e.room = sx_choose(4, "room"); e.willing = e.room ? sx_choose(e.room + 1, "willing") : 0; int t = rn < e.willing ? rn : e.willing, n0 = e.n; int r = u.push(); sx_assert(r == t && e.n == n0 + t, "what the end takes has left the adapter"); for (int i = 0; i < t; i++) sx_assert(e.got[n0 + i] == rx[i], "what was received is passed on in order"); if (t) sx_reach("pushed_on"); if (rn > t && t) sx_reach("rx_partial"); if (rn && e.room && !t) sx_reach("end_refuses"); rn -= t; for (int i = 0; i < rn; i++) rx[i] = rx[i + t]; } break;
        default: { sx_assert(u.reset() == 0 && deinits > 0 && u.initialized(), "a reset initializes the adapter"); tn = rn = 0; sx_reach("reset"); } break;
      }
      sx_assert(u.pendingTxBytes() == tn && u.pendingRxBytes() == rn && u.bufferAvailable() == 3 - tn, "what is pending is known");
    }
    (void) taken; (void) sent;
    while (tn) { sx_assert(u.tx() == tx[0], "what was written is transmitted in order"); tn--; for (int i = 0; i < tn; i++) tx[i] = tx[i + 1]; }
  }
  sx_assert(sx_heap_bytes() == heap0, "all memory returned");
  return 0;
}
