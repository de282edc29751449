//@ reach: queued begun busy failed_begin completed faulted recycled purged_current purged_all purged_dev guarded priority adapter_owned frame_sizes cs_active_high aborted_waiting
//@ bounds: an adapter with 2 preallocated operations and 1 more, queue limit 2, with and without the guard of the queue; every sequence of 6 (thorough 7) requests of 3 priorities, polls, callback services, completions and purges; the platform starts, defers or fails a transfer, and ends it with and without a fault; the owner releases or recycles the operation; chip select active high and low
//@ outside: real bus hardware; requests made from within callbacks other than recycling
#include "plat.h"
#include "rt_common.h"
#include "BusQueue/SPIAdapter.h"
static int begin_mode, begins; static SPIBusOp* began_op; static bool cs_level[2]; static int cs_changes[2]; static int adapter_calls;
int8_t setPin(uint8_t p, bool v) { sx_assert(p < 2, "only the chip select of a device is driven"); sx_assert(cs_level[p] != v, "a pin is driven when it changes"); cs_level[p] = v; cs_changes[p]++; return 0; }
int8_t SPIAdapter::_bus_init() { return 0; }
int8_t SPIAdapter::_bus_deinit() { return 0; }
int8_t SPIAdapter::io_op_callahead(BusOp*) { return 0; }
int8_t SPIAdapter::io_op_callback(BusOp*) { adapter_calls++; return 0; }
void SPIAdapter::printDebug(StringBuilder*) {}
void SPIAdapter::printHardwareState(StringBuilder*) {}
XferFault SPIBusOp::begin() { begins++; began_op = this; switch (begin_mode) { case 0: _assert_cs(true); set_state(XferState::TX_WAIT); return XferFault::NONE; case 1: return XferFault::BUS_BUSY; default: _assert_cs(true); abort(XferFault::BUS_FAULT); return XferFault::BUS_FAULT; } }
int8_t SPIBusOp::advance_operation(uint32_t, uint8_t) { return 0; }
struct Cli; struct Job { Cli* d; SPIBusOp* op; int pri; uint8_t* buf; int len; XferFault fault; };
static Job wq[6], cq[6], cur; static bool has_cur; static int wn, cn, done, reply; static bool purging; static int recycles;
static void ins(Job* q, int& n, const Job& j) { int i = n; while (i > 0 && q[i - 1].pri < j.pri) { q[i] = q[i - 1]; i--; } q[i] = j; n++; }
static Job take(Job* q, int& n) { Job j = q[0]; n--; for (int i = 0; i < n; i++) q[i] = q[i + 1]; return j; }
static Job exp_cb[6]; static int exp_n;
struct Cli : public BusOpCallback {
  int8_t io_op_callahead(BusOp*) override { return 0; } int8_t queue_io_job(BusOp*) override { return -1; }
  int8_t io_op_callback(BusOp* b) override { SPIBusOp* op = (SPIBusOp*) b; done++; sx_assert(exp_n > 0, "only an outstanding job is called back, once"); Job j = take(exp_cb, exp_n); sx_assert(j.op == op && j.d == this, "jobs are called back in order, to whom asked for them"); sx_assert(op->isComplete() && op->getFault() == j.fault && op->hasFault() == (j.fault != XferFault::NONE), "a job tells what became of it"); sx_assert(op->buffer() == j.buf && op->bufferLen() == j.len, "a job comes back as it was asked for"); sx_assert(!op->csAsserted(), "a job that is over has released its device"); return (int8_t) reply; }
};
struct Ad : public SPIAdapter { Ad() : SPIAdapter(1, 9, 9, 9, 2, 2) {} void guard(bool x) { _adapter_set_flag(SPI_FLAG_QUEUE_GUARD, x); } uint32_t out() { return (preallocated.capacity() - preallocated.available()) + preallocated.overdraws() - preallocated.overdrawsFreed(); } int depth() { return work_queue.size(); } };
int sx_main() {
  plat_us_step = 0; wn = cn = exp_n = done = reply = begins = begin_mode = adapter_calls = recycles = 0; has_cur = purging = false; static uint8_t mem[8]; bool ah = sx_choose(2, "active high"); cs_level[0] = !ah; cs_level[1] = true; cs_changes[0] = cs_changes[1] = 0; uint32_t heap0 = sx_heap_bytes();
  {
    Ad ad; sx_assert(ad.init() == 0 && ad.busOnline() && ad.allQueuesClear(), "an adapter that was initialized is online and idle"); Cli c[2]; int made = 0; bool guard = sx_choose(2, "guard"); ad.guard(guard); if (ah) sx_reach("cs_active_high");
    if (sx_choose(2, "part") == 0) {
      SPIBusOp* op = ad.new_op(BusOpcode::TX, nullptr); uint8_t f = sx_u8("frame"); int r = op->bitsPerFrame((SPIFrameSize) f); if (sx_branch(f > 4)) sx_assert(r != 0 && op->bitsPerFrame() == 8, "an unknown frame size is refused"); else { static const uint8_t B[] = {8, 9, 16, 24, 32}; int i = 0; while (i < 4 && !sx_branch(f == i)) i++; sx_assert(r == 0 && op->bitsPerFrame() == B[i], "frames have the size that was asked for"); } sx_reach("frame_sizes");
      op->cpol(true); op->maxFreq(123456); op->setCSPin(1); op->setParams(1, 2, 3, 4, 5); sx_assert(op->transferParamLength() == 5 && op->getTransferParam(4) == 5 && op->getTransferParam(5) == 0 && op->cpol() && !op->cpha(), "parameters are kept"); op->setBuffer(mem, 4);
      sx_assert(0 == ad.queue_io_job(op) && op->isQueued() && op->callback == (BusOpCallback*) &ad, "a job without an owner is the adapter's"); sx_assert(ad.queue_io_job(op) != 0 && ad.depth() == 1, "a job is queued once"); sx_assert(ad.queue_io_job(nullptr) != 0, "no job is refused"); ad.poll(); op->markComplete(); ad.poll(); sx_assert(ad.service_callback_queue() == 1 && adapter_calls == 1 && ad.out() == 0, "a job is called back and given back"); sx_reach("adapter_owned");
      SPIBusOp* op2 = ad.new_op(BusOpcode::RX, &c[0]); SPIBusOp* op3 = ad.new_op(BusOpcode::RX, &c[0]); sx_assert(op2 != op3, "operations are given once"); SPIBusOp* u = op3 == op ? op3 : op2; sx_assert(u == op && u->transferParamLength() == 0 && u->getCSPin() == 255 && u->bitsPerFrame() == 8 && !u->cpol() && !u->csActiveHigh() && u->maxFreq() == 0 && u->buffer() == nullptr && !u->hasFault() && u->isIdle(), "an operation that was used before is as good as new"); op2->abort(); ad.queue_io_job(op2); wn = cn = 0;
      exp_n = 0; 
      return 0;
    }
    for (int k = 0; k < (THOROUGH ? 7 : 6); k++) {
      switch (k == 0 ? 0 : sx_choose(6, "op")) {
        case 0: { int w = made & 1; int pri = sx_choose(2, "priority") * 3; SPIBusOp* op = ad.new_op(BusOpcode::TX, &c[w]); if (!op) { sx_assert(has_cur + wn + cn >= 3, "operations are available up to the limit"); break; } op->setCSPin(w); if (w == 0) op->csActiveHigh(ah); op->setBuffer(mem + made, made + 1); Job j = {&c[w], op, pri, mem + made, made + 1, XferFault::NONE}; made++; bool full = guard && wn >= 2; int r = ad.queue_io_job(op, pri); if (full) { sx_assert(r != 0 && op->isComplete(), "a job that the queue has no room for is refused"); j.fault = XferFault::QUEUE_FLUSH; ins(cq, cn, j); sx_reach("guarded"); } else { sx_assert(r == 0 && op->isQueued(), "a job is queued"); ins(wq, wn, j); sx_reach("queued"); if (wn > 1 && wq[wn - 1].op != op) sx_reach("priority"); } } break;
        case 1: { begin_mode = sx_choose(3, "begin"); int b0 = begins; bool starts = false; SPIBusOp* exp = nullptr; if (!has_cur && wn) { cur = take(wq, wn); has_cur = true; starts = true; } else if (has_cur && cur.op->isQueued()) starts = true; bool over = has_cur && !starts && cur.op->isComplete(); if (starts) exp = cur.op;
          ad.poll(); sx_assert(begins == b0 + (starts ? 1 : 0), "the bus carries out one job at a time"); if (starts) { sx_assert(began_op == exp, "jobs are carried out by priority, and then in the order in which they were asked for"); if (begin_mode == 2) { cur.fault = XferFault::BUS_FAULT; cur.pri = 0; ins(cq, cn, cur); has_cur = false; sx_reach("failed_begin"); } else if (begin_mode == 1) { sx_assert(cur.op->isQueued(), "a job waits while the bus is busy"); sx_reach("busy"); } else sx_reach("begun"); } if (over) { cur.pri = 0; ins(cq, cn, cur); has_cur = false; } } break;
        case 2: { if (!has_cur || !cur.op->inIOWait()) break; if (sx_choose(2, "fault")) { cur.op->abort(XferFault::DEV_FAULT); cur.fault = XferFault::DEV_FAULT; sx_reach("faulted"); } else { cur.op->markComplete(); sx_reach("completed"); } } break;
        case 3: { reply = cn ? (recycles < 1 ? sx_choose(2, "reply") : 0) : 0; int d0 = done, n0 = cn; Job j{}; if (cn) { j = take(cq, cn); exp_cb[0] = j; exp_n = 1; } int r = ad.service_callback_queue(); sx_assert(r == (n0 ? 1 : 0) && done == d0 + r && exp_n == 0, "one job is called back at each service"); if (n0 && reply == 1) { recycles++; sx_reach("recycled"); j.pri = 0; j.fault = XferFault::NONE; if (guard && wn >= 2) { j.fault = XferFault::QUEUE_FLUSH; ins(cq, cn, j); } else ins(wq, wn, j); } reply = 0; } break;
        case 4: { int d0 = done; bool some = has_cur; if (some) { if (cur.op->isQueued()) sx_reach("aborted_waiting"); cur.fault = XferFault::QUEUE_FLUSH; exp_cb[0] = cur; exp_n = 1; has_cur = false; sx_reach("purged_current"); } ad.purge_current_job(); sx_assert(done == d0 + some && !ad.currentJob(), "purging the current job calls it back and clears it"); } break;
        default: { int who = sx_choose(3, "whose"), d0 = done, n = 0; Job keep[6]; int kn = 0; exp_n = 0; for (int i = 0; i < wn; i++) if (who == 2 || wq[i].d == &c[who]) { exp_cb[exp_n] = wq[i]; exp_cb[exp_n++].fault = XferFault::QUEUE_FLUSH; n++; } else keep[kn++] = wq[i]; if (who == 2) { ad.purge_queued_work(); if (n) sx_reach("purged_all"); } else { sx_assert(ad.purge_queued_work_by_dev(&c[who]) == n, "a purge tells how many jobs it purged"); if (n) sx_reach("purged_dev"); } sx_assert(done == d0 + n && exp_n == 0, "a purge calls back each job that waits, of that device, and no other"); for (int i = 0; i < kn; i++) wq[i] = keep[i]; wn = kn; } break;
      }
      sx_assert(ad.out() == (unsigned) (has_cur + wn + cn), "each operation is given back when its job is over, and not before"); sx_assert(ad.depth() == wn && (ad.currentJob() != nullptr) == has_cur && ad.busIdle() == (wn + has_cur == 0) && ad.allQueuesClear() == (wn + has_cur + cn == 0), "a bus without jobs is idle"); bool in = has_cur && cur.op->inIOWait(); for (int i = 0; i < 2; i++) { bool act = in && cur.d == &c[i]; sx_assert(cs_level[i] == (i == 0 && ah ? act : !act), "the chip select of a device is active while its job is on the bus"); }
    }
    for (int i = 0; i < wn; i++) { exp_cb[i] = wq[i]; exp_cb[i].fault = XferFault::QUEUE_FLUSH; } exp_n = wn; ad.purge_queued_work(); if (has_cur) { cur.fault = XferFault::QUEUE_FLUSH; exp_cb[0] = cur; exp_n = 1; } ad.purge_current_job(); while (cn) { exp_cb[0] = take(cq, cn); exp_n = 1; ad.service_callback_queue(); } sx_assert(ad.allQueuesClear() && ad.out() == 0, "a purged bus is idle, and has all its operations");
  }
  sx_assert(sx_heap_bytes() == heap0, "all memory returned");
  return 0;
}
