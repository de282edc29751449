//@ reach: queued begun immediate deferred failed_begin completed faulted recycled purged_current purged_dev purged_all gone_in_flight overdrawn starved direct ping_sweep heap_buffer user_op fifo
//@ bounds: an adapter with 1 preallocated operation and up to 2 more, 2 devices; every sequence of 5 (thorough 6) requests, polls, completions, purges and removals of a device, with and without dispatch on queuing; the platform starts a transfer, ends it at once, defers it, or fails it, and ends it with and without a fault; the owner releases or recycles the operation; every subaddress and buffer address
//@ outside: real bus hardware; requests made from within callbacks other than recycling; more than 255 preallocated operations; a limit on the queue (I2C has none)
#include "plat.h"
#include "rt_common.h"
#include "BusQueue/I2CAdapter.h"
struct Dev; static int begin_mode; static int begins; static I2CBusOp* began_op; static int pings_seen;
int8_t I2CAdapter::_bus_init() { return 0; }
int8_t I2CAdapter::_bus_deinit() { return 0; }
void I2CAdapter::printHardwareState(StringBuilder*) {}
XferFault I2CBusOp::begin() { begins++; began_op = this; switch (begin_mode) { case 0: set_state(XferState::TX_WAIT); return XferFault::NONE; case 1: markComplete(); return XferFault::NONE; case 2: return XferFault::BUS_BUSY; default: abort(XferFault::BUS_FAULT); return XferFault::BUS_FAULT; } }
XferFault I2CBusOp::advance(uint32_t) { return XferFault::NONE; }
struct Job { Dev* d; I2CBusOp* op; int sub; uint8_t* buf; int len; BusOpcode oc; };
static Job q[8]; static int qn; static bool active; static int done, expect_done; static XferFault want; static int want_n; static int reply;
static void pop(int i) { for (int k = i; k + 1 < qn; k++) q[k] = q[k + 1]; qn--; }
struct Dev : public I2CDevice {
  int id; int calls = 0; Dev(int i) : I2CDevice(0x40 + i), id(i) {}
  int8_t io_op_callback(BusOp* b) override { I2CBusOp* op = (I2CBusOp*) b; calls++; done++; int i = 0; while (i < qn && q[i].op != op) i++; sx_assert(i < qn, "only an outstanding job is called back, once"); sx_assert(q[i].d == this, "a job is called back to the device that asked for it"); sx_assert(op->isComplete(), "a job is called back when it is over"); sx_assert(op->dev_addr == _dev_addr && op->sub_addr == (int16_t) q[i].sub && op->buffer() == q[i].buf && op->bufferLen() == q[i].len && op->get_opcode() == q[i].oc, "a job comes back as it was asked for"); sx_assert(op->getFault() == want, "a job tells what became of it"); Job j = q[i]; pop(i); if (reply == BUSOP_CALLBACK_RECYCLE && want_n == 0) { q[qn++] = j; sx_reach("recycled"); } return (int8_t) reply; }
  using I2CDevice::writeX; using I2CDevice::readX; using I2CDevice::ping_device;
};
struct Ad : public I2CAdapter {
  Ad(const I2CAdapterOptions* o, uint32_t n, uint8_t m) : I2CAdapter(o, n, m) {} void direct(bool x) { _pf_dispatch_on_queue(x); } uint32_t out() { return (preallocated.capacity() - preallocated.available()) + preallocated.overdraws() - preallocated.overdrawsFreed(); } int depth() { return work_queue.size(); } I2CBusOp* queued(int i) { return work_queue.get(i); }
  int8_t io_op_callback(BusOp* b) override { I2CBusOp* op = (I2CBusOp*) b; if (op->get_opcode() == BusOpcode::TX_CMD) pings_seen++; return I2CAdapter::io_op_callback(b); }
};
static const I2CAdapterOptions OPTS(3, 1, 2);
static void over(XferFault f) { want = f; }
int sx_main() {
  plat_us_step = 0; qn = 0; active = false; done = expect_done = 0; want_n = 0; reply = 0; want = XferFault::NONE; begins = 0; begin_mode = 0; pings_seen = 0; uint32_t heap0 = sx_heap_bytes(); static uint8_t mem[8];
  {
    Ad ad(&OPTS, 1, 2); sx_assert(!ad.busOnline() && ad.init() == 0 && ad.busOnline() && !ad.busError() && ad.busIdle() && ad.adapterNumber() == 3, "an adapter that was initialized is online and idle");
    int part = sx_choose(3, "part");
    if (part == 0) { // ping sweep
      uint8_t from = sx_u8("addr"); sx_assume(from >= 120 && from < 128); ad.ping_slave_addr(from); begin_mode = 0; int n = 0; for (int k = 0; k < 20 && !ad.busIdle(); k++) { ad.poll(); if (ad.currentJob()) { bool present = (n % 3) == 1; if (present) ad.currentJob()->markComplete(); else ad.currentJob()->abort(XferFault::DEV_NOT_FOUND); n++; } }
      sx_assert(ad.busIdle() && pings_seen == 128 - from && n == 128 - from, "a sweep pings each address from the first to the last, once"); sx_assert(ad.out() == 0, "each operation is given back"); StringBuilder o; ad.printPingMap(&o); int star = 0, dot = 0; const char* s = (const char*) o.string(); for (int i = 0; s[i]; i++) { if (s[i] == '*') star++; if (s[i] == '.') dot++; } sx_assert(star == (n + 1) / 3 && dot == n - star, "the map shows which addresses answered"); sx_reach("ping_sweep"); 
    } else if (part == 1) { // memory of operations and buffers
      Dev d(0); d.setAdapter(&ad); I2CBusOp op1(BusOpcode::TX, 0x22, 5, mem, 3); sx_assert(op1.dev_addr == 0x22 && op1.sub_addr == 5 && op1.need_to_send_subaddr() && op1.buffer() == mem && op1.bufferLen() == 3 && op1.isIdle() && op1.get_opcode() == BusOpcode::TX, "an operation is as constructed");
      I2CBusOp op(BusOpcode::RX, &d); op.dev_addr = 0x40; op.shouldReap(false); op.setBuffer(mem, 2); q[qn++] = Job{&d, &op, -1, mem, 2, BusOpcode::RX}; sx_assert(d.queue_io_job(&op) == 0 && op.isQueued(), "a job is queued"); sx_assert(d.queue_io_job(&op) != 0 && ad.depth() == 1, "a job is queued once"); begin_mode = 1; ad.poll(); ad.poll(); sx_assert(done == 1 && op.isIdle() && op.buffer() == mem && ad.busIdle(), "an operation of the user's remains with the user"); sx_reach("user_op");
      I2CBusOp* h = ad.new_op(BusOpcode::TX, &d); h->dev_addr = 0x40; bool some = sx_choose(2, "some"); uint8_t* hb = some ? (uint8_t*) malloc(4) : nullptr; h->setBuffer(hb, some ? 4 : 0); h->shouldFreeBuffer(true); q[qn++] = Job{&d, h, -1, hb, some ? 4 : 0, BusOpcode::TX}; uint32_t hp = sx_heap_bytes(); sx_assert(d.queue_io_job(h) == 0, "a job is queued"); ad.poll(); ad.poll(); sx_assert(done == 2 && ad.out() == 0, "each operation is given back"); (void) hp; sx_reach("heap_buffer");
      I2CBusOp* g = ad.new_op(BusOpcode::RX, &d); sx_assert(g->buffer() == nullptr && g->bufferLen() == 0 && !g->hasFault() && g->isIdle() && g->sub_addr == -1 && g->dev_addr == 0 && !g->shouldFreeBuffer() && g->callback == &d && g->get_opcode() == BusOpcode::RX, "an operation that was used before is as good as new"); g->dev_addr = 0x40; q[qn++] = Job{&d, g, -1, mem, 1, BusOpcode::RX}; g->setBuffer(mem, 1); d.queue_io_job(g); ad.poll(); ad.poll(); sx_assert(done == 3, "a job is carried out");
      q[qn++] = Job{&d, nullptr, -1, nullptr, 0, BusOpcode::TX_CMD}; sx_assert(d.ping_device() && ad.depth() == 1, "a ping is accepted"); q[qn - 1].op = ad.queued(0); int p0 = pings_seen; ad.poll(); ad.poll(); sx_assert(done == 4 && pings_seen == p0 && ad.busIdle() && ad.out() == 0, "a ping of a device is carried out and called back to it");
      Dev lone(1); sx_assert(!lone.writeX(0, 1, mem) && !lone.readX(0, 1, mem) && !lone.ping_device(), "a device without a bus asks for nothing");
    } else {
      Dev* d[2] = {new Dev(0), new Dev(1)}; for (int i = 0; i < 2; i++) d[i]->setAdapter(&ad); bool direct = sx_choose(2, "direct"); ad.direct(direct); int nreq = 0;
      for (int k = 0; k < (THOROUGH ? 6 : 5); k++) {
        switch (k == 0 ? 0 : sx_choose(6, "op")) {
          case 0: {
            int w = sx_choose(2, "dev"); if (!d[w]) break; int kind = k & 1; int sub = (int16_t) sx_u16("sub"); Job j = {d[w], nullptr, sub, mem + (nreq & 3), 1 + (nreq & 3), kind ? BusOpcode::RX : BusOpcode::TX}; bool dispatch = direct && !ad.currentJob(); begin_mode = dispatch ? sx_choose(4, "begin") : 0; int b0 = begins; uint32_t out0 = ad.out();
            bool r = kind ? d[w]->readX(sub, j.len, j.buf) : d[w]->writeX(sub, j.len, j.buf); if (out0 == 3) { sx_assert(!r && ad.out() == 3, "a job that there is no operation for is refused"); sx_reach("starved"); break; } sx_assert(r, "a job is accepted"); if (out0 > 0) sx_reach("overdrawn"); nreq++;
            if (dispatch) { sx_assert(begins == b0 + 1 && ad.currentJob() == began_op, "on an idle bus that dispatches at once, a job begins when it is queued"); j.op = began_op; sx_reach("direct"); } else { j.op = ad.queued(ad.depth() - 1); sx_assert(begins == b0 && j.op->isQueued(), "a job waits for its turn"); sx_reach("queued"); } q[qn++] = j;
          } break;
          case 1: {
            I2CBusOp* cur = ad.currentJob(); bool over0 = cur && cur->isComplete(), orph = cur && !cur->callback; if (over0) { want = cur->getFault(); reply = sx_choose(2, "reply"); } begin_mode = sx_choose(4, "begin"); int d0 = done, b0 = begins, n0 = qn; I2CBusOp* next = nullptr; for (int i = 0; i < qn; i++) if (q[i].op != cur) { next = q[i].op; break; } bool waiting = cur && !over0 && (cur->isIdle() || cur->isQueued()); if (over0 && !orph && !next && reply == 1) next = cur;
            ad.poll(); sx_assert(done == d0 + (over0 && !orph ? 1 : 0), "a job that is over is called back at the next poll, one that is not is not"); bool starts = waiting || ((over0 || !cur) && next); sx_assert(begins == b0 + (starts ? 1 : 0), "the bus carries out one job at a time"); (void) n0;
            if (starts) { sx_assert(began_op == (waiting ? cur : next) && ad.currentJob() == began_op, "jobs are carried out in the order in which they were asked for"); if (!waiting && qn > 1) sx_reach("fifo"); sx_reach("begun"); if (begin_mode == 1) sx_reach("immediate"); if (begin_mode == 2) sx_reach("deferred"); if (begin_mode == 3) sx_reach("failed_begin"); }
          } break;
          case 2: { I2CBusOp* cur = ad.currentJob(); if (!cur || !cur->inIOWait()) break; if (sx_choose(2, "fault")) { cur->abort(XferFault::DEV_FAULT); sx_reach("faulted"); } else { cur->markComplete(); sx_reach("completed"); } } break;
          case 3: { I2CBusOp* cur = ad.currentJob(); bool called = cur && cur->callback; int d0 = done; want = XferFault::QUEUE_FLUSH; want_n = 1; reply = 1; ad.purge_current_job(); want_n = 0; reply = 0; sx_assert(done == d0 + (called ? 1 : 0) && !ad.currentJob(), "purging the current job calls it back and clears it"); if (cur) sx_reach("purged_current"); } break;
          case 4: { int w = sx_choose(3, "whose"); if (w < 2 && !d[w]) break; int n = 0, d0 = done; for (int i = 0; i < qn; i++) if (q[i].op != ad.currentJob() && (w == 2 || q[i].d == d[w])) n++; want = XferFault::QUEUE_FLUSH; want_n = 1; reply = 1; if (w < 2) sx_assert(ad.purge_queued_work_by_dev(d[w]) == n, "a purge tells how many jobs it purged"); else ad.purge_queued_work(); want_n = 0; reply = 0; sx_assert(done == d0 + n, "a purge calls back each job that waits, of that device, and no other"); if (n) sx_reach(w < 2 ? "purged_dev" : "purged_all"); } break;
          default: { int w = 1; if (!d[w]) break; if (ad.currentJob() && ad.currentJob()->callback == d[w]) sx_reach("gone_in_flight"); for (int i = 0; i < qn; i++) if (q[i].d == d[w]) { pop(i); i--; } delete d[w]; d[w] = nullptr; } break;
        }
        int inflight = 0; for (int i = 0; i < qn; i++) inflight++; bool orphan = ad.currentJob() != nullptr; for (int i = 0; i < qn; i++) if (q[i].op == ad.currentJob()) orphan = false;
        sx_assert(ad.out() == (unsigned) inflight + (orphan ? 1 : 0), "each operation is given back when its job is over, and not before"); sx_assert(ad.busIdle() == (inflight + orphan == 0), "a bus without jobs is idle"); sx_assert(ad.depth() == inflight + orphan - (ad.currentJob() ? 1 : 0), "what is not carried out waits");
      }
      want = XferFault::QUEUE_FLUSH; want_n = 1; reply = 0; ad.purge_queued_work(); ad.purge_current_job(); sx_assert(qn == 0 && ad.out() == 0 && ad.busIdle(), "a purged bus is idle, and has all its operations"); for (int i = 0; i < 2; i++) if (d[i]) delete d[i];
    }
  }
  sx_assert(sx_heap_bytes() == heap0, "all memory returned");
  return 0;
}
