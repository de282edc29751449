//@ reach: done
//@ bounds: and 70 jobs of two devices on an adapter with 20 preallocated operations and more on demand, of which the bus has time for one, many or all at a time
#include "plat.h"
#include "rt_common.h"
#include "BusQueue/I2CAdapter.h"
static int begins, oc_n; static uint8_t mem[300];
int8_t I2CAdapter::_bus_init() { return 0; }
int8_t I2CAdapter::_bus_deinit() { return 0; }
void I2CAdapter::printHardwareState(StringBuilder*) {}
XferFault I2CBusOp::begin() { begins++; set_state(XferState::TX_WAIT); return XferFault::NONE; }
XferFault I2CBusOp::advance(uint32_t) { return XferFault::NONE; }
static int asked, came; static int sub_[200], dev_[200], len_[200]; static bool fault_[200];
struct Dev : public I2CDevice { int id; int again = 0; Dev(int i) : I2CDevice(0x40 + i), id(i) {}
  using I2CDevice::writeX; using I2CDevice::readX;
  int8_t io_op_callback(BusOp* b) override { I2CBusOp* op = (I2CBusOp*) b; sx_assert(came < asked && dev_[came] == id && op->sub_addr == sub_[came] && op->bufferLen() == len_[came] && op->buffer() == mem + len_[came] && op->dev_addr == 0x40 + id, "jobs come back in the order in which they were asked for, as they were asked for"); sx_assert(op->hasFault() == fault_[came], "a job tells whether it failed"); came++; return 0; } };
struct Ad : public I2CAdapter { Ad(const I2CAdapterOptions* o, uint32_t n, uint8_t m) : I2CAdapter(o, n, m) {} uint32_t out() { return (preallocated.capacity() - preallocated.available()) + preallocated.overdraws() - preallocated.overdrawsFreed(); } int depth() { return work_queue.size(); } };
static const I2CAdapterOptions OPTS(3, 1, 2);
int sx_main() {
  sx_budget(100000000); plat_us_step = 0; asked = came = begins = 0; uint32_t heap0 = sx_heap_bytes();
  {
    const int room = sx_choose(2, "room") ? 200 : 30; Ad ad(&OPTS, 20, room); sx_assert(ad.init() == 0, "an adapter is initialized"); Dev* d[2] = { new Dev(0), new Dev(1) }; for (int i = 0; i < 2; i++) d[i]->setAdapter(&ad); const int per = sx_choose(3, "pace"), purge = sx_choose(2, "purge"); int refused = 0;
    for (int k = 0; k < 70; k++) {
      const int w = (k / 3) & 1; const int L = 1 + k; const uint32_t o0 = ad.out(); bool r = k % 4 ? d[w]->writeX(k * 3, L, mem + L) : d[w]->readX(k * 3, L, mem + L);
      sx_assert(r == (o0 < 20u + room), "a job is accepted while there is an operation for it"); if (r) { dev_[asked] = w; sub_[asked] = k * 3; len_[asked] = L; fault_[asked] = asked % 7 == 3; asked++; } else refused++;
      sx_assert(ad.out() == (uint32_t) (asked - came), "each operation is given back when its job is over, and not before");
      for (int p = 0; p < (per == 0 ? 1 : per == 1 ? (k % 20 == 19 ? 30 : 0) : 3); p++) { ad.poll(); I2CBusOp* c = ad.currentJob(); if (c && c->inIOWait() && per != 2 || (c && c->inIOWait() && p == 1)) { if (fault_[came]) c->abort(XferFault::DEV_FAULT); else c->markComplete(); } }
    }
    if (purge) { for (int i = came; i < asked; i++) fault_[i] = true; int before = asked - came; I2CBusOp* c = ad.currentJob(); const int c0 = came; if (c) ad.purge_current_job(); ad.purge_queued_work(); sx_assert(came == c0 + before, "a purge calls back each job that waits"); }
    for (int p = 0; p < 400 && !ad.busIdle(); p++) { ad.poll(); I2CBusOp* c = ad.currentJob(); if (c && c->inIOWait()) { if (fault_[came]) c->abort(XferFault::DEV_FAULT); else c->markComplete(); } }
    sx_assert(came == asked && ad.busIdle() && ad.out() == 0 && ad.depth() == 0, "all jobs are carried out, once"); for (int i = 0; i < 2; i++) delete d[i]; sx_reach("done");
  }
  sx_assert(sx_heap_bytes() == heap0, "all memory returned");
  return 0;
}
