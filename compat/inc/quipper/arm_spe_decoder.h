#ifndef VERIF_COMPAT_QUIPPER_ARM_SPE_DECODER_H_
#define VERIF_COMPAT_QUIPPER_ARM_SPE_DECODER_H_
// Stand-in for quipper's SPE decoder: the Record members google/autofdo reads,
// decoded from a fixed-size little-endian layout the harness writes.
#include <cstdint>
#include <cstring>
#include <string>

namespace quipper {
class ArmSpeDecoder {
 public:
  struct Record {
    struct Event {
      bool retired = false;
      bool cond_not_taken = false;
      bool mispredicted = false;
    } event;
    struct Op {
      bool is_br_eret = false;
      struct {
        bool br_cond = false;
        bool br_indirect = false;
      } br_eret;
    } op;
    struct Ip {
      uint64_t addr = 0;
      int el = 0;
      bool ns = false;
    } ip, tgt_br_ip;
    struct Context {
      uint32_t id = 0;
      bool el1 = false;
      bool el2 = false;
    } context;
    uint64_t timestamp = 0;
  };
  static constexpr size_t kWireSize = 8 * 4;

  ArmSpeDecoder(const std::string& buf, bool /*is_cross_endian*/)
      : buf_(buf) {}
  bool NextRecord(Record* r) {
    if (pos_ + kWireSize > buf_.size()) return false;
    uint64_t w[4];
    memcpy(w, buf_.data() + pos_, kWireSize);
    pos_ += kWireSize;
    *r = Record();
    r->ip.addr = w[0];
    r->tgt_br_ip.addr = w[1];
    r->timestamp = w[2];
    r->context.id = static_cast<uint32_t>(w[3] >> 32);
    uint64_t f = w[3] & 0xffffffffu;
    r->event.retired = f & 1;
    r->event.cond_not_taken = f & 2;
    r->op.is_br_eret = f & 4;
    r->op.br_eret.br_cond = f & 8;
    r->context.el1 = f & 16;
    r->context.el2 = f & 32;
    return true;
  }

 private:
  std::string buf_;
  size_t pos_ = 0;
};
}  // namespace quipper
#endif
