// Reading library objects through their public interface.
#pragma once
#include "curve.hh"
#include "oracle.hh"
#include <memory>

namespace glue {
using orc::u32; using orc::u64;

// element at index ix as base-p digits
inline u32 element(const FqElementTable & t, u32 p, u32 e, u32 ix) {
  u32 r = 0; for (int i = (int)e - 1; i >= 0; --i) r = r * p + (u32)nmod_poly_get_coeff_ui(t.at(ix), i); return r;
}
// The field represented by an element table, with oracle arithmetic; modulus read off the table.
struct BaseField {
  std::shared_ptr<FqElementTable> table; u32 p, e, q; std::unique_ptr<orc::Field> K;
  std::vector<u32> at, index; // index -> element, element -> index
  bool ok = true; std::string why;
  BaseField(u32 p_, u32 e_) : table(std::make_shared<FqElementTable>(p_, e_)), p(p_), e(e_), q((u32)orc::ipow(p_, e_)), at(q), index(q, ~0u) {
    for (u32 i = 0; i < q; ++i) { at[i] = element(*table, p, e, i); if (at[i] < q) index[at[i]] = i; }
    for (u32 a = 0; a < q; ++a) if (index[a] == ~0u) { ok = false; why = "element missing from the table"; return; }
    if (table->zero_index() >= q || at[table->zero_index()] != 0) { ok = false; why = "zero index does not hold zero"; return; }
    if (e == 1) K.reset(new orc::Field(p, 1));
    else {
      // T^e as a power of the index of T, assuming exponent arithmetic (verified by check())
      u64 t = index[p]; u32 te = at[(t * e) % (q - 1)]; std::vector<u32> mod(e);
      for (u32 i = 0; i < e; ++i) { mod[i] = te % p; te /= p; }
      K.reset(new orc::Field(p, mod));
      if (!K->ok()) { ok = false; why = "table does not describe a field"; return; }
    }
  }
  // table[i] = table[1]^i for 0 <= i < q-1
  bool check() {
    if (!ok) return false;
    if (table->zero_index() != q - 1) { ok = false; why = "zero index is not q-1"; return false; }
    if (at[0] != 1) { ok = false; why = "index 0 is not one"; return false; }
    for (u32 i = 0; i + 1 < q - 1; ++i) if (at[i + 1] != K->mul(at[i], at[q > 2 ? 1 % (q - 1) : 0])) { ok = false; why = "not the powers of one generator at index " + std::to_string(i + 1); return false; }
    return true;
  }
};
} // namespace glue
