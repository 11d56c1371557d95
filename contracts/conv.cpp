// Contracts of the channel conversions (ichannelconversion.cpp/.h,
// cc4block.cpp, cc3block.cpp): the engineering value is the documented function
// of the channel value, and is reported invalid exactly when the formula has
// too few parameters or divides by zero.
#include "vp.h"
#include <cmath>
#include <sstream>
#include "mdf/ichannelconversion.h"
#include "cc4block.h"
#include "cc3block.h"
#include "memfile.h"
using namespace mdf;
using mdf::detail::Cc3Block;
using mdf::detail::Cc4Block;
namespace {
bool Same(double a, double b) { return vp_dbits(a) == vp_dbits(b) || (a != a && b != b); }
// Stores the block the way the writer does, which fixes its parameter count.
template <typename B> void Store(B& cc) {
  MemFile file;
  cc.Write(file);
}
struct Param { double p[8]; };
void SetParams(IChannelConversion& cc, const Param& q, unsigned n) {
  for (unsigned i = 0; i < n; ++i) cc.Parameter(static_cast<uint16_t>(i), q.p[i]);
}
Param AnyParams() {
  Param q;
  static const char* name[8] = {"p0", "p1", "p2", "p3", "p4", "p5", "p6", "p7"};
  for (int i = 0; i < 8; ++i) q.p[i] = vp_nd_double(name[i]);
  return q;
}
struct Out { bool valid; double value; };
Out Spec(ConversionType t, const double* P, unsigned n, double x) {
  switch (t) {
    case ConversionType::Linear:
      if (n == 0) return {false, 0};
      if (n == 1) return {true, P[0]};
      return {true, P[1] * x + P[0]};
    case ConversionType::Rational: {
      if (n < 6) return {false, 0};
      const double num = P[0] * std::pow(x, 2) + P[1] * x + P[2];
      const double div = P[3] * std::pow(x, 2) + P[4] * x + P[5];
      if (div == 0.0) return {false, 0};
      return {true, num / div};
    }
    case ConversionType::Polynomial: {
      if (n < 6) return {false, 0};
      const double y = x - P[4] - P[5];
      const double div = P[2] * y - P[0];
      if (div == 0.0) return {false, 0};
      return {true, (P[1] - P[3] * y) / div};
    }
    case ConversionType::Exponential:
    case ConversionType::Logarithmic: {
      if (n < 7) return {false, 0};
      const bool ln = t == ConversionType::Logarithmic;
      if (P[3] == 0.0) {
        if (P[0] == 0.0 || P[1] == 0.0) return {false, 0};
        const double y = ((x - P[6]) * P[5] - P[2]) / P[0];
        return {true, (ln ? std::log(y) : std::exp(y)) / P[1]};
      }
      if (P[0] == 0.0) {
        if (x - P[6] == 0.0 || P[4] == 0.0) return {false, 0};
        const double y = (P[2] / (x - P[6]) - P[5]) / P[3];
        return {true, (ln ? std::log(y) : std::exp(y)) / P[4]};
      }
      return {false, 0};
    }
    default: return {true, x};
  }
}
template <typename T> void CheckFormula(const IChannelConversion& cc, const Param& q, unsigned n, T ch) {
  double eng = 0;
  const bool valid = cc.Convert(ch, eng);
  const Out want = Spec(cc.Type(), q.p, n, static_cast<double>(ch));
  vp_assert(valid == want.valid, "conversion is invalid exactly when undefined");
  if (want.valid) {
    vp_assert(Same(eng, want.value), "engineering value is the documented formula of the channel value");
    vp_reach("valid");
  } else {
    vp_reach("invalid");
  }
}
}  // namespace

VP_CONTRACT(conv_formula) {
  static const ConversionType kind[6] = {ConversionType::NoConversion, ConversionType::Linear, ConversionType::Rational,
                                         ConversionType::Polynomial, ConversionType::Exponential, ConversionType::Logarithmic};
  const ConversionType t = kind[vp_choose(6, "kind")];
  const unsigned n = static_cast<unsigned>(vp_choose(8, "parameters"));
  const Param q = AnyParams();
  const unsigned source = static_cast<unsigned>(vp_choose(3, "value"));
  const bool mdf3 = vp_choose(2, "mdf3") != 0;
  Cc4Block cc4;
  Cc3Block cc3;
  IChannelConversion& cc = mdf3 ? static_cast<IChannelConversion&>(cc3) : static_cast<IChannelConversion&>(cc4);
  cc.Type(t);
  SetParams(cc, q, n);
  vp_assert(cc.Type() == t, "conversion type is kept");
  if (source == 0) CheckFormula<double>(cc, q, n, vp_nd_double("channel"));
  if (source == 1) CheckFormula<uint64_t>(cc, q, n, vp_nd_u64("channel"));
  if (source == 2) CheckFormula<int64_t>(cc, q, n, static_cast<int64_t>(vp_nd_u64("channel")));
}

namespace {
constexpr unsigned kRows = 4;
struct Table { double key[kRows], upper[kRows], value[kRows + 1]; };
Table AnyTable() {
  static const char* k[kRows] = {"key0", "key1", "key2", "key3"};
  static const char* u[kRows] = {"upper0", "upper1", "upper2", "upper3"};
  static const char* v[kRows + 1] = {"value0", "value1", "value2", "value3", "value4"};
  Table t;
  for (unsigned i = 0; i < kRows; ++i) t.key[i] = vp_nd_double(k[i]);
  for (unsigned i = 0; i < kRows; ++i) t.upper[i] = vp_nd_double(u[i]);
  for (unsigned i = 0; i <= kRows; ++i) t.value[i] = vp_nd_double(v[i]);
  return t;
}
double AnyChannel(bool integer) {
  double ch = integer ? static_cast<double>(static_cast<int32_t>(vp_nd_u32("channel"))) : vp_nd_double("channel");
  vp_assume(ch == ch);
  return ch;
}
}  // namespace

// Key to value tables with increasing keys, as the standard requires.
VP_CONTRACT(conv_value_table) {
  const bool interpolate = vp_choose(2, "interpolate") != 0;
  const unsigned rows = 1 + static_cast<unsigned>(vp_choose(kRows, "rows"));
  const bool mdf3 = vp_choose(2, "mdf3") != 0;
  const Table t = AnyTable();
  for (unsigned i = 0; i + 1 < rows; ++i) vp_assume(t.key[i] < t.key[i + 1]);
  vp_assume(t.key[0] == t.key[0]);
  const double inf = HUGE_VAL;
  vp_assume(t.key[0] > -inf && t.key[rows - 1] < inf);
  Cc4Block cc4;
  Cc3Block cc3;
  IChannelConversion& cc = mdf3 ? static_cast<IChannelConversion&>(cc3) : static_cast<IChannelConversion&>(cc4);
  cc.Type(interpolate ? ConversionType::ValueToValueInterpolation : ConversionType::ValueToValue);
  for (unsigned i = 0; i < rows; ++i) {
    cc.Parameter(static_cast<uint16_t>(2 * i), t.key[i]);
    cc.Parameter(static_cast<uint16_t>(2 * i + 1), t.value[i]);
  }
  if (mdf3) Store(cc3); else Store(cc4);
  const double ch = AnyChannel(false);
  double eng = 0;
  const bool valid = cc.Convert(ch, eng);
  vp_assert(valid, "a table conversion is valid");
  double want = t.value[rows - 1];
  if (ch <= t.key[0]) {
    want = t.value[0];
    vp_reach("below");
  } else {
    for (unsigned i = 0; i + 1 < rows; ++i) {
      if (ch == t.key[i + 1]) {
        want = t.value[i + 1];
        vp_reach("on a key");
        break;
      }
      if (ch < t.key[i + 1]) {
        const double x = (ch - t.key[i]) / (t.key[i + 1] - t.key[i]);
        if (interpolate) want = t.value[i] + x * (t.value[i + 1] - t.value[i]);
        else want = x <= 0.5 ? t.value[i] : t.value[i + 1];
        vp_reach("between");
        break;
      }
    }
  }
  vp_assert(Same(eng, want), interpolate ? "interpolated value" : "value of the nearest key, the lower one when equally near");
}

// Key ranges: [min, max] for integer channels, [min, max) for float channels;
// the first matching range wins, the default value otherwise.
VP_CONTRACT(conv_range_value) {
  const unsigned rows = static_cast<unsigned>(vp_choose(kRows + 1, "rows"));
  const bool integer = vp_choose(2, "integer") != 0;
  const Table t = AnyTable();
  Cc4Block cc;
  cc.Type(ConversionType::ValueRangeToValue);
  cc.ChannelDataType(integer ? 0 : 4);
  for (unsigned i = 0; i < rows; ++i) {
    cc.Parameter(static_cast<uint16_t>(3 * i), t.key[i]);
    cc.Parameter(static_cast<uint16_t>(3 * i + 1), t.upper[i]);
    cc.Parameter(static_cast<uint16_t>(3 * i + 2), t.value[i]);
  }
  cc.Parameter(static_cast<uint16_t>(3 * rows), t.value[kRows]);
  Store(cc);
  const double ch = AnyChannel(integer);
  double eng = 0;
  const bool valid = static_cast<IChannelConversion&>(cc).Convert(ch, eng);
  vp_assert(valid, "a table conversion is valid");
  double want = t.value[kRows];
  bool found = false;
  for (unsigned i = 0; i < rows && !found; ++i) {
    if (ch >= t.key[i] && (integer ? ch <= t.upper[i] : ch < t.upper[i])) {
      want = t.value[i];
      found = true;
    }
  }
  if (found) vp_reach("in a range"); else vp_reach("default");
  vp_assert(Same(eng, want), "value of the first range that holds the channel value, else the default");
}

// Texts of keys and ranges.  The texts are distinct constants: the contract
// tells which one is selected.
namespace {
const char* const kText[kRows + 1] = {"zero", "one two", "third", "4", "default text"};
}
VP_CONTRACT(conv_text) {
  const bool range = vp_choose(2, "range") != 0;
  const unsigned rows = static_cast<unsigned>(vp_choose(kRows + 1, "rows"));
  const bool integer = vp_choose(2, "integer") != 0;
  const Table t = AnyTable();
  Cc4Block cc;
  cc.Type(range ? ConversionType::ValueRangeToText : ConversionType::ValueToText);
  cc.ChannelDataType(integer ? 2 : 5);
  for (unsigned i = 0; i < rows; ++i) {
    if (range) {
      cc.Parameter(static_cast<uint16_t>(2 * i), t.key[i]);
      cc.Parameter(static_cast<uint16_t>(2 * i + 1), t.upper[i]);
    } else {
      cc.Parameter(static_cast<uint16_t>(i), t.key[i]);
    }
    cc.Reference(static_cast<uint16_t>(i), kText[i]);
  }
  cc.Reference(static_cast<uint16_t>(rows), kText[kRows]);
  Store(cc);
  const double ch = AnyChannel(integer);
  std::string eng = "stale";
  const bool valid = static_cast<IChannelConversion&>(cc).Convert(ch, eng);
  vp_assert(valid, "a text table conversion is valid");
  std::string want = kText[kRows];
  bool found = false;
  for (unsigned i = 0; i < rows && !found; ++i) {
    const bool hit = range ? ch >= t.key[i] && (integer ? ch <= t.upper[i] : ch < t.upper[i]) : ch == t.key[i];
    if (hit) {
      want = kText[i];
      found = true;
    }
  }
  if (found) vp_reach("key text"); else vp_reach("default text");
  vp_assert(eng == want, "text of the first matching key or range, else the default text");
}

// Texts as keys.
VP_CONTRACT(conv_from_text) {
  const bool translate = vp_choose(2, "translate") != 0;
  const unsigned rows = static_cast<unsigned>(vp_choose(4, "rows"));
  const Table t = AnyTable();
  static const char* const to[4] = {"alpha", "b", "gamma", "other"};
  Cc4Block cc;
  cc.Type(translate ? ConversionType::TextToTranslation : ConversionType::TextToValue);
  // keys of two arbitrary letters each
  std::string key[3];
  static const char* name[3] = {"k0", "k1", "k2"};
  for (unsigned i = 0; i < rows; ++i) {
    const auto b = vp_vec(2, name[i]);
    vp_assume(b[0] > 0x20 && b[0] < 0x7F && b[1] > 0x20 && b[1] < 0x7F && b[0] != '<');
    key[i].assign(b.begin(), b.end());
    if (translate) {
      cc.Reference(static_cast<uint16_t>(2 * i), key[i]);
      cc.Reference(static_cast<uint16_t>(2 * i + 1), to[i]);
    } else {
      cc.Reference(static_cast<uint16_t>(i), key[i]);
      cc.Parameter(static_cast<uint16_t>(i), t.value[i]);
    }
  }
  if (translate) cc.Reference(static_cast<uint16_t>(2 * rows), to[3]);
  else cc.Parameter(static_cast<uint16_t>(rows), t.value[kRows]);
  Store(cc);
  const unsigned len = static_cast<unsigned>(vp_choose(4, "length"));
  const auto in = vp_vec(len, "text");
  const std::string text(in.begin(), in.end());
  unsigned hit = rows;
  for (unsigned i = 0; i < rows && hit == rows; ++i) {
    if (text == key[i]) hit = i;
  }
  if (hit < rows) vp_reach("matched"); else vp_reach("default");
  const IChannelConversion& ic = cc;
  if (translate) {
    std::string eng = "stale";
    vp_assert(ic.Convert(text, eng), "a translation is valid");
    vp_assert(eng == (hit < rows ? to[hit] : to[3]), "translation of the first equal text, else the default");
  } else {
    double eng = 0;
    vp_assert(ic.Convert(text, eng), "a text to value conversion is valid");
    vp_assert(Same(eng, hit < rows ? t.value[hit] : t.value[kRows]), "value of the first equal text, else the default");
  }
}
