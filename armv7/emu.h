// An interpreter for the Armv7-A instructions (Arm and Thumb) that the LCE kernels compile
// to. The guest's memory lies below 4 GiB in the host's address space; every access is
// checked: against the heap's bounds and AddressSanitizer's shadow memory, against the
// stack, against the image, and against the alignment that the instruction asks for.
#ifndef VERIF_ARMV7_EMU_H_
#define VERIF_ARMV7_EMU_H_
#include <elf.h>
#include <math.h>
#include <sanitizer/asan_interface.h>
#include <sys/mman.h>

#include <cctype>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>

// The guest's accesses are checked by Check; the interpreter's own need not be.
#pragma clang attribute push(__attribute__((no_sanitize("address"))), apply_to = function)
namespace a32 {
using std::string;
using std::vector;
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int8_t s8; typedef int16_t s16; typedef int32_t s32; typedef int64_t s64;
typedef __int128 s128;

struct Fault { string msg; };       // what the guest did wrong
struct Unmodelled { string msg; };  // what this interpreter does not know

// The guest's heap: memory is given out once per case, with gaps, and never reused before Reset.
class Heap {
 public:
  static constexpr u64 kLo = 0x20000000, kSize = 0x20000000;
  static Heap& Get() { static Heap h; return h; }
  u32 Alloc(size_t n, size_t align = 8) {
    u64 p = (top_ + 64 + align - 1) / align * align;
    if (p + n + 4096 > kLo + kSize) { fprintf(stderr, "the guest needs too much memory\n"); exit(3); }
    __asan_poison_memory_region((void*)top_, ((p + n + 64 - top_) | 7) + 1);
    __asan_unpoison_memory_region((void*)p, n);
    top_ = p + (n + 7) / 8 * 8;
    sizes_[(u32)p] = n;
    return (u32)p;
  }
  bool Free(u32 p) {
    auto i = sizes_.find(p);
    if (i == sizes_.end()) return false;
    __asan_poison_memory_region((void*)(u64)p, (i->second + 7) / 8 * 8);
    sizes_.erase(i);
    return true;
  }
  void Reset() { top_ = kLo; sizes_.clear(); }
  bool Has(u32 a, u32 n) const { return a >= kLo && (u64)a + n <= top_; }
 private:
  Heap() {
    if (mmap((void*)kLo, kSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void*)kLo) { fprintf(stderr, "cannot map the guest's heap\n"); exit(3); }
  }
  u64 top_ = kLo;
  std::unordered_map<u32, size_t> sizes_;
};

enum Kind : u8 { kNone, kR, kS, kD, kQ, kRList, kVList, kImm, kFimm, kMem, kStatus };
enum Sh : u8 { shNone, shLsl, shLsr, shAsr, shRor, shRrx };
struct Opd {
  Kind k = kNone;
  u8 r = 0;               // register, of a list or an address the first one
  u8 n = 0;               // registers of a list
  s8 idx = -1;            // lane; -2: all lanes
  bool wb = false;        // with !
  Sh sh = shNone;
  u8 amt = 0;
  s8 shr = -1;            // shift by a register
  u8 stride = 1;          // of a list
  u16 mask = 0;           // of core registers
  s8 xr = -1;             // index register
  bool neg = false, post = false;
  u8 align = 0;           // bytes
  u32 imm = 0;
  double f = 0;
};
#define A32_INT(X) \
  X(add) X(adc) X(sub) X(sbc) X(rsb) X(rsc) X(and) X(orr) X(orn) X(eor) X(bic) X(mov) X(mvn) X(lsl) X(lsr) X(asr) X(ror) X(rrx) X(mul) X(mla)
#define A32_OTHER(X) \
  X(addw) X(subw) X(movw) X(movt) X(cmp) X(cmn) X(tst) X(teq) X(mls) X(umull) X(smull) X(umlal) X(smlal) X(umaal) X(smmul) X(smmla) X(smulbb) X(smlabb) X(smulbt) X(smultb) X(smultt) X(smulwb) X(sdiv) X(udiv) \
  X(clz) X(rbit) X(rev) X(rev16) X(revsh) X(bfc) X(bfi) X(ubfx) X(sbfx) X(ssat) X(usat) X(sxtb) X(sxth) X(uxtb) X(uxth) X(sxtab) X(sxtah) X(uxtab) X(uxtah) X(adr) X(qadd) X(qsub) \
  X(b) X(bl) X(bx) X(blx) X(cbz) X(cbnz) X(tbb) X(tbh) X(trap) X(udf) X(nop) X(dmb) X(dsb) X(it) X(pld) \
  X(ldr) X(ldrb) X(ldrsb) X(ldrh) X(ldrsh) X(ldrd) X(ldrex) X(ldrexd) X(str) X(strb) X(strh) X(strd) X(strex) X(strexd) X(ldm) X(ldmib) X(ldmdb) X(ldmda) X(stm) X(stmib) X(stmdb) X(stmda) X(push) X(pop) \
  X(vadd) X(vsub) X(vmul) X(vdiv) X(vneg) X(vabs) X(vsqrt) X(vmla) X(vmls) X(vnmla) X(vnmls) X(vnmul) X(vcmp) X(vcmpe) X(vcvt) X(vcvtr) X(vmov) X(vmrs) X(vmsr) X(vldr) X(vstr) X(vldmia) X(vstmia) X(vldmdb) X(vstmdb) X(vpush) X(vpop) \
  X(vmax) X(vmin) X(vabd) X(vand) X(vorr) X(veor) X(vbic) X(vorn) X(vmvn) X(vbsl) X(vbit) X(vbif) X(vceq) X(vcgt) X(vcge) X(vclt) X(vcle) X(vtst) X(vshl) X(vrshl) X(vqshl) X(vshr) X(vrshr) X(vsra) X(vrsra) X(vsli) X(vsri) \
  X(vshrn) X(vrshrn) X(vqshrn) X(vqrshrn) X(vqshrun) X(vqrshrun) X(vmovn) X(vqmovn) X(vqmovun) X(vmovl) X(vshll) X(vaddl) X(vaddw) X(vsubl) X(vsubw) X(vmull) X(vmlal) X(vmlsl) X(vpadd) X(vpaddl) X(vpadal) X(vpmax) X(vpmin) \
  X(vcnt) X(vclz) X(vdup) X(vext) X(vrev16) X(vrev32) X(vrev64) X(vswp) X(vtrn) X(vzip) X(vuzp) X(vqadd) X(vqsub) X(vhadd) X(vrhadd) X(vqneg) X(vqabs) X(vld1) X(vld2) X(vld3) X(vld4) X(vst1) X(vst2) X(vst3) X(vst4)
enum Op : u16 {
#define X(n) o_##n,
  A32_INT(X) A32_OTHER(X)
#undef X
  o_stub, o_data, o_unknown
};
struct Ins {
  Op op = o_unknown;
  u8 cond = 14, n = 0, size = 0;
  bool s = false;
  char t[2] = {0, 0};  // element kinds: s, u, i, f or blank
  u8 w[2] = {0, 0};    // element widths in bytes
  Opd o[5];
  u32 target = 0;
  u32 text = 0;        // index of the source line
};

class Machine {
 public:
  u32 r[16] = {};
  alignas(16) u8 v[256] = {};
  bool N = false, Z = false, C = false, V = false;
  bool fN = false, fZ = false, fC = false, fV = false;
  bool thumb = false;
  u64 count = 0, limit = 400000000;
  std::unordered_map<string, u32> sym;
  std::function<void(const char*)> report;

  void Load(const string& base) {
    std::ifstream f(base + ".elf", std::ios::binary);
    string e((std::istreambuf_iterator<char>(f)), {});
    if (e.size() < sizeof(Elf32_Ehdr)) Die("cannot read " + base);
    auto* h = (const Elf32_Ehdr*)e.data();
    for (int i = 0; i < h->e_phnum; ++i) {
      auto* p = (const Elf32_Phdr*)(e.data() + h->e_phoff + i * h->e_phentsize);
      if (p->p_type != PT_LOAD) continue;
      u64 lo = p->p_vaddr & ~0xfffull, hi = ((u64)p->p_vaddr + p->p_memsz + 0xfff) & ~0xfffull;
      void* m = mmap((void*)lo, hi - lo, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
      if (m != (void*)lo) Die("cannot map the guest");
      memcpy((void*)(u64)p->p_vaddr, e.data() + p->p_offset, p->p_filesz);
      segs_.push_back({p->p_vaddr, p->p_vaddr + p->p_memsz, (p->p_flags & PF_W) != 0});
      if (p->p_flags & PF_X) { text_lo_ = p->p_vaddr; text_hi_ = p->p_vaddr + p->p_memsz; }
    }
    std::ifstream s(base + ".sym");
    string line;
    while (std::getline(s, line)) {  // llvm-nm
      size_t p = line.rfind(' ');
      if (p != string::npos) sym[line.substr(p + 1)] = strtoull(line.c_str(), nullptr, 16);
    }
    code_.resize((text_hi_ - text_lo_) / 2);
    lines_.push_back("");
    std::ifstream d(base + ".dis");
    u32 last = 0;
    while (std::getline(d, line)) {
      size_t c = line.find(':'), first = line.find_first_not_of(' ');
      if (c == string::npos || first == string::npos || line.size() < c + 2 || !isxdigit(line[first])) continue;
      char* end;
      u64 a = strtoull(line.c_str(), &end, 16);
      if (*end != ':' || a < text_lo_ || a >= text_hi_) continue;
      if (last) At(last).size = a - last;
      last = a;
      lines_.push_back(line.substr(c + 1));
      Ins& i = At(a);
      i.size = 4;
      i.text = lines_.size() - 1;
      Decode(lines_.back(), a, &i);
    }
    std::ifstream t(base + ".stubs");
    while (std::getline(t, line)) {
      Ins& i = At(Symbol(line) & ~1u);
      i.op = o_stub;
      i.cond = 14;
      i.target = names_.size();
      names_.push_back(line);
    }
    stack_lo_ = 0x1f000000 + (thumb ? 0x200000 : 0);
    stack_hi_ = stack_lo_ + (1 << 20);
    if (mmap((void*)(u64)stack_lo_, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) != (void*)(u64)stack_lo_) Die("cannot map the guest's stack");
    r[13] = stack_hi_ - 256;
    if (sym.count("__init_array_start"))
      for (u32 p = sym["__init_array_start"]; p < sym["__init_array_end"]; p += 4) Call(*(u32*)(u64)p, {});
  }
  // The instructions that are not understood.
  vector<string> Unknown() const {
    vector<string> u;
    for (auto& i : code_) if (i.op == o_unknown && i.text) u.push_back(lines_[i.text]);
    return u;
  }
  u32 Symbol(const string& n) {
    auto i = sym.find(n);
    if (i == sym.end()) Die("the guest has no " + n);
    return i->second;
  }
  // Calls a guest function with integer or pointer arguments.
  u32 Call(u32 f, const vector<u32>& args, u64 junk = 1) {
    u32 saved_sp = r[13], ret = 0x1000;
    Junk(junk);
    for (size_t i = 0; i < args.size() && i < 4; ++i) r[i] = args[i];
    if (args.size() > 4) {
      r[13] = (r[13] - 4 * (args.size() - 4)) & ~7u;
      for (size_t i = 4; i < args.size(); ++i) memcpy((char*)(u64)r[13] + 4 * (i - 4), &args[i], 4);
    }
    u32 keep_r[8];
    u8 keep_v[64];
    for (int i = 0; i < 8; ++i) keep_r[i] = r[4 + i] = (u32)Rnd();
    memcpy(keep_v, v + 64, 64);
    u32 want_sp = r[13];
    r[14] = ret | thumb;
    if (((f & 1) != 0) != thumb) Die("a function of the other instruction set");
    pc_ = f & ~1u;
    count = 0;
    try {
      Run(ret);
    } catch (Fault& e) {
      r[13] = saved_sp;
      throw;
    }
    if (r[13] != want_sp) throw Fault{"the function returns with another stack pointer"};
    for (int i = 0; i < 8; ++i) if (keep_r[i] != r[4 + i]) throw Fault{"the function does not preserve r" + std::to_string(4 + i)};
    for (int i = 0; i < 8; ++i) if (memcmp(keep_v + 8 * i, v + 64 + 8 * i, 8)) throw Fault{"the function does not preserve d" + std::to_string(8 + i)};
    r[13] = saved_sp;
    return r[0];
  }

 private:
  struct Seg { u32 lo, hi; bool w; };
  vector<Seg> segs_;
  vector<Ins> code_;
  vector<string> lines_, names_;
  u32 text_lo_ = 0, text_hi_ = 0, stack_lo_ = 0, stack_hi_ = 0, pc_ = 0, sp0_ = 0;
  u64 junk_ = 1;

  [[noreturn]] static void Die(const string& m) { fprintf(stderr, "%s\n", m.c_str()); exit(3); }
  Ins& At(u32 a) { return code_[(a - text_lo_) / 2]; }
  u64 Rnd() { junk_ ^= junk_ << 13; junk_ ^= junk_ >> 7; junk_ ^= junk_ << 17; return junk_; }
  // What a call may leave behind in the registers that it need not preserve.
  void Scramble() {
    for (int i : {0, 1, 2, 3, 12}) r[i] = (u32)Rnd();
    for (int i = 0; i < 32; ++i) if (i < 8 || i >= 16) { u64 a = Rnd(); memcpy(v + 8 * i, &a, 8); }
    N = Rnd() & 1; Z = Rnd() & 2; C = Rnd() & 4; V = Rnd() & 8;
  }
  void Junk(u64 seed) {
    junk_ = seed * 0xD1342543DE82EF95ull + 0x632BE59BD9B4E019ull;
    if (!junk_) junk_ = 1;
    Scramble();
    for (int i = 8; i < 16; ++i) { u64 a = Rnd(); memcpy(v + 8 * i, &a, 8); }
  }

  // ------------------------------------------------------------------ decoding
  static string Trim(string s) {
    while (!s.empty() && isspace(s.back())) s.pop_back();
    size_t i = 0;
    while (i < s.size() && isspace(s[i])) ++i;
    return s.substr(i);
  }
  static vector<string> Split(const string& s) {
    vector<string> o;
    int depth = 0;
    string cur;
    for (char c : s) {
      if (c == '[' || c == '{') ++depth;
      if (c == ']' || c == '}') --depth;
      if (c == ',' && !depth) { o.push_back(Trim(cur)); cur.clear(); } else cur += c;
    }
    if (!Trim(cur).empty()) o.push_back(Trim(cur));
    return o;
  }
  static bool Number(const string& s, s64* out) {
    const char* p = s.c_str();
    if (*p == '#') ++p;
    bool neg = *p == '-';
    if (neg) ++p;
    if (!isdigit(*p)) return false;
    char* e;
    u64 n = strtoull(p, &e, 0);
    *out = neg ? -(s64)n : (s64)n;
    return *e == 0;
  }
  static int Core(const string& s) {
    if (s == "sp") return 13;
    if (s == "lr") return 14;
    if (s == "pc") return 15;
    if (s == "fp") return 11;
    if (s == "ip") return 12;
    if (s.size() < 2 || s[0] != 'r' || !isdigit(s[1])) return -1;
    char* e;
    int n = strtol(s.c_str() + 1, &e, 10);
    return *e == 0 && n < 16 ? n : -1;
  }
  static bool Vector(const string& s, Opd* o) {
    if (s.size() < 2 || !isdigit(s[1])) return false;
    char* e;
    int n = strtol(s.c_str() + 1, &e, 10);
    switch (s[0]) { case 's': o->k = kS; break; case 'd': o->k = kD; break; case 'q': o->k = kQ; break; default: return false; }
    o->r = n;
    if (*e == '[') { o->idx = e[1] == ']' ? -2 : atoi(e + 1); return true; }
    return *e == 0 && n < (o->k == kQ ? 16 : 32);
  }
  static Sh ShiftName(const string& s) {
    if (s == "lsl") return shLsl;
    if (s == "lsr") return shLsr;
    if (s == "asr") return shAsr;
    if (s == "ror") return shRor;
    if (s == "rrx") return shRrx;
    return shNone;
  }
  static bool Shift(const string& s, Opd* o) {
    size_t p = s.find(' ');
    Sh k = ShiftName(s.substr(0, p));
    if (k == shNone || (p == string::npos) != (k == shRrx)) return false;
    o->sh = k;
    if (k == shRrx) return true;
    string a = Trim(s.substr(p));
    s64 n;
    if (Number(a, &n)) { o->amt = n; return true; }
    o->shr = Core(a);
    return o->shr >= 0;
  }
  static bool Operand(const string& text, Opd* o) {
    string s = text;
    *o = Opd();
    if (s.size() > 1 && s.back() == '!') { o->wb = true; s.pop_back(); }
    int c = Core(s);
    if (c >= 0) { o->k = kR; o->r = c; return true; }
    if (Vector(s, o)) return true;
    if (s == "fpscr" || s == "apsr_nzcv" || s == "APSR_nzcv" || s == "apsr" || s == "ish" || s == "ishst" || s == "sy") { o->k = kStatus; return true; }
    if (s[0] == '#' || isdigit(s[0]) || s[0] == '-') {
      s64 n;
      if (Number(s, &n)) { o->k = kImm; o->imm = (u32)n; o->f = (double)n; return true; }
      char* e;
      o->f = strtod(s.c_str() + (s[0] == '#'), &e);
      o->k = kFimm;
      return *e == 0;
    }
    if (s[0] == '{') {
      size_t end = s.find('}');
      auto regs = Split(s.substr(1, end - 1));
      if (regs.empty()) return false;
      if (Core(regs[0]) >= 0) {
        o->k = kRList;
        for (auto& x : regs) { int n = Core(x); if (n < 0) return false; o->mask |= 1u << n; }
        return true;
      }
      Opd a, b;
      if (!Vector(regs[0], &a)) return false;
      bool wb = o->wb;
      *o = a;
      o->wb = wb;
      o->n = regs.size() * (a.k == kQ ? 2 : 1);
      if (regs.size() > 1) {
        if (!Vector(regs[1], &b)) return false;
        o->stride = b.r - a.r;
      }
      if (a.k == kQ) { o->k = kVList; o->r *= 2; o->stride = 1; }
      else if (a.k == kS) { o->k = kVList; o->align = 4; }  // single registers
      else o->k = kVList;
      return true;
    }
    if (s[0] == '[') {
      size_t end = s.find(']');
      auto in = Split(s.substr(1, end - 1));
      if (in.empty() || end + 1 != s.size()) return false;
      size_t colon = in[0].find(':');
      string base = in[0].substr(0, colon);
      if (colon != string::npos) o->align = atoi(in[0].c_str() + colon + 1) / 8;
      int n = Core(base);
      if (n < 0) return false;
      o->k = kMem;
      o->r = n;
      if (in.size() > 1) {
        s64 imm;
        string x = in[1];
        if (Number(x, &imm)) o->imm = (u32)imm;
        else {
          if (x[0] == '-') { o->neg = true; x = x.substr(1); }
          o->xr = Core(x);
          if (o->xr < 0) return false;
        }
        if (in.size() > 2 && !Shift(in[2], o)) return false;
      }
      return true;
    }
    return false;
  }
  static int CondCode(const string& s) {
    static const std::map<string, int> m = {{"eq", 0}, {"ne", 1}, {"hs", 2}, {"cs", 2}, {"lo", 3}, {"cc", 3}, {"mi", 4}, {"pl", 5}, {"vs", 6}, {"vc", 7}, {"hi", 8}, {"ls", 9}, {"ge", 10}, {"lt", 11}, {"gt", 12}, {"le", 13}, {"al", 14}};
    auto i = m.find(s);
    return i == m.end() ? -1 : i->second;
  }
  void Decode(string s, u32 addr, Ins* i) {
    if (s.find("\t.") != string::npos) { i->op = o_data; return; }
    size_t c = s.find('@');
    if (c != string::npos) s = s.substr(0, c);
    c = s.find(" <");
    if (c != string::npos) s = s.substr(0, c);
    s = Trim(s);
    c = s.find_first_of(" \t");
    string m = s.substr(0, c), rest = c == string::npos ? "" : Trim(s.substr(c));
    if (m == "<unknown>") { i->op = o_data; return; }
    struct E { Op op; bool s; };
    static const std::unordered_map<string, E> ops = [] {
      std::unordered_map<string, E> t;
#define X(n) t[#n] = {o_##n, true};
      A32_INT(X)
#undef X
#define X(n) t[#n] = {o_##n, false};
      A32_OTHER(X)
#undef X
      t["umull"].s = t["smull"].s = t["umlal"].s = t["smlal"].s = true;
      t["ldmia"] = {o_ldm, false}; t["stmia"] = {o_stm, false};
      t["vldm"] = {o_vldmia, false}; t["vstm"] = {o_vstmia, false};
      t["pldw"] = {o_nop, false}; t["clrex"] = {o_nop, false}; t["isb"] = {o_nop, false}; t["hint"] = {o_nop, false};
      t["dmb"] = t["dsb"] = t["pld"] = {o_nop, false};
      return t;
    }();
    size_t dot = m.find('.');
    string n = m.substr(0, dot), suffix = dot == string::npos ? "" : m.substr(dot + 1);
    auto find = [&](const string& k, bool with_s) { auto f = ops.find(k); if (f == ops.end() || (with_s && !f->second.s)) return false; i->op = f->second.op; i->s = with_s; return true; };
    int cc = n.size() > 2 ? CondCode(n.substr(n.size() - 2)) : -1;
    string stem = cc >= 0 ? n.substr(0, n.size() - 2) : "";
    if (find(n, false)) {}
    else if (cc >= 0 && find(stem, false)) i->cond = cc;
    else if (n.size() > 1 && n.back() == 's' && find(n.substr(0, n.size() - 1), true)) {}
    else if (cc >= 0 && stem.size() > 1 && stem.back() == 's' && find(stem.substr(0, stem.size() - 1), true)) i->cond = cc;
    else if (n.size() > 2 && n.substr(0, 2) == "it") { i->op = o_nop; return; }
    else return;
    if (i->op == o_it) i->op = o_nop;
    if (i->op == o_nop) return;
    // .w and .n say how wide the encoding is; the others what the elements are.
    int k = 0;
    std::string part;
    for (size_t p = 0; p < suffix.size();) {
      size_t q = suffix.find('.', p);
      part = suffix.substr(p, q == string::npos ? string::npos : q - p);
      p = q == string::npos ? suffix.size() : q + 1;
      if (part == "w" || part == "n") continue;
      char kind = isalpha(part[0]) ? part[0] : ' ';
      int w = atoi(part.c_str() + (kind != ' ')) / 8;
      if (k == 2 || !w) { i->op = o_unknown; return; }
      i->t[k] = kind;
      i->w[k++] = w;
    }
    for (auto& t : Split(rest)) {
      if (i->n) {
        Opd& last = i->o[i->n - 1];
        if (last.k == kR && last.sh == shNone && Shift(t, &last)) continue;
        if (last.k == kMem && last.post && last.xr >= 0 && last.sh == shNone && Shift(t, &last)) continue;
        if (last.k == kMem && !last.post && !last.wb && i->op != o_strex) {  // post-indexed
          s64 imm;
          string x = t;
          if (Number(x, &imm)) { last.post = true; last.imm = (u32)imm; continue; }
          if (x[0] == '-') { last.neg = true; x = x.substr(1); }
          int q = Core(x);
          if (q >= 0) { last.post = true; last.xr = q; continue; }
        }
      }
      if (i->n >= 5 || !Operand(t, &i->o[i->n])) { i->op = o_unknown; return; }
      i->n++;
    }
    if (i->op == o_b || i->op == o_bl || i->op == o_blx || i->op == o_cbz || i->op == o_cbnz || i->op == o_adr) i->target = i->o[i->n - 1].imm;
    (void)addr;
  }

  // ------------------------------------------------------------------ memory
  [[noreturn]] void Bad(u32 a, u32 n, bool w) {
    char b[200];
    snprintf(b, sizeof b, "%s of %u bytes at %#x, outside of what it may access", w ? "a write" : "a read", n, a);
    throw Fault{b};
  }
  void Check(u32 a, u32 n, bool w, u32 align = 1) {
    if (a & (align - 1)) throw Fault{"an access that is not aligned to " + std::to_string(align) + " bytes"};
    if (Heap::Get().Has(a, n)) {
      auto shadow = [](u32 p) { return *(const s8*)(u64)((p >> 3) + 0x7fff8000ull); };
      if (n <= 16 && n && !shadow(a) && !shadow(a + n - 1)) return;
      if (__asan_region_is_poisoned((void*)(u64)a, n)) Bad(a, n, w);
      return;
    }
    if (a >= stack_lo_ && (u64)a + n <= stack_hi_) {
      if (a < r[13] && a < sp0_) Bad(a, n, w);
      return;
    }
    for (auto& s : segs_) if (a >= s.lo && (u64)a + n <= s.hi) { if (w && !s.w) Bad(a, n, w); return; }
    Bad(a, n, w);
  }
  static void* P(u32 a) { return (void*)(u64)a; }
  u64 Get(u32 a, u32 n, u32 align = 1) { Check(a, n, false, align); u64 x = 0; memcpy(&x, P(a), n); return x; }
  void Put(u32 a, u64 x, u32 n, u32 align = 1) { Check(a, n, true, align); memcpy(P(a), &x, n); }

  // ------------------------------------------------------------------ core registers
  u32 PC() const { return pc_ + (thumb ? 4 : 8); }
  u32 R(int n) const { return n == 15 ? PC() : r[n]; }
  bool Cond(u8 c) const {
    bool t;
    switch (c >> 1) {
      case 0: t = Z; break;
      case 1: t = C; break;
      case 2: t = N; break;
      case 3: t = V; break;
      case 4: t = C && !Z; break;
      case 5: t = N == V; break;
      case 6: t = N == V && !Z; break;
      default: return true;
    }
    return (c & 1) ? !t : t;
  }
  // The shifted value; *carry in and out.
  static u32 Shifted(u32 a, Sh k, u32 n, bool* carry) {
    if (k == shRrx) { u32 x = (a >> 1) | ((u32)*carry << 31); *carry = a & 1; return x; }
    if (!n || k == shNone) return a;
    switch (k) {
      case shLsl: *carry = n <= 32 ? (a >> (32 - n)) & 1 : 0; return n < 32 ? a << n : 0;
      case shLsr: *carry = n <= 32 ? (a >> (n - 1)) & 1 : 0; return n < 32 ? a >> n : 0;
      case shAsr: if (n > 31) { *carry = a >> 31; return (u32)((s32)a >> 31); } *carry = (a >> (n - 1)) & 1; return (u32)((s32)a >> n);
      default: n &= 31; if (n) a = (a >> n) | (a << (32 - n)); *carry = a >> 31; return a;
    }
  }
  u32 Val(const Opd& o, bool* carry) const {
    if (o.k == kImm) { if (o.imm > 255 && (o.imm & 0xff) != ((o.imm >> 16) & 0xff)) *carry = o.imm >> 31; return o.imm; }
    u32 a = R(o.r);
    if (o.sh == shNone) return a;
    return Shifted(a, o.sh, o.shr >= 0 ? r[o.shr] & 255 : o.amt, carry);
  }
  u32 Val(const Opd& o) const { bool c = C; return Val(o, &c); }
  u32 AddC(u32 a, u32 b, bool c, bool flags) {
    u64 s = (u64)a + b + c;
    u32 x = (u32)s;
    if (flags) { C = s >> 32; V = ((a ^ x) & (b ^ x)) >> 31; N = x >> 31; Z = x == 0; }
    return x;
  }
  void NZ(u32 x) { N = x >> 31; Z = x == 0; }
  u32 Addr(const Opd& o, u32 size) {
    u32 base = o.r == 15 ? PC() & ~3u : r[o.r], off = o.imm;
    if (o.xr >= 0) { bool c = C; off = Shifted(R(o.xr), o.sh, o.amt, &c); if (o.neg) off = -off; }
    (void)size;
    if (o.post) { r[o.r] += off; return base; }
    if (o.wb) r[o.r] = base + off;
    return base + off;
  }
  u32 Branch(u32 a) {  // with a choice of the instruction set
    if (a == (0x1000u | thumb)) return 0x1000;
    if (((a & 1) != 0) != thumb) throw Fault{"a jump into the other instruction set"};
    return a & ~1u;
  }

  // ------------------------------------------------------------------ vectors
  static int At(const Opd& o) { return o.k == kS ? 4 * o.r : o.k == kD ? 8 * o.r : 16 * o.r; }
  static int Size(const Opd& o) { return o.k == kS ? 4 : o.k == kD ? 8 : 16; }
  u64 Lane(int at, int i, int w) const { u64 t = 0; memcpy(&t, v + ((at + i * w) & 255), w); return t; }
  void SetLane(int at, int i, int w, u64 x) { memcpy(v + ((at + i * w) & 255), &x, w); }
  static s64 Sx(u64 a, int w) { switch (w) { case 1: return (s8)a; case 2: return (s16)a; case 4: return (s32)a; default: return (s64)a; } }
  static u64 Cut(u64 a, int w) { return w == 8 ? a : a & ((1ull << (w * 8)) - 1); }
  static s128 Ext(u64 a, int w, bool u) { return u ? (s128)Cut(a, w) : (s128)Sx(a, w); }
  static u64 Sat(s128 a, int w, bool u) {
    s128 lo = u ? 0 : -((s128)1 << (w * 8 - 1)), hi = u ? ((s128)1 << (w * 8)) - 1 : -lo - 1;
    return Cut((u64)(a < lo ? lo : a > hi ? hi : a), w);
  }
  static float F(u64 a) { u32 b = (u32)a; float f; memcpy(&f, &b, 4); return f; }
  static double D(u64 a) { double f; memcpy(&f, &a, 8); return f; }
  static u64 B(float f) { u32 b; memcpy(&b, &f, 4); return b; }
  static u64 B(double f) { u64 b; memcpy(&b, &f, 8); return b; }
  // Advanced SIMD flushes denormal numbers to zero and knows one NaN only.
  static float Flush(float f) { return f != 0 && ::fabsf(f) < 0x1p-126f ? ::copysignf(0.0f, f) : f; }
  static u64 Neon(float f) { return std::isnan(f) ? 0x7fc00000ull : B(Flush(f)); }
  template <typename Fn> void Each(const Ins& i, int w, Fn f) {  // d = f(n, m)
    const Opd &d = i.o[0], &n = i.o[1], &m = i.o[2];
    int cnt = Size(d) / w;
    u64 out[16];
    for (int k = 0; k < cnt; ++k) out[k] = f(Lane(At(n), k, w), i.n < 3 || m.k == kImm ? (u64)(s64)(s32)m.imm : Lane(At(m), m.idx >= 0 ? m.idx : k, w), Lane(At(d), k, w));
    for (int k = 0; k < cnt; ++k) SetLane(At(d), k, w, out[k]);
  }
  template <typename Fn> void Bits(const Ins& i, Fn f) { Each(i, 8, f); }
  template <typename Fn> void EachF(const Ins& i, Fn f) {  // single precision
    Each(i, 4, [&](u64 a, u64 b, u64 d) { return Neon(f(Flush(F(a)), i.n < 3 || i.o[2].k == kImm ? 0.0f : Flush(F(b)), Flush(F(d)))); });
  }
  template <typename Fn> void Compare(const Ins& i, Fn f) {
    int w = i.w[0];
    if (i.t[0] == 'f') Each(i, 4, [&](u64 a, u64 b, u64) { return f((double)Flush(F(a)), i.o[2].k == kImm || i.o[2].k == kFimm ? 0.0 : (double)Flush(F(b))) ? 0xffffffffull : 0ull; });
    else { bool u = i.t[0] == 'u'; Each(i, w, [&](u64 a, u64 b, u64) { return f(Ext(a, w, u), Ext(b, w, u)) ? ~0ull : 0ull; }); }
  }
  template <typename Fn> void Narrow(const Ins& i, Fn f) {  // D from Q; the type is that of the source
    const Opd &d = i.o[0], &n = i.o[1];
    int w = i.w[0], cnt = 16 / w;
    u64 out[8];
    for (int k = 0; k < cnt; ++k) out[k] = f(Lane(At(n), k, w));
    for (int k = 0; k < cnt; ++k) SetLane(At(d), k, w / 2, out[k]);
  }
  template <typename Fn> void Long(const Ins& i, bool wide, Fn f) {  // Q from D (or Q and D)
    const Opd &d = i.o[0], &n = i.o[1], &m = i.o[2];
    int w = i.w[0], cnt = 8 / w;
    bool u = i.t[0] == 'u';
    u64 out[8];
    for (int k = 0; k < cnt; ++k)
      out[k] = (u64)f(wide ? Ext(Lane(At(n), k, w * 2), w * 2, u) : Ext(Lane(At(n), k, w), w, u), i.n < 3 ? 0 : m.k == kImm ? (s128)m.imm : Ext(Lane(At(m), m.idx >= 0 ? m.idx : k, w), w, u), Lane(At(d), k, w * 2));
    for (int k = 0; k < cnt; ++k) SetLane(At(d), k, w * 2, out[k]);
  }
  template <typename Fn> void Pairs(const Ins& i, int w, Fn f) {
    const Opd &d = i.o[0], &n = i.o[1], &m = i.o[2];
    int cnt = 8 / w, h = cnt / 2;
    u64 out[8];
    for (int k = 0; k < cnt; ++k) { int a = k < h ? At(n) : At(m), j = (k < h ? k : k - h) * 2; out[k] = f(Lane(a, j, w), Lane(a, j + 1, w)); }
    for (int k = 0; k < cnt; ++k) SetLane(At(d), k, w, out[k]);
  }
  static s128 ShiftBy(s128 a, int n, bool round) {
    if (n >= 0) return n > 70 ? 0 : a << n;
    n = -n;
    if (n > 100) n = 100;
    return round ? (a + ((s128)1 << (n - 1))) >> n : a >> n;
  }
  static float MaxF(float a, float b) { return std::isnan(a) ? a : std::isnan(b) ? b : a == b ? (std::signbit(a) ? b : a) : a > b ? a : b; }
  static float MinF(float a, float b) { return std::isnan(a) ? a : std::isnan(b) ? b : a == b ? (std::signbit(a) ? a : b) : a < b ? a : b; }
  static u64 ToInt(double a, bool u, bool nearest) {
    if (std::isnan(a)) return 0;
    double t = nearest ? ::nearbyint(a) : ::trunc(a);
    if (u) return t < 0 ? 0 : t > 4294967295.0 ? 0xffffffffull : (u64)t;
    return (u32)(s32)(t < -2147483648.0 ? -2147483648.0 : t > 2147483647.0 ? 2147483647.0 : t);
  }
  bool Scalar(const Ins& i) const { return i.o[0].k == kS || (i.o[0].k == kD && i.t[0] == 'f' && i.w[0] == 8); }
  // VFP: d = f(d, n, m)
  template <typename F4, typename F8> void Vfp(const Ins& i, F4 f4, F8 f8) {
    const Opd &d = i.o[0], &n = i.o[1], &m = i.o[2];
    bool two = i.n < 3;
    if (d.k == kS) SetLane(At(d), 0, 4, B((float)f4(F(Lane(At(d), 0, 4)), F(Lane(At(n), 0, 4)), two ? 0.0f : F(Lane(At(m), 0, 4)))));
    else SetLane(At(d), 0, 8, B((double)f8(D(Lane(At(d), 0, 8)), D(Lane(At(n), 0, 8)), two ? 0.0 : D(Lane(At(m), 0, 8)))));
  }
#define VFP(expr) Vfp(i, [](float d, float n, float m) -> float { (void)d; (void)m; return expr; }, [](double d, double n, double m) -> double { (void)d; (void)m; return expr; })
  double VfpVal(const Opd& o) const { return o.k == kImm || o.k == kFimm ? o.f : o.k == kS ? (double)F(Lane(At(o), 0, 4)) : D(Lane(At(o), 0, 8)); }
  void Structure(const Ins& i, int ways, bool load) {
    const Opd &l = i.o[0], &m = i.o[1];
    int w = i.w[0], lanes = 8 / w, bytes;
    u32 a = r[m.r];
    if (m.align && (a & (m.align - 1))) throw Fault{"an access that is not aligned to " + std::to_string(m.align) + " bytes"};
    auto reg = [&](int c) { return 8 * ((l.r + c * l.stride) & 31); };
    if (l.idx == -2) {
      bytes = w * ways;
      for (int c = 0; c < l.n; ++c) { u64 t = Get(a + (ways == 1 ? 0 : c) * w, w); for (int k = 0; k < lanes; ++k) SetLane(reg(c), k, w, t); }
    } else if (l.idx >= 0) {
      bytes = w * l.n;
      for (int c = 0; c < l.n; ++c) { if (load) SetLane(reg(c), l.idx, w, Get(a + c * w, w)); else Put(a + c * w, Lane(reg(c), l.idx, w), w); }
    } else {
      bytes = 8 * l.n;
      Check(a, bytes, !load);
      int groups = l.n / ways;  // vld2 of four registers has two pairs
      for (int e = 0; e < l.n * lanes; ++e) {
        int c, k;
        if (ways == 1) { c = e / lanes; k = e % lanes; }
        else { int x = e / ways; c = (e % ways) * groups + x / lanes; k = x % lanes; if (groups > 1) { c = (e % ways) * 2 + x / lanes; } }
        u64 t = 0;
        if (load) { memcpy(&t, P(a + e * w), w); SetLane(reg(c), k, w, t); } else { t = Lane(reg(c), k, w); memcpy(P(a + e * w), &t, w); }
      }
    }
    if (m.wb) r[m.r] = a + bytes;
    else if (m.post) r[m.r] = a + (m.xr >= 0 ? r[m.xr] : m.imm);
  }
  void Multiple(u32* base, u16 mask, bool load, bool wb, bool up, bool before, u32* next) {
    int cnt = __builtin_popcount(mask);
    u32 lo = up ? *base + (before ? 4 : 0) : *base - 4 * cnt + (before ? 0 : 4), end = up ? *base + 4 * cnt : *base - 4 * cnt;
    if (!load && wb && base == &r[13]) r[13] = end;
    u32 a = lo, got[16], old = *base;
    (void)old;
    for (int k = 0; k < 16; ++k) if (mask >> k & 1) { if (load) got[k] = (u32)Get(a, 4, 4); else Put(a, R(k), 4, 4); a += 4; }
    if (wb) *base = end;
    if (load) for (int k = 0; k < 16; ++k) if (mask >> k & 1) { if (k == 15) *next = Branch(got[k]); else r[k] = got[k]; }
  }
  void VMultiple(u32* base, const Opd& l, bool load, bool wb, bool up) {
    int w = l.align == 4 ? 4 : 8, bytes = w * l.n;
    u32 a = up ? *base : *base - bytes, end = up ? *base + bytes : a;
    if (!load && !up) *base = wb ? a : *base;
    Check(a, bytes, !load, 4);
    if (load) memcpy(v + w * l.r, P(a), bytes); else memcpy(P(a), v + w * l.r, bytes);
    if (wb) *base = end;
  }

  // ------------------------------------------------------------------ library functions
  void HostCall(const string& n) {
    auto ret = [&](u32 x) { Scramble(); r[0] = x; };
    u32 a = r[0], b = r[1], c = r[2];
    Heap& h = Heap::Get();
    if (n == "malloc" || n == "_Znwj" || n == "_Znaj") {
      u32 p = h.Alloc(a);
      for (u32 k = 0; k < a; ++k) ((u8*)P(p))[k] = (u8)Rnd();
      ret(p);
    } else if (n == "free" || n == "_ZdlPv" || n == "_ZdaPv" || n == "_ZdlPvj" || n == "_ZdaPvj") {
      if (a && !h.Free(a)) throw Fault{"it frees what it did not allocate"};
      ret((u32)Rnd());
    } else if (n == "memcpy" || n == "memmove" || n == "__aeabi_memcpy" || n == "__aeabi_memcpy4" || n == "__aeabi_memcpy8" || n == "__aeabi_memmove" || n == "__aeabi_memmove4" || n == "__aeabi_memmove8") {
      if (c) { Check(b, c, false); Check(a, c, true); memmove(P(a), P(b), c); }
      ret(a);
    } else if (n == "memset") {
      if (c) { Check(a, c, true); memset(P(a), (int)b, c); }
      ret(a);
    } else if (n == "__aeabi_memset" || n == "__aeabi_memset4" || n == "__aeabi_memset8") {
      if (b) { Check(a, b, true); memset(P(a), (int)c, b); }
      ret(a);
    } else if (n == "__aeabi_memclr" || n == "__aeabi_memclr4" || n == "__aeabi_memclr8") {
      if (b) { Check(a, b, true); memset(P(a), 0, b); }
      ret(a);
    } else if (n == "memcmp") {
      if (c) { Check(a, c, false); Check(b, c, false); }
      ret((u32)memcmp(P(a), P(b), c));
    } else if (n == "strcmp") {
      Check(a, 1, false); Check(b, 1, false);
      ret((u32)strcmp((char*)P(a), (char*)P(b)));
    } else if (n == "strlen") {
      Check(a, 1, false);
      ret((u32)strlen((char*)P(a)));
    } else if (n == "__isoc23_strtoll" || n == "strtoll") {
      if (b) throw Unmodelled{"strtoll with an end"};
      u64 x = (u64)strtoll((char*)P(a), nullptr, (int)c);
      ret((u32)x);
      r[1] = (u32)(x >> 32);
    } else if (n == "__aeabi_idiv" || n == "__aeabi_idivmod") {
      if (!b) throw Fault{"a division by zero"};
      s64 q = (s64)(s32)a / (s32)b, m = (s64)(s32)a % (s32)b;
      ret((u32)q);
      if (n == "__aeabi_idivmod") r[1] = (u32)m;
    } else if (n == "__aeabi_uidiv" || n == "__aeabi_uidivmod") {
      if (!b) throw Fault{"a division by zero"};
      u32 q = a / b, m = a % b;
      ret(q);
      if (n == "__aeabi_uidivmod") r[1] = m;
    } else if (n == "__aeabi_uldivmod" || n == "__aeabi_ldivmod") {
      u64 x = (u64)b << 32 | a, y = (u64)r[3] << 32 | c, q, m;
      if (!y) throw Fault{"a division by zero"};
      if (n[8] == 'u') { q = x / y; m = x % y; } else { q = (u64)((s64)x / (s64)y); m = (u64)((s64)x % (s64)y); }
      ret((u32)q);
      r[1] = (u32)(q >> 32); r[2] = (u32)m; r[3] = (u32)(m >> 32);
    } else if (n == "__aeabi_llsl" || n == "__aeabi_llsr" || n == "__aeabi_lasr" || n == "__aeabi_lmul") {
      u64 x = (u64)b << 32 | a, q;
      if (n == "__aeabi_lmul") q = x * ((u64)r[3] << 32 | c);
      else q = c > 63 ? 0 : n == "__aeabi_llsl" ? x << c : n == "__aeabi_llsr" ? x >> c : (u64)((s64)x >> c);
      ret((u32)q);
      r[1] = (u32)(q >> 32);
    } else if (n == "__aeabi_d2lz" || n == "__aeabi_d2ulz") {
      double x = D((u64)b << 32 | a);
      u64 q = n == "__aeabi_d2lz" ? (u64)(s64)(x >= 0x1p63 ? 0x7fffffffffffffffll : x < -0x1p63 ? INT64_MIN : std::isnan(x) ? 0 : (s64)x) : x <= 0 || std::isnan(x) ? 0 : x >= 0x1p64 ? ~0ull : (u64)x;
      ret((u32)q);
      r[1] = (u32)(q >> 32);
    } else if (n == "__aeabi_f2lz") {
      float x = F(a);
      u64 q = (u64)(x >= 0x1p63f ? 0x7fffffffffffffffll : x < -0x1p63f ? INT64_MIN : std::isnan(x) ? 0 : (s64)x);
      ret((u32)q);
      r[1] = (u32)(q >> 32);
    } else if (n == "__aeabi_l2d" || n == "__aeabi_ul2d") {
      u64 x = (u64)b << 32 | a, q = B(n == "__aeabi_l2d" ? (double)(s64)x : (double)x);
      ret((u32)q);
      r[1] = (u32)(q >> 32);
    } else if (n == "__aeabi_l2f" || n == "__aeabi_ul2f") {
      u64 x = (u64)b << 32 | a;
      ret((u32)B(n == "__aeabi_l2f" ? (float)(s64)x : (float)x));
    } else if (n == "abort" || n == "__cxa_pure_virtual" || n == "_ZSt9terminatev" || n.find("throw_") != string::npos) {
      throw Fault{"it calls " + n};
    } else if (n == "verif_report") {
      if (report) report((char*)P(a));
      ret(0);
    } else if (n == "fprintf" || n == "vfprintf" || n == "fputs" || n == "fputc" || n == "fwrite" || n == "__cxa_atexit" || n == "__aeabi_atexit" || n == "puts" || n == "printf") {
      ret(0);
    } else {
      static const std::map<string, float (*)(float)> f1 = {{"roundf", ::roundf}, {"floorf", ::floorf}, {"ceilf", ::ceilf}, {"truncf", ::truncf}, {"rintf", ::rintf}, {"nearbyintf", ::nearbyintf}, {"sqrtf", ::sqrtf}, {"expf", ::expf}, {"logf", ::logf}};
      static const std::map<string, double (*)(double)> d1 = {{"round", ::round}, {"floor", ::floor}, {"ceil", ::ceil}, {"trunc", ::trunc}, {"rint", ::rint}, {"nearbyint", ::nearbyint}, {"sqrt", ::sqrt}, {"exp", ::exp}, {"log", ::log}};
      auto k = f1.find(n);
      auto l = d1.find(n);
      if (k != f1.end()) { u64 x = B(k->second(F(Lane(0, 0, 4)))); Scramble(); SetLane(0, 0, 4, x); }
      else if (l != d1.end()) { u64 x = B(l->second(D(Lane(0, 0, 8)))); Scramble(); SetLane(0, 0, 8, x); }
      else throw Unmodelled{"a call of " + n};
    }
  }

  void Run(u32 stop) {
    while (pc_ != stop) {
      if (pc_ < text_lo_ || pc_ >= text_hi_) throw Fault{"it jumps to a wild address"};
      const Ins& i = At(pc_);
      if (++count > limit) throw Fault{"it does not terminate"};
      try {
        u32 next = pc_ + i.size;
        sp0_ = r[13];
        if (i.cond == 14 || Cond(i.cond)) Step(i, next);
        pc_ = next;
      } catch (Fault& e) {
        e.msg += " in" + Where(pc_);
        throw;
      } catch (Unmodelled& e) {
        Die("not modelled: " + e.msg + " in" + Where(pc_));
      }
    }
  }

 public:
  string Where(u32 pc) {
    string best, t = pc >= text_lo_ && pc < text_hi_ ? lines_[At(pc).text] : "";
    u32 at = 0;
    for (auto& s : sym) if ((s.second & ~1u) <= pc && s.second >= at && s.first[0] != '$') { at = s.second; best = s.first; }
    return t + " (" + best + "+" + std::to_string(pc - (at & ~1u)) + (thumb ? ", Thumb)" : ")");
  }
  void Step(const Ins& i, u32& next);
};
}  // namespace a32
#include "armv7/step.h"
#pragma clang attribute pop
#endif
