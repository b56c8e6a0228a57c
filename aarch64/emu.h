// An interpreter for the AArch64 instructions that the LCE kernels compile to. The
// guest shares the host's address space and data layout (LP64, little endian, the same
// library headers), so a pointer means the same on both sides: the guest's calls of
// library functions and of host callbacks are made on the host, and every access of the
// guest is checked against AddressSanitizer's shadow memory.
#ifndef VERIF_AARCH64_EMU_H_
#define VERIF_AARCH64_EMU_H_
#include <dlfcn.h>
#include <elf.h>
#include <math.h>
#include <sanitizer/asan_interface.h>
#include <sys/mman.h>

#include <cctype>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <limits>
#include <map>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <vector>

// The guest's accesses are checked by Check; the interpreter's own need not be.
#pragma clang attribute push(__attribute__((no_sanitize("address"))), apply_to = function)
namespace a64 {
using std::string;
using std::vector;
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int8_t s8; typedef int16_t s16; typedef int32_t s32; typedef int64_t s64;
typedef __int128 s128; typedef unsigned __int128 u128;

struct Fault { string msg; };       // what the guest did wrong
struct Unmodelled { string msg; };  // what this interpreter does not know

enum Kind : u8 { kNone, kGpr, kSp, kFp, kVec, kList, kImm, kFimm, kMem, kCond };
enum Ext : u8 { eNone, eLsl, eLsr, eAsr, eRor, eMsl, eUxtb, eUxth, eUxtw, eUxtx, eSxtb, eSxth, eSxtw, eSxtx };
enum Mode : u8 { mOffset, mPre, mPost };
struct Opd {
  Kind k = kNone;
  u8 r = 0;      // register, of a list or an address the first one
  u8 w = 0;      // width in bytes: of the register, of a vector's elements
  u8 n = 0;      // lanes
  u8 count = 0;  // registers of a list
  s8 idx = -1;   // lane
  Ext ext = eNone;
  u8 amt = 0;
  Mode mode = mOffset;
  bool has_reg = false, base_sp = false;  // of an address
  u8 xr = 31, xw = 8;                     // index register
  s64 imm = 0;
  double f = 0;
};
#define A64_OPS(X) \
  X(add) X(adds) X(sub) X(subs) X(adc) X(sbc) X(and_) X(ands) X(orr) X(eor) X(bic) X(bics) X(orn) X(eon) X(neg) X(negs) X(mvn) X(mov) X(cmp) X(cmn) X(tst) \
  X(mul) X(mneg) X(madd) X(msub) X(smull) X(umull) X(smaddl) X(umaddl) X(smsubl) X(umsubl) X(smulh) X(umulh) X(sdiv) X(udiv) \
  X(lsl) X(lsr) X(asr) X(ror) X(ubfx) X(sbfx) X(ubfiz) X(sbfiz) X(bfi) X(bfxil) X(sxtw) X(sxtb) X(sxth) X(uxtb) X(uxth) X(extr) X(clz) X(cls) X(rbit) X(rev) X(rev16) X(rev32) X(rev64) \
  X(csel) X(csinc) X(csinv) X(csneg) X(cset) X(csetm) X(cinc) X(cinv) X(cneg) X(ccmp) X(ccmn) X(movz) X(movn) X(movk) X(adr) X(adrp) \
  X(b) X(bl) X(blr) X(br) X(ret) X(cbz) X(cbnz) X(tbz) X(tbnz) X(bcond) X(hlt) X(brk) X(nop) \
  X(ldr) X(ldrb) X(ldrsb) X(ldrh) X(ldrsh) X(ldrsw) X(ldp) X(ldpsw) X(str) X(strb) X(strh) X(stp) X(ldaxr) X(stlxr) X(ldxr) X(stxr) X(ldar) X(stlr) X(ldarb) X(stlrb) \
  X(fmov) X(fadd) X(fsub) X(fmul) X(fdiv) X(fneg) X(fabs) X(fsqrt) X(fmadd) X(fmsub) X(fnmadd) X(fnmsub) X(fnmul) X(fcmp) X(fcmpe) X(fccmp) X(fcsel) X(fcvt) \
  X(fcvtzs) X(fcvtzu) X(fcvtas) X(fcvtns) X(fcvtms) X(fcvtps) X(fcvtnu) X(scvtf) X(ucvtf) X(frinta) X(frintn) X(frintm) X(frintp) X(frintz) X(frintx) X(frinti) X(fmax) X(fmin) X(fmaxnm) X(fminnm) \
  X(fmla) X(fmls) X(fcmlt) X(fcmle) X(fcmgt) X(fcmge) X(fcmeq) X(movi) X(mvni) X(dup) X(umov) X(smov) X(ins) X(mla) X(mls) X(bsl) X(bit) X(bif) X(not_) X(abs_) \
  X(cmeq) X(cmgt) X(cmge) X(cmhi) X(cmhs) X(cmlt) X(cmle) X(cmtst) X(smin) X(smax) X(umin) X(umax) X(sminp) X(smaxp) X(uminp) X(umaxp) X(addp) X(faddp) X(uadalp) X(sadalp) X(uaddlp) X(saddlp) \
  X(addv) X(uaddlv) X(saddlv) X(smaxv) X(sminv) X(umaxv) X(uminv) X(ushll) X(ushll2) X(sshll) X(sshll2) X(shl) X(sshr) X(ushr) X(ssra) X(usra) X(srshr) X(urshr) X(sri) X(sli) X(ushl) X(sshl) X(shrn) X(shrn2) \
  X(xtn) X(xtn2) X(sqxtn) X(sqxtn2) X(sqxtun) X(sqxtun2) X(uqxtn) X(uqxtn2) X(cnt) X(uzp1) X(uzp2) X(zip1) X(zip2) X(trn1) X(trn2) X(ext) X(tbl) X(sqadd) X(uqadd) X(sqsub) X(uqsub) \
  X(uaddl) X(uaddl2) X(saddl) X(saddl2) X(uaddw) X(uaddw2) X(saddw) X(saddw2) X(usubl) X(ssubl) X(smull2) X(umull2) X(smlal) X(umlal) X(smlal2) X(umlal2) X(uabd) X(sabd) X(fcvtl) X(fcvtn) \
  X(ld1) X(ld1r) X(ld2) X(ld3) X(ld4) X(st1) X(st2) X(st3) X(st4)
enum Op : u16 {
#define X(n) o_##n,
  A64_OPS(X)
#undef X
  o_unknown
};
struct Ins {
  Op op = o_unknown;
  u8 cond = 14, n = 0;
  Opd o[5];
  u64 target = 0;
  u32 text = 0;  // index of the source line
};

inline bool TestCond(u8 c, bool N, bool Z, bool C, bool V) {
  bool r;
  switch (c >> 1) {
    case 0: r = Z; break;
    case 1: r = C; break;
    case 2: r = N; break;
    case 3: r = V; break;
    case 4: r = C && !Z; break;
    case 5: r = N == V; break;
    case 6: r = N == V && !Z; break;
    default: return true;
  }
  return (c & 1) ? !r : r;
}
inline int CondCode(const string& s) {
  static const std::map<string, int> m = {{"eq", 0}, {"ne", 1}, {"hs", 2}, {"cs", 2}, {"lo", 3}, {"cc", 3}, {"mi", 4}, {"pl", 5}, {"vs", 6}, {"vc", 7},
                                          {"hi", 8}, {"ls", 9}, {"ge", 10}, {"lt", 11}, {"gt", 12}, {"le", 13}, {"al", 14}, {"nv", 15}};
  auto i = m.find(s);
  return i == m.end() ? -1 : i->second;
}

class Machine {
 public:
  struct alignas(16) Q { u8 b[16]; };
  u64 x[32] = {}, sp = 0, pc = 0;
  Q v[32] = {};
  bool N = false, Z = false, C = false, V = false;
  u64 count = 0, limit = 400000000;
  int tolerance = 0;           // bytes that may be read behind the end of an object
  std::map<u64, int> overreads;  // where that happened
  std::unordered_map<string, u64> sym;

  // image: the linked guest; disasm: llvm-objdump -d of it; stubs: names of the imported functions.
  void Load(const string& image, const string& disasm, const string& symbols, const string& stubs) {
    std::ifstream f(image, std::ios::binary);
    string e((std::istreambuf_iterator<char>(f)), {});
    if (e.size() < sizeof(Elf64_Ehdr)) Die("cannot read " + image);
    auto* h = (const Elf64_Ehdr*)e.data();
    for (int i = 0; i < h->e_phnum; ++i) {
      auto* p = (const Elf64_Phdr*)(e.data() + h->e_phoff + i * h->e_phentsize);
      if (p->p_type != PT_LOAD) continue;
      u64 lo = p->p_vaddr & ~0xfffull, hi = (p->p_vaddr + p->p_memsz + 0xfff) & ~0xfffull;
      void* m = mmap((void*)lo, hi - lo, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
      if (m != (void*)lo) Die("cannot map the guest");
      memcpy((void*)p->p_vaddr, e.data() + p->p_offset, p->p_filesz);
      segs_.push_back({p->p_vaddr, p->p_vaddr + p->p_memsz, (p->p_flags & PF_W) != 0});
      if (p->p_flags & PF_X) { text_lo_ = p->p_vaddr; text_hi_ = p->p_vaddr + p->p_memsz; }
    }
    code_.resize((text_hi_ - text_lo_) / 4);
    std::ifstream d(disasm);
    string line;
    while (std::getline(d, line)) {
      size_t c = line.find(':');
      if (c == string::npos || line.size() < c + 2 || !isxdigit(line[0] == ' ' ? line[line.find_first_not_of(' ')] : line[0])) continue;
      char* end;
      u64 a = strtoull(line.c_str(), &end, 16);
      if (*end != ':' || a < text_lo_ || a >= text_hi_) continue;
      lines_.push_back(line.substr(c + 1));
      Ins& i = code_[(a - text_lo_) / 4];
      i.text = lines_.size() - 1;
      Decode(lines_.back(), a, &i);
    }
    std::ifstream s(symbols);
    while (std::getline(s, line)) {  // llvm-nm
      size_t p = line.rfind(' ');
      if (p != string::npos) sym[line.substr(p + 1)] = strtoull(line.c_str(), nullptr, 16);
    }
    std::ifstream t(stubs);
    while (std::getline(t, line)) {
      names_.push_back(line);
      host_.push_back(dlsym(RTLD_DEFAULT, line.c_str()));
    }
    stack_size_ = 1 << 20;
    static vector<char> keep(stack_size_);
    stack_ = keep.data();
    sp = ((u64)stack_ + stack_size_ - 256) & ~15ull;
    if (sym.count("stderr")) *(FILE**)sym["stderr"] = stderr;
    if (sym.count("__init_array_start"))
      for (u64* p = (u64*)sym["__init_array_start"]; (u64)p < sym["__init_array_end"]; ++p) Call(*p, {});
  }
  // The instructions that are not understood.
  vector<string> Unknown() const {
    vector<string> r;
    for (size_t k = 0; k < code_.size(); ++k) if (code_[k].op == o_unknown && code_[k].text) r.push_back(lines_[code_[k].text]);
    return r;
  }
  u64 Symbol(const string& n) {
    auto i = sym.find(n);
    if (i == sym.end()) Die("the guest has no " + n);
    return i->second;
  }
  // Calls a guest function with integer or pointer arguments.
  u64 Call(u64 f, const vector<u64>& args, u64 junk = 1) {
    u64 saved_sp = sp, ret = kReturn + 4 * depth_++;
    Junk(junk);
    for (size_t i = 0; i < args.size() && i < 8; ++i) x[i] = args[i];
    if (args.size() > 8) {
      sp = (sp - 8 * (args.size() - 8)) & ~15ull;
      for (size_t i = 8; i < args.size(); ++i) memcpy((char*)sp + 8 * (i - 8), &args[i], 8);
    }
    u64 keep_x[11];
    Q keep_v[8];
    for (int i = 0; i < 11; ++i) keep_x[i] = x[19 + i] = junk * 0x9E3779B97F4A7C15ull + i;
    for (int i = 0; i < 8; ++i) keep_v[i] = v[8 + i];
    u64 want_sp = sp;
    x[30] = ret;
    pc = f;
    count = 0;
    try {
      Run(ret);
    } catch (Fault& e) {
      depth_--;
      sp = saved_sp;
      throw;
    }
    depth_--;
    if (sp != want_sp) throw Fault{"the function returns with another stack pointer"};
    for (int i = 0; i < 11; ++i) if (keep_x[i] != x[19 + i]) throw Fault{"the function does not preserve x" + std::to_string(19 + i)};
    for (int i = 0; i < 8; ++i) if (memcmp(&keep_v[i], &v[8 + i], 8)) throw Fault{"the function does not preserve d" + std::to_string(8 + i)};
    sp = saved_sp;
    return x[0];
  }

 private:
  static constexpr u64 kReturn = 0x1000;
  struct Seg { u64 lo, hi; bool w; };
  vector<Seg> segs_;
  vector<Ins> code_;
  vector<string> lines_, names_;
  vector<void*> host_;
  u64 text_lo_ = 0, text_hi_ = 0;
  char* stack_ = nullptr;
  size_t stack_size_ = 0;
  int depth_ = 0;
  u64 junk_ = 1, sp0_ = 0;

  [[noreturn]] static void Die(const string& m) { fprintf(stderr, "%s\n", m.c_str()); exit(3); }
  u64 Rnd() { junk_ ^= junk_ << 13; junk_ ^= junk_ >> 7; junk_ ^= junk_ << 17; return junk_; }
  // What a call may leave behind in the registers that it need not preserve.
  void Junk(u64 seed) {
    junk_ = seed * 0xD1342543DE82EF95ull + 0x632BE59BD9B4E019ull;
    if (!junk_) junk_ = 1;
    for (int i = 0; i <= 18; ++i) if (i != 18) x[i] = Rnd();
    for (int i = 0; i < 32; ++i) { u64 a[2] = {Rnd(), Rnd()}; if (i >= 8 && i < 16) memcpy(v[i].b + 8, a, 8); else memcpy(v[i].b, a, 16); }
    N = Rnd() & 1; Z = Rnd() & 2; C = Rnd() & 4; V = Rnd() & 8;
  }

  // ------------------------------------------------------------------ decoding
  static bool Number(const string& s, s64* r) {
    const char* p = s.c_str();
    if (*p == '#') ++p;
    char* e;
    *r = *p == '-' ? -(s64)strtoull(p + 1, &e, 0) : (s64)strtoull(p, &e, 0);
    return e != p && *e == 0 && !(*p == '-' && e == p + 1);
  }
  static bool Gpr(const string& s, Opd* o) {
    o->k = kGpr;
    if (s == "sp") { o->k = kSp; o->r = 31; o->w = 8; return true; }
    if (s == "wsp") { o->k = kSp; o->r = 31; o->w = 4; return true; }
    if (s == "xzr") { o->r = 31; o->w = 8; return true; }
    if (s == "wzr") { o->r = 31; o->w = 4; return true; }
    if (s.size() < 2 || (s[0] != 'x' && s[0] != 'w') || !isdigit(s[1])) return false;
    char* e;
    o->r = strtol(s.c_str() + 1, &e, 10);
    o->w = s[0] == 'x' ? 8 : 4;
    return *e == 0 && o->r < 31;
  }
  static bool Arrangement(const string& a, Opd* o) {
    size_t i = 0;
    int n = 0;
    while (i < a.size() && isdigit(a[i])) n = n * 10 + a[i++] - '0';
    if (i >= a.size()) return false;
    switch (a[i]) { case 'b': o->w = 1; break; case 'h': o->w = 2; break; case 's': o->w = 4; break; case 'd': o->w = 8; break; case 'q': o->w = 16; break; default: return false; }
    o->n = n ? n : 16 / o->w;
    ++i;
    if (i < a.size() && a[i] == '[') o->idx = atoi(a.c_str() + i + 1);
    return true;
  }
  static bool Reg(const string& s, Opd* o) {
    if (Gpr(s, o)) return true;
    *o = Opd();
    if (s.size() < 2 || !isdigit(s[1])) return false;
    char* e;
    o->r = strtol(s.c_str() + 1, &e, 10);
    if (s[0] == 'v' && *e == '.') { o->k = kVec; return Arrangement(e + 1, o); }
    if (*e) return false;
    o->k = kFp;
    o->n = 1;
    switch (s[0]) { case 'b': o->w = 1; return true; case 'h': o->w = 2; return true; case 's': o->w = 4; return true; case 'd': o->w = 8; return true; case 'q': o->w = 16; return true; }
    return false;
  }
  static bool Extend(const string& s, Ext* x, u8* amt) {
    static const std::map<string, Ext> m = {{"lsl", eLsl}, {"lsr", eLsr}, {"asr", eAsr}, {"ror", eRor}, {"msl", eMsl}, {"uxtb", eUxtb}, {"uxth", eUxth}, {"uxtw", eUxtw},
                                            {"uxtx", eUxtx}, {"sxtb", eSxtb}, {"sxth", eSxth}, {"sxtw", eSxtw}, {"sxtx", eSxtx}};
    size_t p = s.find(' ');
    auto i = m.find(s.substr(0, p));
    if (i == m.end()) return false;
    *x = i->second;
    s64 n = 0;
    if (p != string::npos && !Number(s.substr(p + 1), &n)) return false;
    *amt = n;
    return true;
  }
  static string Trim(string s) {
    while (!s.empty() && isspace(s.back())) s.pop_back();
    size_t i = 0;
    while (i < s.size() && isspace(s[i])) ++i;
    return s.substr(i);
  }
  static vector<string> Split(const string& s) {
    vector<string> r;
    int depth = 0;
    string cur;
    for (char c : s) {
      if (c == '[' || c == '{') ++depth;
      if (c == ']' || c == '}') --depth;
      if (c == ',' && !depth) { r.push_back(Trim(cur)); cur.clear(); } else cur += c;
    }
    if (!Trim(cur).empty()) r.push_back(Trim(cur));
    return r;
  }
  static bool Operand(const string& s, Opd* o) {
    if (Reg(s, o)) return true;
    *o = Opd();
    if (s[0] == '#' || isdigit(s[0]) || s[0] == '-') {
      if (Number(s, &o->imm)) { o->k = kImm; o->f = (double)o->imm; return true; }
      char* e;
      o->f = strtod(s.c_str() + (s[0] == '#'), &e);
      o->k = kFimm;
      return *e == 0;
    }
    if (s[0] == '{') {
      size_t c = s.find('}');
      auto regs = Split(s.substr(1, c - 1));
      if (regs.empty() || !Reg(regs[0], o) || o->k != kVec) return false;
      o->k = kList;
      o->count = regs.size();
      if (regs[0].find(" - ") != string::npos) return false;
      if (c + 1 < s.size() && s[c + 1] == '[') o->idx = atoi(s.c_str() + c + 2);
      return true;
    }
    if (s[0] == '[') {
      size_t c = s.find(']');
      auto in = Split(s.substr(1, c - 1));
      Opd b;
      if (in.empty() || !Gpr(in[0], &b)) return false;
      o->k = kMem;
      o->r = b.r;
      o->base_sp = b.k == kSp;
      if (in.size() > 1) {
        Opd i;
        if (Gpr(in[1], &i)) { o->has_reg = true; o->xr = i.r; o->xw = i.w; }
        else if (!Number(in[1], &o->imm)) return false;
        if (in.size() > 2 && !Extend(in[2], &o->ext, &o->amt)) return false;
      }
      if (c + 1 < s.size()) { if (s[c + 1] != '!') return false; o->mode = mPre; }
      return true;
    }
    int cc = CondCode(s);
    if (cc >= 0) { o->k = kCond; o->imm = cc; return true; }
    return false;
  }
  void Decode(string s, u64 addr, Ins* i) {
    size_t c = s.find("//");
    if (c != string::npos) s = s.substr(0, c);
    c = s.find(" <");
    if (c != string::npos) s = s.substr(0, c);
    s = Trim(s);
    c = s.find_first_of(" \t");
    string m = s.substr(0, c), rest = c == string::npos ? "" : Trim(s.substr(c));
    static const std::unordered_map<string, Op> ops = [] {
      std::unordered_map<string, Op> r;
#define X(n) { string k = #n; if (k.back() == '_') k.pop_back(); r[k] = o_##n; }
      A64_OPS(X)
#undef X
      for (auto& p : vector<std::pair<string, Op>>{{"ldur", o_ldr}, {"ldurb", o_ldrb}, {"ldursb", o_ldrsb}, {"ldurh", o_ldrh}, {"ldursh", o_ldrsh}, {"ldursw", o_ldrsw}, {"stur", o_str}, {"sturb", o_strb},
           {"sturh", o_strh}, {"ldnp", o_ldp}, {"stnp", o_stp}, {"sxtl", o_sshll}, {"uxtl", o_ushll}, {"sxtl2", o_sshll2}, {"uxtl2", o_ushll2}, {"prfm", o_nop}, {"prfum", o_nop}, {"dmb", o_nop}, {"bti", o_nop}, {"hint", o_nop}, {"udf", o_brk}})
        r[p.first] = p.second;
      return r;
    }();
    if (m.rfind("b.", 0) == 0) { i->op = o_bcond; i->cond = CondCode(m.substr(2)); }
    else { auto f = ops.find(m); if (f == ops.end()) return; i->op = f->second; }
    if (i->op == o_nop) return;
    Op op = i->op;
    for (auto& t : Split(rest)) {
      if (i->n) {
        Opd& last = i->o[i->n - 1];
        Ext e; u8 a;
        if (last.k != kMem && Extend(t, &e, &a)) { last.ext = e; last.amt = a; continue; }
        if (last.k == kMem && last.mode == mOffset && i->n && !last.has_reg && op != o_stlxr) {  // post-indexed
          Opd x;
          if (Gpr(t, &x)) { last.mode = mPost; last.has_reg = true; last.xr = x.r; continue; }
          if (Number(t, &x.imm)) { last.mode = mPost; last.imm = x.imm; continue; }
        }
      }
      if (i->n >= 5 || !Operand(t, &i->o[i->n])) { i->op = o_unknown; return; }
      i->n++;
    }
    bool branch = op == o_b || op == o_bl || op == o_bcond || op == o_cbz || op == o_cbnz || op == o_tbz || op == o_tbnz || op == o_adr || op == o_adrp;
    if (branch) i->target = i->o[i->n - 1].imm;
    (void)addr;
  }

  // ------------------------------------------------------------------ memory
  [[noreturn]] void Bad(u64 a, int n, bool w) {
    char b[200];
    snprintf(b, sizeof b, "%s of %d bytes at %#llx, outside of what it may access", w ? "a write" : "a read", n, (unsigned long long)a);
    throw Fault{b};
  }
  // How many of the n bytes are there: all of them, unless some lie within the tolerance.
  int Check(u64 a, int n, bool w) {
    if (a >= (u64)stack_ && a + n <= (u64)stack_ + stack_size_) {
      if (a < sp && a < sp0_) Bad(a, n, w);
      return n;
    }
    for (auto& s : segs_) if (a >= s.lo && a + n <= s.hi) { if (w && !s.w) Bad(a, n, w); return n; }
    if (char* bad = (char*)__asan_region_is_poisoned((void*)a, n)) {
      // How far behind the last byte that may be read?
      int over = (int)(a + n - (u64)bad);
      if (!w && (u64)bad == a) for (int k = 1; k <= 256 && __asan_address_is_poisoned((void*)(a - k)); ++k) over++;
      if (w || over > tolerance) Bad(a, n, w);
      overreads[pc] = std::max(overreads[pc], over);
      return (int)((u64)bad - a);
    }
    return n;
  }
  // What lies behind the end of an object is arbitrary.
  void Read(void* to, u64 a, int n) {
    int k = Check(a, n, false);
    memcpy(to, (void*)a, k);
    for (; k < n; ++k) ((u8*)to)[k] = (u8)Rnd();
  }
  u64 Load(u64 a, int n) { u64 r = 0; Read(&r, a, n); return r; }
  void Store(u64 a, u64 val, int n) { Check(a, n, true); memcpy((void*)a, &val, n); }
  void LoadV(int r, u64 a, int n) { Q q = {}; Read(q.b, a, n); v[r] = q; }
  void StoreV(int r, u64 a, int n) { Check(a, n, true); memcpy((void*)a, v[r].b, n); }

  u64 R(const Opd& o) const {
    u64 r = o.k == kSp ? sp : o.r == 31 ? 0 : x[o.r];
    return o.w == 4 ? (u32)r : r;
  }
  void W(const Opd& o, u64 val) {
    if (o.w == 4) val = (u32)val;
    if (o.k == kSp) sp = val; else if (o.r != 31) x[o.r] = val;
  }
  static u64 Extended(u64 a, Ext e, int amt, int w) {
    int bits = w * 8;
    switch (e) {
      case eNone: return a;
      case eLsl: return a << amt;
      case eLsr: return (w == 4 ? (u32)a : a) >> amt;
      case eAsr: return w == 4 ? (u64)(u32)((s32)a >> amt) : (u64)((s64)a >> amt);
      case eRor: { u64 m = w == 4 ? (u32)a : a; return amt ? (m >> amt) | (m << (bits - amt)) : m; }
      case eUxtb: return (u64)(u8)a << amt;
      case eUxth: return (u64)(u16)a << amt;
      case eUxtw: return (u64)(u32)a << amt;
      case eUxtx: return a << amt;
      case eSxtb: return (u64)(s64)(s8)a << amt;
      case eSxth: return (u64)(s64)(s16)a << amt;
      case eSxtw: return (u64)(s64)(s32)a << amt;
      case eSxtx: return a << amt;
      default: return a;
    }
  }
  u64 Val(const Opd& o, int w) const {
    u64 a = o.k == kImm ? (u64)o.imm : R(o);
    a = Extended(a, o.ext, o.amt, w);
    return w == 4 ? (u32)a : a;
  }
  u64 Addr(const Opd& o) {
    u64& base = o.base_sp ? sp : x[o.r];
    u64 off = o.has_reg ? Extended(o.xr == 31 ? 0 : o.xw == 4 ? (u32)x[o.xr] : x[o.xr], o.ext, o.amt, 8) : (u64)o.imm;
    if (o.mode == mPost) { u64 a = base; base += off; return a; }
    if (o.mode == mPre) { base += off; return base; }
    return base + off;
  }
  // ld1 and the like: without an immediate a post-index is the size transferred.
  u64 AddSub(u64 a, u64 b, bool carry, int w, bool flags) {
    u64 r;
    if (w == 4) {
      u64 s = (u64)(u32)a + (u32)b + carry;
      r = (u32)s;
      if (flags) { C = s >> 32; V = (((a ^ r) & (b ^ r)) >> 31) & 1; N = (r >> 31) & 1; Z = r == 0; }
    } else {
      u128 s = (u128)a + b + carry;
      r = (u64)s;
      if (flags) { C = (u64)(s >> 64); V = ((a ^ r) & (b ^ r)) >> 63; N = r >> 63; Z = r == 0; }
    }
    return r;
  }
  void Logic(u64 r, int w) { if (w == 4) r = (u32)r; N = (r >> (w * 8 - 1)) & 1; Z = r == 0; C = V = false; }
  bool Cond(u8 c) const { return TestCond(c, N, Z, C, V); }

  // ------------------------------------------------------------------ vectors
  template <typename T> T L(int r, int i) const { T t; memcpy(&t, v[r].b + i * sizeof(T), sizeof(T)); return t; }
  template <typename T> static T G(const Q& q, int i) { T t; memcpy(&t, q.b + i * sizeof(T), sizeof(T)); return t; }
  template <typename T> static void P(Q& q, int i, T t) { memcpy(q.b + i * sizeof(T), &t, sizeof(T)); }
  u64 Lane(int r, int i, int w) const { u64 t = 0; memcpy(&t, v[r].b + i * w, w); return t; }
  static u64 Cut(u64 a, int w) { return w == 8 ? a : a & ((1ull << (w * 8)) - 1); }
  static s64 Sx(u64 a, int w) { switch (w) { case 1: return (s8)a; case 2: return (s16)a; case 4: return (s32)a; default: return (s64)a; } }
  static void Put(Q& q, int i, u64 t, int w) { memcpy(q.b + i * w, &t, w); }

  // d = f(n, m) on each lane; zero above.
  template <typename F> void Each(const Ins& i, F f) {
    const Opd &d = i.o[0], &n = i.o[1], &m = i.o[2];
    Q q = {};
    for (int k = 0; k < d.n; ++k) {
      u64 b = m.k == kVec || m.k == kFp ? Lane(m.r, m.idx >= 0 ? m.idx : k, m.w) : (u64)m.imm;
      Put(q, k, (u64)f(Lane(n.r, n.idx >= 0 ? n.idx : k, n.w), b), d.w);
    }
    v[d.r] = q;
  }
  template <typename F> void Pairs(const Ins& i, F f) {  // pairwise over n and then m
    const Opd &d = i.o[0], &n = i.o[1], &m = i.o[2];
    Q q = {};
    if (i.n == 2) { Put(q, 0, (u64)f(Lane(n.r, 0, n.w), Lane(n.r, 1, n.w)), d.w); v[d.r] = q; return; }
    int h = d.n / 2;
    for (int k = 0; k < d.n; ++k) { int r = k < h ? n.r : m.r, j = (k < h ? k : k - h) * 2; Put(q, k, (u64)f(Lane(r, j, d.w), Lane(r, j + 1, d.w)), d.w); }
    v[d.r] = q;
  }
  template <typename F> void Across(const Ins& i, F f) {
    const Opd &d = i.o[0], &n = i.o[1];
    u64 a = f(0, Lane(n.r, 0, n.w), true);
    for (int k = 1; k < n.n; ++k) a = f(a, Lane(n.r, k, n.w), false);
    Q q = {};
    Put(q, 0, a, d.w);
    v[d.r] = q;
  }
  template <typename F> void Narrow(const Ins& i, bool second, F f) {
    const Opd &d = i.o[0], &n = i.o[1];
    Q q = {};
    if (second) memcpy(q.b, v[d.r].b, 8);
    int cnt = d.k == kFp ? 1 : 8 / d.w;
    for (int k = 0; k < cnt; ++k) Put(q, k + (second ? cnt : 0), (u64)f(Lane(n.r, k, n.w)), d.w);
    v[d.r] = q;
  }
  static s64 Sat(s128 a, int w) { s128 lo = -((s128)1 << (w * 8 - 1)), hi = -lo - 1; return (s64)(a < lo ? lo : a > hi ? hi : a); }
  static u64 USat(s128 a, int w) { s128 hi = ((s128)1 << (w * 8)) - 1; return (u64)(a < 0 ? 0 : a > hi ? hi : a); }

  // Floating point.
  static float F(u64 a) { u32 b = a; float f; memcpy(&f, &b, 4); return f; }
  static double D(u64 a) { double f; memcpy(&f, &a, 8); return f; }
  static u64 B(float f) { u32 b; memcpy(&b, &f, 4); return b; }
  static u64 B(double f) { u64 b; memcpy(&b, &f, 8); return b; }
  template <typename F4, typename F8> void EachF(const Ins& i, F4 f4, F8 f8) {
    if (i.o[0].w == 4) Each(i, [&](u64 a, u64 b) { return B((float)f4(F(a), F(b))); });
    else if (i.o[0].w == 8) Each(i, [&](u64 a, u64 b) { return B((double)f8(D(a), D(b))); });
    else throw Unmodelled{"half precision"};
  }
  template <typename Fn> void EachCmp(const Ins& i, Fn f) {  // with a register or zero
    if (i.o[1].w == 4) Each(i, [&](u64 a, u64 b) { return f((double)F(a), i.o[2].k == kVec || i.o[2].k == kFp ? (double)F(b) : 0.0) ? ~0ull : 0ull; });
    else Each(i, [&](u64 a, u64 b) { return f(D(a), i.o[2].k == kVec || i.o[2].k == kFp ? D(b) : 0.0) ? ~0ull : 0ull; });
  }
  static double Round(double a, char mode) {
    switch (mode) {
      case 'a': return ::round(a);
      case 'n': return ::nearbyint(a);
      case 'm': return ::floor(a);
      case 'p': return ::ceil(a);
      default: return ::trunc(a);
    }
  }
  static u64 ToInt(double a, char mode, int w, bool sgn) {
    if (std::isnan(a)) return 0;
    double r = Round(a, mode);
    if (sgn) {
      double lim = ::ldexp(1, w * 8 - 1);
      if (r >= lim) return Cut((w == 8 ? 0x7fffffffffffffffull : (1ull << (w * 8 - 1)) - 1), w);
      if (r < -lim) return Cut(1ull << (w * 8 - 1), w);
      return Cut((u64)(s64)r, w);
    }
    if (r < 0) return 0;
    if (r >= ::ldexp(1, w * 8)) return Cut(~0ull, w);
    return Cut((u64)r, w);
  }
  void CvtToInt(const Ins& i, char mode, bool sgn) {
    const Opd &d = i.o[0], &n = i.o[1];
    if (i.n > 2) throw Unmodelled{"fixed point"};
    if (d.k == kGpr) { W(d, ToInt(n.w == 4 ? (double)F(Lane(n.r, 0, 4)) : D(Lane(n.r, 0, 8)), mode, d.w, sgn)); return; }
    Q q = {};
    for (int k = 0; k < d.n; ++k) Put(q, k, ToInt(d.w == 4 ? (double)F(Lane(n.r, k, 4)) : D(Lane(n.r, k, 8)), mode, d.w, sgn), d.w);
    v[d.r] = q;
  }
  void CvtFromInt(const Ins& i, bool sgn) {
    const Opd &d = i.o[0], &n = i.o[1];
    if (i.n > 2) throw Unmodelled{"fixed point"};
    Q q = {};
    auto conv = [&](u64 a, int w) -> u64 {
      if (d.w == 4) return sgn ? B((float)Sx(a, w)) : B((float)a);
      return sgn ? B((double)Sx(a, w)) : B((double)a);
    };
    if (n.k == kGpr) Put(q, 0, conv(R(n), n.w), d.w);
    else for (int k = 0; k < d.n; ++k) Put(q, k, conv(Lane(n.r, k, d.w), d.w), d.w);
    v[d.r] = q;
  }
  void Rint(const Ins& i, char mode) {
    const Opd &d = i.o[0], &n = i.o[1];
    Q q = {};
    for (int k = 0; k < d.n; ++k) Put(q, k, d.w == 4 ? B((float)Round(F(Lane(n.r, k, 4)), mode)) : B(Round(D(Lane(n.r, k, 8)), mode)), d.w);
    v[d.r] = q;
  }
  template <typename T> static T MaxF(T a, T b) { return std::isnan(a) ? a : std::isnan(b) ? b : a == b ? (std::signbit(a) ? b : a) : a > b ? a : b; }
  template <typename T> static T MinF(T a, T b) { return std::isnan(a) ? a : std::isnan(b) ? b : a == b ? (std::signbit(a) ? a : b) : a < b ? a : b; }
  void CompareF(double a, double b) {
    if (std::isnan(a) || std::isnan(b)) { N = Z = false; C = V = true; }
    else if (a == b) { N = V = false; Z = C = true; }
    else if (a < b) { N = true; Z = C = V = false; }
    else { N = Z = V = false; C = true; }
  }
  double ScalarF(const Opd& o) const { return o.k == kImm || o.k == kFimm ? o.f : o.w == 4 ? (double)F(Lane(o.r, 0, 4)) : D(Lane(o.r, 0, 8)); }
  void FusedMul(const Ins& i, bool neg_product, bool neg_addend) {
    const Opd& d = i.o[0];
    Q q = {};
    if (d.w == 4) {
      float a = F(Lane(i.o[1].r, 0, 4)), b = F(Lane(i.o[2].r, 0, 4)), c = F(Lane(i.o[3].r, 0, 4));
      Put(q, 0, B(::fmaf(neg_product ? -a : a, b, neg_addend ? -c : c)), 4);
    } else {
      double a = D(Lane(i.o[1].r, 0, 8)), b = D(Lane(i.o[2].r, 0, 8)), c = D(Lane(i.o[3].r, 0, 8));
      Put(q, 0, B(::fma(neg_product ? -a : a, b, neg_addend ? -c : c)), 8);
    }
    v[d.r] = q;
  }
  u64 ModImm(const Ins& i) {
    u64 a = (u64)i.o[1].imm;
    if (i.o[1].ext == eLsl) a <<= i.o[1].amt;
    if (i.o[1].ext == eMsl) a = (a << i.o[1].amt) | ((1ull << i.o[1].amt) - 1);
    return a;
  }
  // Structure loads and stores.
  void Structure(const Ins& i, int ways, bool load, bool replicate) {
    const Opd &l = i.o[0], &m = i.o[1];
    int bytes;
    u64& base = m.base_sp ? sp : x[m.r];
    u64 a = base;
    if (replicate) {
      bytes = l.count * l.w;
      for (int c = 0; c < l.count; ++c) { u64 t = Load(a + c * l.w, l.w); Q q = {}; for (int k = 0; k < l.n; ++k) Put(q, k, t, l.w); v[(l.r + c) & 31] = q; }
    } else if (l.idx >= 0) {
      bytes = l.count * l.w;
      for (int c = 0; c < l.count; ++c) {
        if (load) { u64 t = Load(a + c * l.w, l.w); Put(v[(l.r + c) & 31], l.idx, t, l.w); }
        else Store(a + c * l.w, Lane((l.r + c) & 31, l.idx, l.w), l.w);
      }
    } else {
      bytes = l.count * l.n * l.w;
      u8 data[64];
      if (load) Read(data, a, bytes); else Check(a, bytes, true);
      if (load) for (int c = 0; c < l.count; ++c) v[(l.r + c) & 31] = Q{};
      for (int e = 0; e < l.count * l.n; ++e) {
        int c = ways == 1 ? e / l.n : e % ways, k = ways == 1 ? e % l.n : e / ways;
        if (load) memcpy(v[(l.r + c) & 31].b + k * l.w, data + e * l.w, l.w); else memcpy((char*)a + e * l.w, v[(l.r + c) & 31].b + k * l.w, l.w);
      }
    }
    if (m.mode == mPost) base += m.has_reg ? x[m.xr] : (u64)m.imm;
    (void)bytes;
  }

  // ------------------------------------------------------------------ host calls
  void HostCall(void* f, const string& name) {
    static const std::map<string, int> fp = {{"roundf", 1}, {"floorf", 1}, {"ceilf", 1}, {"truncf", 1}, {"sqrtf", 1}, {"fabsf", 1}, {"expf", 1}, {"logf", 1}, {"rintf", 1}, {"nearbyintf", 1},
                                             {"round", 2}, {"floor", 2}, {"ceil", 2}, {"trunc", 2}, {"sqrt", 2}, {"fabs", 2}, {"exp", 2}, {"log", 2}, {"rint", 2}, {"nearbyint", 2}};
    if (name == "abort" || name == "__cxa_pure_virtual" || name == "_ZSt9terminatev" || name.rfind("_ZSt", 0) == 0 && name.find("throw_") != string::npos) throw Fault{"it calls " + name};
    if (name == "memcpy" || name == "memmove") { if (x[2]) { Check(x[1], (int)x[2], false); Check(x[0], (int)x[2], true); } memmove((void*)x[0], (void*)x[1], x[2]); Junk2(x[0]); return; }
    if (name == "memset") { if (x[2]) Check(x[0], (int)x[2], true); memset((void*)x[0], (int)x[1], x[2]); Junk2(x[0]); return; }
    if (name == "__cxa_atexit") { Junk2(0); return; }
    if (!f) throw Unmodelled{"a call of " + name};
    auto k = fp.find(name);
    if (k != fp.end()) {
      Q q = {};
      if (k->second == 1) P(q, 0, ((float (*)(float))f)(L<float>(0, 0))); else P(q, 0, ((double (*)(double))f)(L<double>(0, 0)));
      Junk2(0);
      v[0] = q;
      return;
    }
    auto g = (u64(*)(u64, ...))f;
    double d[8];
    for (int i = 0; i < 8; ++i) d[i] = L<double>(i, 0);
    u64 r = g(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]);
    Junk2(r);
  }
  void Junk2(u64 r) {  // a callee may change these
    u64 lr = x[30], s18 = x[18];
    for (int i = 1; i < 18; ++i) x[i] = Rnd();
    x[18] = s18;
    for (int i = 0; i < 32; ++i) { u64 a[2] = {Rnd(), Rnd()}; if (i >= 8 && i < 16) memcpy(v[i].b + 8, a, 8); else memcpy(v[i].b, a, 16); }
    x[0] = r;
    x[30] = lr;
  }

  void Run(u64 stop) {
    while (pc != stop) {
      if (pc < text_lo_ || pc >= text_hi_) {  // a host callback
        u64 f = pc;
        if (f < 0x10000 || (f & 0xffff800000000000ull)) throw Fault{"it jumps to a wild address"};
        HostCall((void*)f, "");
        pc = x[30];
        continue;
      }
      const Ins& i = code_[(pc - text_lo_) / 4];
      if (++count > limit) throw Fault{"it does not terminate"};
      try {
        u64 next = pc + 4;
        sp0_ = sp;
        Step(i, next);
        pc = next;
      } catch (Fault& e) {
        e.msg += " in" + Where();
        throw;
      } catch (Unmodelled& e) {
        Die("not modelled: " + e.msg + " in" + Where());
      }
    }
  }
  public:
  string Where() { return Where(pc); }
  string Where(u64 pc) {
    string best, t = pc >= text_lo_ && pc < text_hi_ ? lines_[code_[(pc - text_lo_) / 4].text] : "";
    u64 at = 0;
    for (auto& s : sym) if (s.second <= pc && s.second >= at && s.first[0] != '$') { at = s.second; best = s.first; }
    return t + " (" + best + "+" + std::to_string(pc - at) + ")";
  }

  void Step(const Ins& i, u64& next);
};
}  // namespace a64
#include "aarch64/step.h"
#pragma clang attribute pop
#endif
