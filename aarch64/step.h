// One instruction. Included by emu.h.
namespace a64 {
inline void Machine::Step(const Ins& i, u64& next) {
  const Opd &a = i.o[0], &b = i.o[1], &c = i.o[2], &e = i.o[3];
  bool vec = a.k == kVec || a.k == kFp;
  auto umul = [](u64 p, u64 q) { return p * q; };
  switch (i.op) {
    // ---------------------------------------------------------------- integers
    case o_add: if (vec) Each(i, [](u64 p, u64 q) { return p + q; }); else W(a, AddSub(R(b), Val(c, a.w), false, a.w, false)); break;
    case o_sub: if (vec) Each(i, [](u64 p, u64 q) { return p - q; }); else W(a, AddSub(R(b), ~Val(c, a.w), true, a.w, false)); break;
    case o_adds: W(a, AddSub(R(b), Val(c, a.w), false, a.w, true)); break;
    case o_subs: W(a, AddSub(R(b), ~Val(c, a.w), true, a.w, true)); break;
    case o_adc: W(a, AddSub(R(b), R(c), C, a.w, false)); break;
    case o_sbc: W(a, AddSub(R(b), ~R(c), C, a.w, false)); break;
    case o_cmp: AddSub(R(a), ~Val(b, a.w), true, a.w, true); break;
    case o_cmn: AddSub(R(a), Val(b, a.w), false, a.w, true); break;
    case o_neg: if (vec) Each(i, [](u64 p, u64) { return 0 - p; }); else W(a, 0 - Val(b, a.w)); break;
    case o_negs: W(a, AddSub(0, ~Val(b, a.w), true, a.w, true)); break;
    case o_and_: if (vec) Each(i, [](u64 p, u64 q) { return p & q; }); else W(a, R(b) & Val(c, a.w)); break;
    case o_ands: { u64 r = R(b) & Val(c, a.w); W(a, r); Logic(r, a.w); break; }
    case o_tst: Logic(R(a) & Val(b, a.w), a.w); break;
    case o_orr:
      if (vec && b.k == kImm) { u64 m = ModImm(i); for (int k = 0; k < a.n; ++k) Put(v[a.r], k, Lane(a.r, k, a.w) | m, a.w); if (a.n * a.w == 8) memset(v[a.r].b + 8, 0, 8); }
      else if (vec) Each(i, [](u64 p, u64 q) { return p | q; });
      else W(a, R(b) | Val(c, a.w));
      break;
    case o_eor: if (vec) Each(i, [](u64 p, u64 q) { return p ^ q; }); else W(a, R(b) ^ Val(c, a.w)); break;
    case o_bic:
      if (vec && b.k == kImm) { u64 m = ModImm(i); for (int k = 0; k < a.n; ++k) Put(v[a.r], k, Lane(a.r, k, a.w) & ~m, a.w); if (a.n * a.w == 8) memset(v[a.r].b + 8, 0, 8); }
      else if (vec) Each(i, [](u64 p, u64 q) { return p & ~q; });
      else W(a, R(b) & ~Val(c, a.w));
      break;
    case o_bics: { u64 r = R(b) & ~Val(c, a.w); W(a, r); Logic(r, a.w); break; }
    case o_orn: if (vec) Each(i, [](u64 p, u64 q) { return p | ~q; }); else W(a, R(b) | ~Val(c, a.w)); break;
    case o_eon: W(a, R(b) ^ ~Val(c, a.w)); break;
    case o_mvn: case o_not_: if (vec) Each(i, [](u64 p, u64) { return ~p; }); else W(a, ~Val(b, a.w)); break;
    case o_mov:
      if (a.k == kVec && a.idx >= 0) { u64 t = b.k == kGpr ? R(b) : Lane(b.r, b.idx, b.w); Put(v[a.r], a.idx, t, a.w); }
      else if (a.k == kVec) Each(i, [](u64 p, u64) { return p; });
      else if (a.k == kFp) { u64 t = Lane(b.r, b.idx, b.w); Q q = {}; Put(q, 0, t, a.w); v[a.r] = q; }
      else if (b.k == kVec) W(a, Lane(b.r, b.idx, b.w));
      else if (b.k == kImm) W(a, Extended((u64)b.imm, b.ext, b.amt, 8));
      else W(a, R(b));
      break;
    case o_ins: Put(v[a.r], a.idx, b.k == kGpr ? R(b) : Lane(b.r, b.idx, b.w), a.w); break;
    case o_umov: W(a, Lane(b.r, b.idx, b.w)); break;
    case o_smov: W(a, (u64)Sx(Lane(b.r, b.idx, b.w), b.w)); break;
    case o_dup: {
      Q q = {};
      u64 t = b.k == kGpr ? R(b) : Lane(b.r, b.idx, b.w);
      for (int k = 0; k < a.n; ++k) Put(q, k, t, a.w);
      v[a.r] = q;
      break;
    }
    case o_movi: {
      Q q = {};
      u64 t = ModImm(i);
      for (int k = 0; k < a.n; ++k) Put(q, k, t, a.w);
      v[a.r] = q;
      break;
    }
    case o_mvni: {
      Q q = {};
      u64 t = ~ModImm(i);
      for (int k = 0; k < a.n; ++k) Put(q, k, t, a.w);
      v[a.r] = q;
      break;
    }
    case o_movz: W(a, (u64)b.imm << b.amt); break;
    case o_movn: W(a, ~((u64)b.imm << b.amt)); break;
    case o_movk: { u64 m = 0xffffull << b.amt; W(a, (R(a) & ~m) | (((u64)b.imm << b.amt) & m)); break; }
    case o_mul: if (vec) Each(i, umul); else W(a, R(b) * R(c)); break;
    case o_mneg: W(a, 0 - R(b) * R(c)); break;
    case o_madd: W(a, R(e) + R(b) * R(c)); break;
    case o_msub: W(a, R(e) - R(b) * R(c)); break;
    case o_smaddl: W(a, R(e) + (u64)((s64)(s32)R(b) * (s32)R(c))); break;
    case o_umaddl: W(a, R(e) + (u64)(u32)R(b) * (u32)R(c)); break;
    case o_smsubl: W(a, R(e) - (u64)((s64)(s32)R(b) * (s32)R(c))); break;
    case o_umsubl: W(a, R(e) - (u64)(u32)R(b) * (u32)R(c)); break;
    case o_smulh: W(a, (u64)(((s128)(s64)R(b) * (s64)R(c)) >> 64)); break;
    case o_umulh: W(a, (u64)(((u128)R(b) * R(c)) >> 64)); break;
    case o_smull: case o_umull: case o_smull2: case o_umull2: case o_smlal: case o_umlal: case o_smlal2: case o_umlal2: {
      bool sgn = i.op == o_smull || i.op == o_smull2 || i.op == o_smlal || i.op == o_smlal2;
      if (!vec) { W(a, sgn ? (u64)((s64)(s32)R(b) * (s32)R(c)) : (u64)(u32)R(b) * (u32)R(c)); break; }
      bool hi = i.op == o_smull2 || i.op == o_umull2 || i.op == o_smlal2 || i.op == o_umlal2, acc = i.op == o_smlal || i.op == o_umlal || i.op == o_smlal2 || i.op == o_umlal2;
      Q q = {};
      int off = hi ? a.n : 0;
      for (int k = 0; k < a.n; ++k) {
        u64 p = Lane(b.r, b.idx >= 0 ? b.idx : k + off, b.w), r = Lane(c.r, c.idx >= 0 ? c.idx : k + off, c.w);
        u64 t = sgn ? (u64)(Sx(p, b.w) * Sx(r, c.w)) : p * r;
        Put(q, k, t + (acc ? Lane(a.r, k, a.w) : 0), a.w);
      }
      v[a.r] = q;
      break;
    }
    case o_sdiv: {
      s64 p = Sx(R(b), a.w), q = Sx(R(c), a.w);
      W(a, q == 0 ? 0 : q == -1 ? 0 - (u64)p : (u64)(p / q));
      break;
    }
    case o_udiv: W(a, R(c) ? R(b) / R(c) : 0); break;
    case o_lsl: W(a, c.k == kImm ? R(b) << c.imm : R(b) << (R(c) & (a.w * 8 - 1))); break;
    case o_lsr: W(a, R(b) >> (c.k == kImm ? c.imm : R(c) & (a.w * 8 - 1))); break;
    case o_asr: W(a, (u64)(Sx(R(b), a.w) >> (c.k == kImm ? c.imm : R(c) & (a.w * 8 - 1)))); break;
    case o_ror: W(a, Extended(R(b), eRor, c.k == kImm ? (int)c.imm : (int)(R(c) & (a.w * 8 - 1)), a.w)); break;
    case o_extr: { int l = e.imm, w = a.w * 8; u64 lo = R(c), hi = R(b); W(a, l ? (lo >> l) | (hi << (w - l)) : lo); break; }
    case o_ubfx: { u64 m = e.imm == 64 ? ~0ull : (1ull << e.imm) - 1; W(a, (R(b) >> c.imm) & m); break; }
    case o_sbfx: { u64 t = (R(b) >> c.imm) << (64 - e.imm); W(a, (u64)((s64)t >> (64 - e.imm))); break; }
    case o_ubfiz: { u64 m = e.imm == 64 ? ~0ull : (1ull << e.imm) - 1; W(a, (R(b) & m) << c.imm); break; }
    case o_sbfiz: { u64 t = R(b) << (64 - e.imm); W(a, (u64)((s64)t >> (64 - e.imm)) << c.imm); break; }
    case o_bfi: { u64 m = (e.imm == 64 ? ~0ull : (1ull << e.imm) - 1) << c.imm; W(a, (R(a) & ~m) | ((R(b) << c.imm) & m)); break; }
    case o_bfxil: { u64 m = e.imm == 64 ? ~0ull : (1ull << e.imm) - 1; W(a, (R(a) & ~m) | ((R(b) >> c.imm) & m)); break; }
    case o_sxtw: W(a, (u64)(s64)(s32)R(b)); break;
    case o_sxtb: W(a, (u64)(s64)(s8)R(b)); break;
    case o_sxth: W(a, (u64)(s64)(s16)R(b)); break;
    case o_uxtb: W(a, (u8)R(b)); break;
    case o_uxth: W(a, (u16)R(b)); break;
    case o_clz:
      if (vec) { int w = a.w; Each(i, [w](u64 p, u64) -> u64 { return p ? __builtin_clzll(p) - (64 - w * 8) : w * 8; }); }
      else { u64 t = R(b); W(a, t ? __builtin_clzll(t) - (64 - a.w * 8) : a.w * 8); }
      break;
    case o_cls: { if (vec) throw Unmodelled{"cls"}; s64 t = Sx(R(b), a.w); W(a, (u64)__builtin_clrsbll(t) - (64 - a.w * 8)); break; }
    case o_rbit: {
      auto rev = [](u64 t, int bits) { u64 r = 0; for (int k = 0; k < bits; ++k) if (t >> k & 1) r |= 1ull << (bits - 1 - k); return r; };
      if (vec) Each(i, [&](u64 p, u64) { return rev(p, 8); }); else W(a, rev(R(b), a.w * 8));
      break;
    }
    case o_rev: W(a, a.w == 8 ? __builtin_bswap64(R(b)) : __builtin_bswap32((u32)R(b))); break;
    case o_rev16: case o_rev32: case o_rev64: {
      int g = i.op == o_rev16 ? 2 : i.op == o_rev32 ? 4 : 8;
      if (!vec) {
        u64 t = R(b), r = 0;
        for (int k = 0; k < a.w; ++k) r |= ((t >> (8 * k)) & 0xff) << (8 * (k / g * g + g - 1 - k % g));
        W(a, r);
        break;
      }
      Q q = {};
      int per = g / a.w;
      for (int k = 0; k < a.n; ++k) Put(q, k / per * per + per - 1 - k % per, Lane(b.r, k, a.w), a.w);
      v[a.r] = q;
      break;
    }
    case o_csel: W(a, Cond(e.imm) ? R(b) : R(c)); break;
    case o_csinc: W(a, Cond(e.imm) ? R(b) : R(c) + 1); break;
    case o_csinv: W(a, Cond(e.imm) ? R(b) : ~R(c)); break;
    case o_csneg: W(a, Cond(e.imm) ? R(b) : 0 - R(c)); break;
    case o_cset: W(a, Cond(b.imm)); break;
    case o_csetm: W(a, Cond(b.imm) ? ~0ull : 0); break;
    case o_cinc: W(a, Cond(c.imm) ? R(b) + 1 : R(b)); break;
    case o_cinv: W(a, Cond(c.imm) ? ~R(b) : R(b)); break;
    case o_cneg: W(a, Cond(c.imm) ? 0 - R(b) : R(b)); break;
    case o_ccmp: case o_ccmn:
      if (Cond(e.imm)) { u64 q = Val(b, a.w); if (i.op == o_ccmp) AddSub(R(a), ~q, true, a.w, true); else AddSub(R(a), q, false, a.w, true); }
      else { N = c.imm & 8; Z = c.imm & 4; C = c.imm & 2; V = c.imm & 1; }
      break;
    case o_adr: case o_adrp: W(a, i.target); break;

    // ---------------------------------------------------------------- control
    case o_b: next = i.target; break;
    case o_bl: x[30] = pc + 4; next = i.target; break;
    case o_blr: { u64 t = R(a); x[30] = pc + 4; next = t; break; }
    case o_br: next = R(a); break;
    case o_ret: next = i.n ? R(a) : x[30]; break;
    case o_cbz: if (R(a) == 0) next = i.target; break;
    case o_cbnz: if (R(a) != 0) next = i.target; break;
    case o_tbz: if (!(R(a) >> b.imm & 1)) next = i.target; break;
    case o_tbnz: if (R(a) >> b.imm & 1) next = i.target; break;
    case o_bcond: if (Cond(i.cond)) next = i.target; break;
    case o_hlt: {  // the body of an imported function
      size_t k = (size_t)a.imm;
      if (k >= names_.size()) throw Fault{"it halts"};
      HostCall(host_[k], names_[k]);
      break;
    }
    case o_brk: throw Fault{"it traps"};
    case o_nop: break;

    // ---------------------------------------------------------------- memory
    case o_ldr:
      if (b.k != kMem) { if (a.k == kFp) LoadV(a.r, (u64)b.imm, a.w); else W(a, Load((u64)b.imm, a.w)); break; }
      if (a.k == kFp) LoadV(a.r, Addr(b), a.w); else { u64 t = Addr(b); W(a, Load(t, a.w)); }
      break;
    case o_ldrb: W(a, Load(Addr(b), 1)); break;
    case o_ldrh: W(a, Load(Addr(b), 2)); break;
    case o_ldrsb: W(a, (u64)Sx(Load(Addr(b), 1), 1)); break;
    case o_ldrsh: W(a, (u64)Sx(Load(Addr(b), 2), 2)); break;
    case o_ldrsw: W(a, (u64)Sx(Load(Addr(b), 4), 4)); break;
    case o_ldar: case o_ldxr: case o_ldaxr: W(a, Load(Addr(b), a.w)); break;
    case o_ldarb: W(a, Load(Addr(b), 1)); break;
    case o_str: { u64 p = Addr(b); if (a.k == kFp) StoreV(a.r, p, a.w); else Store(p, R(a), a.w); break; }
    case o_stlr: Store(Addr(b), R(a), a.w); break;
    case o_strb: case o_stlrb: { u64 p = Addr(b); Store(p, R(a), 1); break; }
    case o_strh: Store(Addr(b), R(a), 2); break;
    case o_stxr: case o_stlxr: Store(Addr(c), R(b), b.w); W(a, 0); break;
    case o_ldp: {
      u64 p = Addr(c);
      if (a.k == kFp) { LoadV(a.r, p, a.w); LoadV(b.r, p + a.w, a.w); }
      else { u64 s = Load(p, a.w), t = Load(p + a.w, a.w); W(a, s); W(b, t); }
      break;
    }
    case o_ldpsw: { u64 p = Addr(c); u64 s = Load(p, 4), t = Load(p + 4, 4); W(a, (u64)Sx(s, 4)); W(b, (u64)Sx(t, 4)); break; }
    case o_stp: {
      u64 s = a.k == kFp ? 0 : R(a), t = a.k == kFp ? 0 : R(b), p = Addr(c);
      if (a.k == kFp) { StoreV(a.r, p, a.w); StoreV(b.r, p + a.w, a.w); } else { Store(p, s, a.w); Store(p + a.w, t, a.w); }
      break;
    }
    case o_ld1: Structure(i, 1, true, false); break;
    case o_ld1r: Structure(i, 1, true, true); break;
    case o_ld2: Structure(i, 2, true, false); break;
    case o_ld3: Structure(i, 3, true, false); break;
    case o_ld4: Structure(i, 4, true, false); break;
    case o_st1: Structure(i, 1, false, false); break;
    case o_st2: Structure(i, 2, false, false); break;
    case o_st3: Structure(i, 3, false, false); break;
    case o_st4: Structure(i, 4, false, false); break;

    // ---------------------------------------------------------------- floating point
    case o_fmov:
      if (a.k == kGpr) W(a, b.k == kVec ? Lane(b.r, b.idx, 8) : Lane(b.r, 0, b.w));
      else if (b.k == kGpr) { u64 t = R(b); if (a.k == kVec) Put(v[a.r], a.idx, t, 8); else { Q q = {}; Put(q, 0, t, a.w); v[a.r] = q; } }
      else if (b.k == kFimm || b.k == kImm) { Q q = {}; for (int k = 0; k < a.n; ++k) Put(q, k, a.w == 4 ? B((float)b.f) : B(b.f), a.w); v[a.r] = q; }
      else { u64 t = Lane(b.r, 0, b.w); Q q = {}; Put(q, 0, t, a.w); v[a.r] = q; }
      break;
    case o_fadd: EachF(i, [](float p, float q) { return p + q; }, [](double p, double q) { return p + q; }); break;
    case o_fsub: EachF(i, [](float p, float q) { return p - q; }, [](double p, double q) { return p - q; }); break;
    case o_fmul: EachF(i, [](float p, float q) { return p * q; }, [](double p, double q) { return p * q; }); break;
    case o_fdiv: EachF(i, [](float p, float q) { return p / q; }, [](double p, double q) { return p / q; }); break;
    case o_fnmul: EachF(i, [](float p, float q) { return -(p * q); }, [](double p, double q) { return -(p * q); }); break;
    case o_fneg: EachF(i, [](float p, float) { return -p; }, [](double p, double) { return -p; }); break;
    case o_fabs: EachF(i, [](float p, float) { return ::fabsf(p); }, [](double p, double) { return ::fabs(p); }); break;
    case o_fsqrt: EachF(i, [](float p, float) { return ::sqrtf(p); }, [](double p, double) { return ::sqrt(p); }); break;
    case o_fmax: EachF(i, [](float p, float q) { return MaxF(p, q); }, [](double p, double q) { return MaxF(p, q); }); break;
    case o_fmin: EachF(i, [](float p, float q) { return MinF(p, q); }, [](double p, double q) { return MinF(p, q); }); break;
    case o_fmaxnm: EachF(i, [](float p, float q) { return ::fmaxf(p, q); }, [](double p, double q) { return ::fmax(p, q); }); break;
    case o_fminnm: EachF(i, [](float p, float q) { return ::fminf(p, q); }, [](double p, double q) { return ::fmin(p, q); }); break;
    case o_fmla: case o_fmls: {
      Q q = {};
      bool neg = i.op == o_fmls;
      for (int k = 0; k < a.n; ++k) {
        u64 p = Lane(b.r, b.idx >= 0 ? b.idx : k, a.w), r = Lane(c.r, c.idx >= 0 ? c.idx : k, a.w), s = Lane(a.r, k, a.w);
        Put(q, k, a.w == 4 ? B(::fmaf(neg ? -F(p) : F(p), F(r), F(s))) : B(::fma(neg ? -D(p) : D(p), D(r), D(s))), a.w);
      }
      v[a.r] = q;
      break;
    }
    case o_fmadd: FusedMul(i, false, false); break;
    case o_fmsub: FusedMul(i, true, false); break;
    case o_fnmadd: FusedMul(i, true, true); break;
    case o_fnmsub: FusedMul(i, false, true); break;
    case o_fcmp: case o_fcmpe: CompareF(ScalarF(a), ScalarF(b)); break;
    case o_fccmp:
      if (Cond(e.imm)) CompareF(ScalarF(a), ScalarF(b)); else { N = c.imm & 8; Z = c.imm & 4; C = c.imm & 2; V = c.imm & 1; }
      break;
    case o_fcsel: { u64 t = Cond(e.imm) ? Lane(b.r, 0, a.w) : Lane(c.r, 0, a.w); Q q = {}; Put(q, 0, t, a.w); v[a.r] = q; break; }
    case o_fcvt: {
      if (a.w < 4 || b.w < 4) throw Unmodelled{"half precision"};
      Q q = {};
      if (a.w == 8) Put(q, 0, B((double)F(Lane(b.r, 0, 4))), 8); else Put(q, 0, B((float)D(Lane(b.r, 0, 8))), 4);
      v[a.r] = q;
      break;
    }
    case o_fcvtl: { if (a.w != 8) throw Unmodelled{"half precision"}; Q q = {}; for (int k = 0; k < 2; ++k) Put(q, k, B((double)F(Lane(b.r, k, 4))), 8); v[a.r] = q; break; }
    case o_fcvtn: { if (a.w != 4) throw Unmodelled{"half precision"}; Q q = {}; for (int k = 0; k < 2; ++k) Put(q, k, B((float)D(Lane(b.r, k, 8))), 4); v[a.r] = q; break; }
    case o_fcvtzs: CvtToInt(i, 'z', true); break;
    case o_fcvtzu: CvtToInt(i, 'z', false); break;
    case o_fcvtas: CvtToInt(i, 'a', true); break;
    case o_fcvtns: CvtToInt(i, 'n', true); break;
    case o_fcvtnu: CvtToInt(i, 'n', false); break;
    case o_fcvtms: CvtToInt(i, 'm', true); break;
    case o_fcvtps: CvtToInt(i, 'p', true); break;
    case o_scvtf: CvtFromInt(i, true); break;
    case o_ucvtf: CvtFromInt(i, false); break;
    case o_frinta: Rint(i, 'a'); break;
    case o_frintn: case o_frintx: case o_frinti: Rint(i, 'n'); break;
    case o_frintm: Rint(i, 'm'); break;
    case o_frintp: Rint(i, 'p'); break;
    case o_frintz: Rint(i, 'z'); break;
    case o_fcmlt: EachCmp(i, [](double p, double q) { return p < q; }); break;
    case o_fcmle: EachCmp(i, [](double p, double q) { return p <= q; }); break;
    case o_fcmgt: EachCmp(i, [](double p, double q) { return p > q; }); break;
    case o_fcmge: EachCmp(i, [](double p, double q) { return p >= q; }); break;
    case o_fcmeq: EachCmp(i, [](double p, double q) { return p == q; }); break;
    case o_faddp: {
      if (a.w == 4) Pairs(i, [](u64 p, u64 q) { return B(F(p) + F(q)); }); else Pairs(i, [](u64 p, u64 q) { return B(D(p) + D(q)); });
      break;
    }

    // ---------------------------------------------------------------- vectors of integers
    case o_mla: case o_mls: {
      Q q = {};
      for (int k = 0; k < a.n; ++k) {
        u64 t = Lane(b.r, k, a.w) * Lane(c.r, c.idx >= 0 ? c.idx : k, a.w), s = Lane(a.r, k, a.w);
        Put(q, k, i.op == o_mla ? s + t : s - t, a.w);
      }
      v[a.r] = q;
      break;
    }
    case o_bsl: case o_bit: case o_bif: {
      Q q = {};
      int n = a.n * a.w;
      for (int k = 0; k < n; ++k) {
        u8 d = v[a.r].b[k], p = v[b.r].b[k], m = v[c.r].b[k];
        q.b[k] = i.op == o_bsl ? (u8)((p & d) | (m & ~d)) : i.op == o_bit ? (u8)((d & ~m) | (p & m)) : (u8)((d & m) | (p & ~m));
      }
      v[a.r] = q;
      break;
    }
    case o_abs_: { int w = a.w; if (!vec) throw Unmodelled{"abs"}; Each(i, [w](u64 p, u64) { s64 t = Sx(p, w); return t < 0 ? 0 - (u64)t : (u64)t; }); break; }
    case o_cmeq: Each(i, [](u64 p, u64 q) { return p == q ? ~0ull : 0; }); break;
    case o_cmgt: { int w = a.w; Each(i, [w](u64 p, u64 q) { return Sx(p, w) > Sx(q, w) ? ~0ull : 0; }); break; }
    case o_cmge: { int w = a.w; Each(i, [w](u64 p, u64 q) { return Sx(p, w) >= Sx(q, w) ? ~0ull : 0; }); break; }
    case o_cmlt: { int w = a.w; Each(i, [w](u64 p, u64 q) { return Sx(p, w) < Sx(q, w) ? ~0ull : 0; }); break; }
    case o_cmle: { int w = a.w; Each(i, [w](u64 p, u64 q) { return Sx(p, w) <= Sx(q, w) ? ~0ull : 0; }); break; }
    case o_cmhi: Each(i, [](u64 p, u64 q) { return p > q ? ~0ull : 0; }); break;
    case o_cmhs: Each(i, [](u64 p, u64 q) { return p >= q ? ~0ull : 0; }); break;
    case o_cmtst: Each(i, [](u64 p, u64 q) { return p & q ? ~0ull : 0; }); break;
    case o_smin: { int w = a.w; Each(i, [w](u64 p, u64 q) { return Sx(p, w) < Sx(q, w) ? p : q; }); break; }
    case o_smax: { int w = a.w; Each(i, [w](u64 p, u64 q) { return Sx(p, w) > Sx(q, w) ? p : q; }); break; }
    case o_umin: Each(i, [](u64 p, u64 q) { return p < q ? p : q; }); break;
    case o_umax: Each(i, [](u64 p, u64 q) { return p > q ? p : q; }); break;
    case o_sminp: { int w = a.w; Pairs(i, [w](u64 p, u64 q) { return Sx(p, w) < Sx(q, w) ? p : q; }); break; }
    case o_smaxp: { int w = a.w; Pairs(i, [w](u64 p, u64 q) { return Sx(p, w) > Sx(q, w) ? p : q; }); break; }
    case o_uminp: Pairs(i, [](u64 p, u64 q) { return p < q ? p : q; }); break;
    case o_umaxp: Pairs(i, [](u64 p, u64 q) { return p > q ? p : q; }); break;
    case o_addp: Pairs(i, [](u64 p, u64 q) { return p + q; }); break;
    case o_uadalp: case o_sadalp: case o_uaddlp: case o_saddlp: {
      Q q = {};
      bool acc = i.op == o_uadalp || i.op == o_sadalp, sgn = i.op == o_sadalp || i.op == o_saddlp;
      for (int k = 0; k < a.n; ++k) {
        u64 p = Lane(b.r, 2 * k, b.w), r = Lane(b.r, 2 * k + 1, b.w);
        u64 t = sgn ? (u64)(Sx(p, b.w) + Sx(r, b.w)) : p + r;
        Put(q, k, t + (acc ? Lane(a.r, k, a.w) : 0), a.w);
      }
      v[a.r] = q;
      break;
    }
    case o_addv: Across(i, [](u64 s, u64 t, bool) { return s + t; }); break;
    case o_uaddlv: Across(i, [](u64 s, u64 t, bool) { return s + t; }); break;
    case o_saddlv: { int w = b.w; Across(i, [w](u64 s, u64 t, bool) { return s + (u64)Sx(t, w); }); break; }
    case o_smaxv: { int w = b.w; Across(i, [w](u64 s, u64 t, bool f) { return f || Sx(t, w) > Sx(s, w) ? t : s; }); break; }
    case o_sminv: { int w = b.w; Across(i, [w](u64 s, u64 t, bool f) { return f || Sx(t, w) < Sx(s, w) ? t : s; }); break; }
    case o_umaxv: Across(i, [](u64 s, u64 t, bool f) { return f || t > s ? t : s; }); break;
    case o_uminv: Across(i, [](u64 s, u64 t, bool f) { return f || t < s ? t : s; }); break;
    case o_ushll: case o_ushll2: case o_sshll: case o_sshll2: {
      Q q = {};
      bool sgn = i.op == o_sshll || i.op == o_sshll2;
      int off = i.op == o_ushll2 || i.op == o_sshll2 ? a.n : 0, sh = i.n > 2 ? (int)c.imm : 0;
      for (int k = 0; k < a.n; ++k) { u64 t = Lane(b.r, k + off, b.w); Put(q, k, (sgn ? (u64)Sx(t, b.w) : t) << sh, a.w); }
      v[a.r] = q;
      break;
    }
    case o_shl: Each(i, [](u64 p, u64 q) { return p << q; }); break;
    case o_ushr: Each(i, [](u64 p, u64 q) { return q > 63 ? 0 : p >> q; }); break;
    case o_sshr: { int w = a.w; Each(i, [w](u64 p, u64 q) { return (u64)(Sx(p, w) >> (q > 63 ? 63 : q)); }); break; }
    case o_urshr: Each(i, [](u64 p, u64 q) { return (u64)(((u128)p + ((u128)1 << (q - 1))) >> q); }); break;
    case o_srshr: { int w = a.w; Each(i, [w](u64 p, u64 q) { return (u64)(((s128)Sx(p, w) + ((s128)1 << (q - 1))) >> q); }); break; }
    case o_usra: case o_ssra: case o_sri: case o_sli: {
      Q q = {};
      int s = c.imm, bits = a.w * 8;
      for (int k = 0; k < a.n; ++k) {
        u64 t = Lane(b.r, k, a.w), d = Lane(a.r, k, a.w), r;
        if (i.op == o_usra) r = d + (s > 63 ? 0 : t >> s);
        else if (i.op == o_ssra) r = d + (u64)(Sx(t, a.w) >> (s > 63 ? 63 : s));
        else if (i.op == o_sri) { u64 m = s >= bits ? 0 : Cut(~0ull, a.w) >> s; r = (d & ~m) | ((s > 63 ? 0 : t >> s) & m); }
        else { u64 m = Cut(~0ull << s, a.w); r = (d & ~m) | ((t << s) & m); }
        Put(q, k, r, a.w);
      }
      v[a.r] = q;
      break;
    }
    case o_ushl: Each(i, [&](u64 p, u64 q) -> u64 { int s = (s8)q, n = a.w * 8; return s >= n || s <= -n ? 0 : s >= 0 ? p << s : p >> -s; }); break;
    case o_sshl: Each(i, [&](u64 p, u64 q) -> u64 { int s = (s8)q, n = a.w * 8; s64 t = Sx(p, a.w); return s >= n ? 0 : s >= 0 ? (u64)t << s : (u64)(t >> (-s > 63 ? 63 : -s)); }); break;
    case o_shrn: { int s = c.imm; Narrow(i, false, [s](u64 p) { return p >> s; }); break; }
    case o_shrn2: { int s = c.imm; Narrow(i, true, [s](u64 p) { return p >> s; }); break; }
    case o_xtn: Narrow(i, false, [](u64 p) { return p; }); break;
    case o_xtn2: Narrow(i, true, [](u64 p) { return p; }); break;
    case o_sqxtn: case o_sqxtn2: { int w = b.w, d = a.w; Narrow(i, i.op == o_sqxtn2, [=](u64 p) { return (u64)Sat(Sx(p, w), d); }); break; }
    case o_sqxtun: case o_sqxtun2: { int w = b.w, d = a.w; Narrow(i, i.op == o_sqxtun2, [=](u64 p) { return USat(Sx(p, w), d); }); break; }
    case o_uqxtn: case o_uqxtn2: { int d = a.w; Narrow(i, i.op == o_uqxtn2, [=](u64 p) { return USat((s128)p, d); }); break; }
    case o_cnt: Each(i, [](u64 p, u64) -> u64 { return __builtin_popcountll(p); }); break;
    case o_uzp1: case o_uzp2: case o_zip1: case o_zip2: case o_trn1: case o_trn2: {
      Q q = {};
      int n = a.n, h = n / 2;
      for (int k = 0; k < n; ++k) {
        u64 t;
        switch (i.op) {
          case o_uzp1: case o_uzp2: { int j = 2 * k + (i.op == o_uzp2); t = j < n ? Lane(b.r, j, a.w) : Lane(c.r, j - n, a.w); break; }
          case o_zip1: case o_zip2: { int j = k / 2 + (i.op == o_zip2 ? h : 0); t = Lane(k & 1 ? c.r : b.r, j, a.w); break; }
          default: { int j = (k & ~1) + (i.op == o_trn2); t = Lane(k & 1 ? c.r : b.r, j, a.w); break; }
        }
        Put(q, k, t, a.w);
      }
      v[a.r] = q;
      break;
    }
    case o_ext: {
      Q q = {};
      for (int k = 0; k < a.n; ++k) { int j = k + (int)e.imm; q.b[k] = j < a.n ? v[b.r].b[j] : v[c.r].b[j - a.n]; }
      v[a.r] = q;
      break;
    }
    case o_tbl: {
      Q q = {};
      for (int k = 0; k < a.n; ++k) { int j = v[c.r].b[k]; q.b[k] = j < 16 * b.count ? v[(b.r + j / 16) & 31].b[j % 16] : 0; }
      v[a.r] = q;
      break;
    }
    case o_sqadd: { int w = a.w; Each(i, [w](u64 p, u64 q) { return (u64)Sat((s128)Sx(p, w) + Sx(q, w), w); }); break; }
    case o_sqsub: { int w = a.w; Each(i, [w](u64 p, u64 q) { return (u64)Sat((s128)Sx(p, w) - Sx(q, w), w); }); break; }
    case o_uqadd: { int w = a.w; Each(i, [w](u64 p, u64 q) { return USat((s128)p + q, w); }); break; }
    case o_uqsub: { int w = a.w; Each(i, [w](u64 p, u64 q) { return USat((s128)p - (s128)q, w); }); break; }
    case o_uaddl: case o_uaddl2: case o_saddl: case o_saddl2: case o_usubl: case o_ssubl: case o_uaddw: case o_uaddw2: case o_saddw: case o_saddw2: {
      Q q = {};
      bool sgn = i.op == o_saddl || i.op == o_saddl2 || i.op == o_ssubl || i.op == o_saddw || i.op == o_saddw2, sub = i.op == o_usubl || i.op == o_ssubl;
      int off = i.op == o_uaddl2 || i.op == o_saddl2 || i.op == o_uaddw2 || i.op == o_saddw2 ? a.n : 0;
      for (int k = 0; k < a.n; ++k) {
        u64 p = b.w == a.w ? Lane(b.r, k, b.w) : sgn ? (u64)Sx(Lane(b.r, k + off, b.w), b.w) : Lane(b.r, k + off, b.w);
        u64 r = sgn ? (u64)Sx(Lane(c.r, k + off, c.w), c.w) : Lane(c.r, k + off, c.w);
        Put(q, k, sub ? p - r : p + r, a.w);
      }
      v[a.r] = q;
      break;
    }
    case o_uabd: Each(i, [](u64 p, u64 q) { return p > q ? p - q : q - p; }); break;
    case o_sabd: { int w = a.w; Each(i, [w](u64 p, u64 q) { s64 s = Sx(p, w), t = Sx(q, w); return s > t ? (u64)s - t : (u64)t - s; }); break; }
    default: throw Unmodelled{"an instruction"};
  }
}
}  // namespace a64
