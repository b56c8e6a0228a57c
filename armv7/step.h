// One instruction. Included by emu.h.
namespace a32 {
inline void Machine::Step(const Ins& i, u32& next) {
  const Opd &o0 = i.o[0], &o1 = i.o[1], &o2 = i.o[2], &o3 = i.o[3];
  const int w = i.w[0];
  const bool u = i.t[0] == 'u', fl = i.t[0] == 'f';
  auto set = [&](u32 x) { if (o0.r == 15) next = Branch(thumb ? x | 1 : x); else r[o0.r] = x; };
  auto jump = [&](u32 x) { next = Branch(x); };
  // rd, rn, operand; with two operands rd is rn too
  const Opd &a = i.n < 3 ? o0 : o1, &b = i.n < 3 ? o1 : o2;
  auto logic = [&](auto f) { bool c = C; u32 x = R(a.r), y = Val(b, &c); x = f(x, y); if (i.s) { NZ(x); C = c; } set(x); };
  auto shift = [&](Sh k) {
    bool c = C;
    u32 n = b.k == kImm ? b.imm : r[b.r] & 255, x = Shifted(R(a.r), k, n, &c);
    if (i.s) { NZ(x); C = c; }
    set(x);
  };
  auto load = [&](int n, bool sgn) {
    u32 x = Addr(o1, n);
    u64 y = Get(x, n);
    if (sgn) y = (u32)(s32)Sx(y, n);
    if (o0.r == 15) jump((u32)y); else r[o0.r] = (u32)y;
  };
  auto store = [&](int n) { u32 x = R(o0.r); Put(Addr(o1, n), x, n); };
  auto ints = [&](auto f) { Each(i, w, [&](u64 p, u64 q, u64 d) { return Cut((u64)f(Ext(p, w, u), Ext(q, w, u), Ext(d, w, u)), w); }); };
  auto rot = [&](const Opd& o) { u32 x = R(o.r); return o.sh == shRor && o.amt ? (x >> o.amt) | (x << (32 - o.amt)) : x; };
  auto half = [&](u32 x, char h) { return (s32)(h == 't' ? (s16)(x >> 16) : (s16)x); };
  switch (i.op) {
    case o_add: { u32 x = R(a.r); if (a.r == 15) x &= b.k == kImm ? ~3u : ~0u; set(AddC(x, Val(b), false, i.s)); return; }
    case o_addw: { u32 x = R(a.r); if (a.r == 15) x &= ~3u; set(x + b.imm); return; }
    case o_adc: set(AddC(R(a.r), Val(b), C, i.s)); return;
    case o_sub: { u32 x = R(a.r); if (a.r == 15 && b.k == kImm) x &= ~3u; set(AddC(x, ~Val(b), true, i.s)); return; }
    case o_subw: set(R(a.r) - b.imm); return;
    case o_sbc: set(AddC(R(a.r), ~Val(b), C, i.s)); return;
    case o_rsb: set(AddC(~R(a.r), Val(b), true, i.s)); return;
    case o_rsc: set(AddC(~R(a.r), Val(b), C, i.s)); return;
    case o_and: logic([](u32 x, u32 y) { return x & y; }); return;
    case o_orr: logic([](u32 x, u32 y) { return x | y; }); return;
    case o_orn: logic([](u32 x, u32 y) { return x | ~y; }); return;
    case o_eor: logic([](u32 x, u32 y) { return x ^ y; }); return;
    case o_bic: logic([](u32 x, u32 y) { return x & ~y; }); return;
    case o_mov: case o_mvn: {
      bool c = C;
      u32 x = Val(o1, &c);
      if (i.op == o_mvn) x = ~x;
      if (i.s) { NZ(x); C = c; }
      if (o0.r == 15 && o1.k == kR && o1.r == 14 && thumb) jump(x); else set(x);
      return;
    }
    case o_movw: r[o0.r] = o1.imm & 0xffff; return;
    case o_movt: r[o0.r] = (r[o0.r] & 0xffff) | (o1.imm << 16); return;
    case o_lsl: shift(shLsl); return;
    case o_lsr: shift(shLsr); return;
    case o_asr: shift(shAsr); return;
    case o_ror: shift(shRor); return;
    case o_rrx: { bool c = C; u32 x = Shifted(R(o1.r), shRrx, 1, &c); if (i.s) { NZ(x); C = c; } set(x); return; }
    case o_cmp: AddC(R(o0.r), ~Val(o1), true, true); return;
    case o_cmn: AddC(R(o0.r), Val(o1), false, true); return;
    case o_tst: { bool c = C; u32 x = R(o0.r) & Val(o1, &c); NZ(x); C = c; return; }
    case o_teq: { bool c = C; u32 x = R(o0.r) ^ Val(o1, &c); NZ(x); C = c; return; }
    case o_mul: { u32 x = R(a.r) * R(b.r); if (i.s) NZ(x); set(x); return; }
    case o_mla: { u32 x = R(o1.r) * R(o2.r) + R(o3.r); if (i.s) NZ(x); set(x); return; }
    case o_mls: set(R(o3.r) - R(o1.r) * R(o2.r)); return;
    case o_umull: case o_smull: case o_umlal: case o_smlal: {
      u64 x = i.op == o_umull || i.op == o_umlal ? (u64)r[o2.r] * r[o3.r] : (u64)((s64)(s32)r[o2.r] * (s32)r[o3.r]);
      if (i.op == o_umlal || i.op == o_smlal) x += (u64)r[o1.r] << 32 | r[o0.r];
      r[o0.r] = (u32)x; r[o1.r] = (u32)(x >> 32);
      if (i.s) { N = x >> 63; Z = x == 0; }
      return;
    }
    case o_umaal: { u64 x = (u64)r[o2.r] * r[o3.r] + r[o0.r] + r[o1.r]; r[o0.r] = (u32)x; r[o1.r] = (u32)(x >> 32); return; }
    case o_smmul: set((u32)((u64)((s64)(s32)r[o1.r] * (s32)r[o2.r]) >> 32)); return;
    case o_smmla: set((u32)((u64)((s64)((u64)r[o3.r] << 32) + (s64)(s32)r[o1.r] * (s32)r[o2.r]) >> 32)); return;
    case o_smulbb: set((u32)(half(r[o1.r], 'b') * half(r[o2.r], 'b'))); return;
    case o_smulbt: set((u32)(half(r[o1.r], 'b') * half(r[o2.r], 't'))); return;
    case o_smultb: set((u32)(half(r[o1.r], 't') * half(r[o2.r], 'b'))); return;
    case o_smultt: set((u32)(half(r[o1.r], 't') * half(r[o2.r], 't'))); return;
    case o_smlabb: set((u32)(half(r[o1.r], 'b') * half(r[o2.r], 'b')) + r[o3.r]); return;
    case o_smulwb: set((u32)(((s64)(s32)r[o1.r] * half(r[o2.r], 'b')) >> 16)); return;
    case o_sdiv: { s64 x = (s32)R(a.r), y = (s32)R(b.r); set(y ? (u32)(x / y) : 0); return; }
    case o_udiv: { u32 x = R(a.r), y = R(b.r); set(y ? x / y : 0); return; }
    case o_clz: { u32 x = r[o1.r]; set(x ? __builtin_clz(x) : 32); return; }
    case o_rbit: { u32 x = r[o1.r], y = 0; for (int k = 0; k < 32; ++k) if (x >> k & 1) y |= 1u << (31 - k); set(y); return; }
    case o_rev: set(__builtin_bswap32(r[o1.r])); return;
    case o_rev16: { u32 x = r[o1.r]; set((x & 0xff00ff00) >> 8 | (x & 0x00ff00ff) << 8); return; }
    case o_revsh: set((u32)(s32)(s16)__builtin_bswap16((u16)r[o1.r])); return;
    case o_bfc: { u32 m = (u32)(((1ull << o2.imm) - 1) << o1.imm); r[o0.r] &= ~m; return; }
    case o_bfi: { u32 m = (u32)(((1ull << o3.imm) - 1) << o2.imm); r[o0.r] = (r[o0.r] & ~m) | ((r[o1.r] << o2.imm) & m); return; }
    case o_ubfx: set((u32)((r[o1.r] >> o2.imm) & ((1ull << o3.imm) - 1))); return;
    case o_sbfx: set((u32)((s32)(r[o1.r] << (32 - o2.imm - o3.imm)) >> (32 - o3.imm))); return;
    case o_ssat: { s64 x = (s32)Val(o2), hi = (1ll << (o1.imm - 1)) - 1; set((u32)(x > hi ? hi : x < -hi - 1 ? -hi - 1 : x)); return; }
    case o_usat: { s64 x = (s32)Val(o2), hi = (1ll << o1.imm) - 1; set((u32)(x > hi ? hi : x < 0 ? 0 : x)); return; }
    case o_qadd: set((u32)Sat((s128)(s32)r[a.r] + (s32)r[b.r], 4, false)); return;
    case o_qsub: set((u32)Sat((s128)(s32)r[a.r] - (s32)r[b.r], 4, false)); return;
    case o_sxtb: set((u32)(s32)(s8)rot(i.n < 2 ? o0 : o1)); return;
    case o_sxth: set((u32)(s32)(s16)rot(i.n < 2 ? o0 : o1)); return;
    case o_uxtb: set((u8)rot(i.n < 2 ? o0 : o1)); return;
    case o_uxth: set((u16)rot(i.n < 2 ? o0 : o1)); return;
    case o_sxtab: set(R(a.r) + (u32)(s32)(s8)rot(b)); return;
    case o_sxtah: set(R(a.r) + (u32)(s32)(s16)rot(b)); return;
    case o_uxtab: set(R(a.r) + (u8)rot(b)); return;
    case o_uxtah: set(R(a.r) + (u16)rot(b)); return;
    case o_adr: set((PC() & ~3u) + i.target); return;

    case o_b: next = i.target; return;
    case o_bl: r[14] = next | thumb; next = i.target; return;
    case o_bx: jump(R(o0.r)); return;
    case o_blx: { if (o0.k != kR) throw Fault{"a jump into the other instruction set"}; u32 t = R(o0.r); r[14] = next | thumb; jump(t); return; }
    case o_cbz: if (!r[o0.r]) next = i.target; return;
    case o_cbnz: if (r[o0.r]) next = i.target; return;
    case o_tbb: next = PC() + 2 * (u32)Get((o0.r == 15 ? PC() : r[o0.r]) + r[o0.xr], 1); return;
    case o_tbh: next = PC() + 2 * (u32)Get((o0.r == 15 ? PC() : r[o0.r]) + 2 * r[o0.xr], 2); return;
    case o_trap: case o_udf: throw Fault{"it traps"};
    case o_data: throw Fault{"it executes data"};
    case o_nop: case o_it: case o_dmb: case o_dsb: case o_pld: return;
    case o_stub: { u32 lr = r[14]; HostCall(names_[i.target]); r[14] = (u32)Rnd(); jump(lr); return; }

    case o_ldr: load(4, false); return;
    case o_ldrb: load(1, false); return;
    case o_ldrsb: load(1, true); return;
    case o_ldrh: load(2, false); return;
    case o_ldrsh: load(2, true); return;
    case o_str: store(4); return;
    case o_strb: store(1); return;
    case o_strh: store(2); return;
    case o_ldrd: { u32 x = Addr(o2, 8); u32 p = (u32)Get(x, 4, 4), q = (u32)Get(x + 4, 4, 4); r[o0.r] = p; r[o1.r] = q; return; }
    case o_strd: { u32 p = r[o0.r], q = r[o1.r], x = Addr(o2, 8); Put(x, p, 4, 4); Put(x + 4, q, 4, 4); return; }
    case o_ldrex: r[o0.r] = (u32)Get(Addr(o1, 4), 4, 4); return;
    case o_strex: { u32 x = r[o1.r]; Put(Addr(o2, 4), x, 4, 4); r[o0.r] = 0; return; }
    case o_ldrexd: { u64 x = Get(Addr(o2, 8), 8, 8); r[o0.r] = (u32)x; r[o1.r] = (u32)(x >> 32); return; }
    case o_strexd: { u64 x = (u64)r[o2.r] << 32 | r[o1.r]; Put(Addr(o3, 8), x, 8, 8); r[o0.r] = 0; return; }
    case o_ldm: Multiple(&r[o0.r], o1.mask, true, o0.wb, true, false, &next); return;
    case o_ldmib: Multiple(&r[o0.r], o1.mask, true, o0.wb, true, true, &next); return;
    case o_ldmda: Multiple(&r[o0.r], o1.mask, true, o0.wb, false, false, &next); return;
    case o_ldmdb: Multiple(&r[o0.r], o1.mask, true, o0.wb, false, true, &next); return;
    case o_stm: Multiple(&r[o0.r], o1.mask, false, o0.wb, true, false, &next); return;
    case o_stmib: Multiple(&r[o0.r], o1.mask, false, o0.wb, true, true, &next); return;
    case o_stmda: Multiple(&r[o0.r], o1.mask, false, o0.wb, false, false, &next); return;
    case o_stmdb: Multiple(&r[o0.r], o1.mask, false, o0.wb, false, true, &next); return;
    case o_push: Multiple(&r[13], o0.mask, false, true, false, true, &next); return;
    case o_pop: Multiple(&r[13], o0.mask, true, true, true, false, &next); return;

    case o_vldr: case o_vstr: {
      u32 x = Addr(o1, 4);
      if (i.op == o_vldr) { Check(x, Size(o0), false, 4); memcpy(v + At(o0), P(x), Size(o0)); } else { Check(x, Size(o0), true, 4); memcpy(P(x), v + At(o0), Size(o0)); }
      return;
    }
    case o_vldmia: VMultiple(&r[o0.r], o1, true, o0.wb, true); return;
    case o_vstmia: VMultiple(&r[o0.r], o1, false, o0.wb, true); return;
    case o_vldmdb: VMultiple(&r[o0.r], o1, true, true, false); return;
    case o_vstmdb: VMultiple(&r[o0.r], o1, false, true, false); return;
    case o_vpush: { u32 bytes = (o0.align == 4 ? 4 : 8) * o0.n; r[13] -= bytes; u32 p = r[13]; VMultiple(&p, o0, false, false, true); return; }
    case o_vpop: VMultiple(&r[13], o0, true, true, true); return;
    case o_vld1: Structure(i, 1, true); return;
    case o_vld2: Structure(i, 2, true); return;
    case o_vld3: Structure(i, 3, true); return;
    case o_vld4: Structure(i, 4, true); return;
    case o_vst1: Structure(i, 1, false); return;
    case o_vst2: Structure(i, 2, false); return;
    case o_vst3: Structure(i, 3, false); return;
    case o_vst4: Structure(i, 4, false); return;

    case o_vadd: if (Scalar(i)) VFP(n + m); else if (fl) EachF(i, [](float p, float q, float) { return p + q; }); else ints([](s128 p, s128 q, s128) { return p + q; }); return;
    case o_vsub: if (Scalar(i)) VFP(n - m); else if (fl) EachF(i, [](float p, float q, float) { return p - q; }); else ints([](s128 p, s128 q, s128) { return p - q; }); return;
    case o_vmul: if (Scalar(i)) VFP(n * m); else if (fl) EachF(i, [](float p, float q, float) { return p * q; }); else ints([](s128 p, s128 q, s128) { return p * q; }); return;
    case o_vmla: if (Scalar(i)) VFP(d + n * m); else if (fl) EachF(i, [](float p, float q, float d) { return d + Flush(p * q); }); else ints([](s128 p, s128 q, s128 d) { return d + p * q; }); return;
    case o_vmls: if (Scalar(i)) VFP(d - n * m); else if (fl) EachF(i, [](float p, float q, float d) { return d - Flush(p * q); }); else ints([](s128 p, s128 q, s128 d) { return d - p * q; }); return;
    case o_vdiv: VFP(n / m); return;
    case o_vnmul: VFP(-(n * m)); return;
    case o_vnmla: VFP(-d - n * m); return;
    case o_vnmls: VFP(-d + n * m); return;
    case o_vsqrt: VFP(std::sqrt(n)); return;
    case o_vneg: if (Scalar(i)) VFP(-n); else if (fl) Each(i, 4, [](u64 p, u64, u64) { return p ^ 0x80000000ull; }); else ints([](s128 p, s128, s128) { return -p; }); return;
    case o_vabs: if (Scalar(i)) VFP(std::fabs(n)); else if (fl) Each(i, 4, [](u64 p, u64, u64) { return p & 0x7fffffffull; }); else ints([](s128 p, s128, s128) { return p < 0 ? -p : p; }); return;
    case o_vcmp: case o_vcmpe: {
      double x = VfpVal(o0), y = VfpVal(o1);
      if (std::isnan(x) || std::isnan(y)) { fN = fZ = false; fC = fV = true; }
      else if (x == y) { fN = fV = false; fZ = fC = true; }
      else if (x < y) { fN = true; fZ = fC = fV = false; }
      else { fN = fZ = fV = false; fC = true; }
      return;
    }
    case o_vmrs:
      if (o0.k == kStatus) { N = fN; Z = fZ; C = fC; V = fV; } else r[o0.r] = fN << 31 | fZ << 30 | fC << 29 | fV << 28;
      return;
    case o_vmsr: { u32 x = r[o1.r]; fN = x >> 31; fZ = x >> 30 & 1; fC = x >> 29 & 1; fV = x >> 28 & 1; if (x & 0x03ffffff) throw Unmodelled{"a mode of the floating-point unit"}; return; }
    case o_vcvt: case o_vcvtr: {
      char to = i.t[0], from = i.t[1];
      int tw = i.w[0], fw = i.w[1];
      bool nearest = i.op == o_vcvtr;
      const Opd& src = i.n > 1 ? o1 : o0;
      if (tw == 2 || fw == 2) throw Unmodelled{"half precision"};
      if (o0.k == kS || src.k == kS || tw == 8 || fw == 8) {
        if (i.n > 2) throw Unmodelled{"a scalar fixed-point conversion"};
        if (to == 'f' && from == 'f') { if (tw == 8) SetLane(At(o0), 0, 8, B((double)F(Lane(At(src), 0, 4)))); else SetLane(At(o0), 0, 4, B((float)D(Lane(At(src), 0, 8)))); }
        else if (to == 'f') { u32 x = (u32)Lane(At(src), 0, 4); double y = from == 's' ? (double)(s32)x : (double)x; if (tw == 8) SetLane(At(o0), 0, 8, B(y)); else SetLane(At(o0), 0, 4, B((float)y)); }
        else SetLane(At(o0), 0, 4, ToInt(fw == 8 ? D(Lane(At(src), 0, 8)) : (double)F(Lane(At(src), 0, 4)), to == 'u', nearest));
        return;
      }
      int frac = i.n > 2 ? (int)o2.imm : 0, cnt = Size(o0) / 4;
      if (nearest) throw Unmodelled{"vcvtr on vectors"};
      for (int k = 0; k < cnt; ++k) {
        u32 x = (u32)Lane(At(src), k, 4);
        if (to == 'f') SetLane(At(o0), k, 4, B((float)std::ldexp(from == 's' ? (double)(s32)x : (double)x, -frac)));
        else SetLane(At(o0), k, 4, ToInt(std::ldexp((double)Flush(F(x)), frac), to == 'u', false));
      }
      return;
    }
    case o_vmov: {
      if (i.n == 3 && o0.k == kR) { u64 x = Lane(At(o2), 0, 8); r[o0.r] = (u32)x; r[o1.r] = (u32)(x >> 32); return; }
      if (i.n == 3) { SetLane(At(o0), 0, 8, (u64)r[o2.r] << 32 | r[o1.r]); return; }
      if (i.n == 4 && o0.k == kR) { r[o0.r] = (u32)Lane(At(o2), 0, 4); r[o1.r] = (u32)Lane(At(o3), 0, 4); return; }
      if (i.n == 4) { SetLane(At(o0), 0, 4, r[o2.r]); SetLane(At(o1), 0, 4, r[o3.r]); return; }
      if (o0.k == kR) { int x = w ? w : 4; u64 y = Lane(At(o1), std::max<int>(0, o1.idx), x); r[o0.r] = u || x == 4 ? (u32)y : (u32)(s32)Sx(y, x); return; }
      if (o1.k == kR) { int x = w ? w : 4; SetLane(At(o0), std::max<int>(0, o0.idx), x, r[o1.r]); return; }
      if (o1.k == kImm || o1.k == kFimm) {
        u64 x = fl ? (w == 8 ? B(o1.f) : B((float)o1.f)) : w == 8 ? (o1.imm == 0xffffffff ? ~0ull : o1.imm) : Cut(o1.imm, w);
        for (int k = 0; k < (Scalar(i) ? 1 : Size(o0) / w); ++k) SetLane(At(o0), k, w, x);
        return;
      }
      memmove(v + At(o0), v + At(o1), Size(o0));
      return;
    }
    case o_vmvn:
      if (o1.k == kImm) { for (int k = 0; k < Size(o0) / w; ++k) SetLane(At(o0), k, w, Cut(~(u64)o1.imm, w)); return; }
      Bits(i, [](u64 p, u64, u64) { return ~p; });
      return;
    case o_vdup:
      if (o1.k == kR) { u32 x = r[o1.r]; for (int k = 0; k < Size(o0) / w; ++k) SetLane(At(o0), k, w, x); }
      else { u64 x = Lane(At(o1), o1.idx, w); for (int k = 0; k < Size(o0) / w; ++k) SetLane(At(o0), k, w, x); }
      return;
    case o_vand: case o_vorr: case o_vbic: case o_veor: case o_vorn: {
      if (b.k == kImm) {
        u64 m = Cut(b.imm, w);
        for (int k = 0; k < Size(o0) / w; ++k) { u64 x = Lane(At(o0), k, w); SetLane(At(o0), k, w, i.op == o_vorr ? x | m : i.op == o_vbic ? x & ~m : x & m); }
        return;
      }
      Op op = i.op;
      Bits(i, [op](u64 p, u64 q, u64) { return op == o_vand ? p & q : op == o_vorr ? p | q : op == o_vbic ? p & ~q : op == o_veor ? p ^ q : p | ~q; });
      return;
    }
    case o_vbsl: Bits(i, [](u64 p, u64 q, u64 d) { return (p & d) | (q & ~d); }); return;
    case o_vbit: Bits(i, [](u64 p, u64 q, u64 d) { return (p & q) | (d & ~q); }); return;
    case o_vbif: Bits(i, [](u64 p, u64 q, u64 d) { return (p & ~q) | (d & q); }); return;
    case o_vmax: if (fl) EachF(i, [](float p, float q, float) { return MaxF(p, q); }); else ints([](s128 p, s128 q, s128) { return p > q ? p : q; }); return;
    case o_vmin: if (fl) EachF(i, [](float p, float q, float) { return MinF(p, q); }); else ints([](s128 p, s128 q, s128) { return p < q ? p : q; }); return;
    case o_vabd: if (fl) EachF(i, [](float p, float q, float) { return ::fabsf(p - q); }); else ints([](s128 p, s128 q, s128) { return p > q ? p - q : q - p; }); return;
    case o_vhadd: ints([](s128 p, s128 q, s128) { return (p + q) >> 1; }); return;
    case o_vrhadd: ints([](s128 p, s128 q, s128) { return (p + q + 1) >> 1; }); return;
    case o_vqadd: ints([&](s128 p, s128 q, s128) { return Sat(p + q, w, u); }); return;
    case o_vqsub: ints([&](s128 p, s128 q, s128) { return Sat(p - q, w, u); }); return;
    case o_vqneg: ints([&](s128 p, s128, s128) { return Sat(-p, w, false); }); return;
    case o_vqabs: ints([&](s128 p, s128, s128) { return Sat(p < 0 ? -p : p, w, false); }); return;
    case o_vceq: Compare(i, [](auto p, auto q) { return p == q; }); return;
    case o_vcgt: Compare(i, [](auto p, auto q) { return p > q; }); return;
    case o_vcge: Compare(i, [](auto p, auto q) { return p >= q; }); return;
    case o_vclt: Compare(i, [](auto p, auto q) { return p < q; }); return;
    case o_vcle: Compare(i, [](auto p, auto q) { return p <= q; }); return;
    case o_vtst: Each(i, w, [](u64 p, u64 q, u64) { return (p & q) ? ~0ull : 0ull; }); return;
    case o_vshl: if (b.k == kImm) ints([&](s128 p, s128, s128) { return p << b.imm; }); else Each(i, w, [&](u64 p, u64 q, u64) { return Cut((u64)ShiftBy(Ext(p, w, u), (s8)q, false), w); }); return;
    case o_vrshl: Each(i, w, [&](u64 p, u64 q, u64) { return Cut((u64)ShiftBy(Ext(p, w, u), (s8)q, true), w); }); return;
    case o_vqshl: if (b.k == kImm) ints([&](s128 p, s128, s128) { return Sat(p << b.imm, w, u); }); else Each(i, w, [&](u64 p, u64 q, u64) { int n = (s8)q; s128 x = Ext(p, w, u); return Sat(n > 63 && x ? (x < 0 ? -((s128)1 << 100) : (s128)1 << 100) : ShiftBy(x, n, false), w, u); }); return;
    case o_vshr: ints([&](s128 p, s128, s128) { return p >> b.imm; }); return;
    case o_vrshr: ints([&](s128 p, s128, s128) { return ShiftBy(p, -(int)b.imm, true); }); return;
    case o_vsra: ints([&](s128 p, s128, s128 d) { return d + (p >> b.imm); }); return;
    case o_vrsra: ints([&](s128 p, s128, s128 d) { return d + ShiftBy(p, -(int)b.imm, true); }); return;
    case o_vsli: Each(i, w, [&](u64 p, u64, u64 d) { u64 m = Cut(~0ull << b.imm, w); return Cut(p << b.imm, w) | (d & ~m); }); return;
    case o_vsri: Each(i, w, [&](u64 p, u64, u64 d) { u64 m = b.imm >= (u32)w * 8 ? 0 : Cut(~0ull, w) >> b.imm; return (b.imm >= (u32)w * 8 ? 0 : p >> b.imm) | (d & ~m); }); return;
    case o_vshrn: Narrow(i, [&](u64 p) { return p >> o2.imm; }); return;
    case o_vrshrn: Narrow(i, [&](u64 p) { return (u64)ShiftBy((s128)p, -(int)o2.imm, true); }); return;
    case o_vqshrn: Narrow(i, [&](u64 p) { return Sat(Ext(p, w, u) >> o2.imm, w / 2, u); }); return;
    case o_vqrshrn: Narrow(i, [&](u64 p) { return Sat(ShiftBy(Ext(p, w, u), -(int)o2.imm, true), w / 2, u); }); return;
    case o_vqshrun: Narrow(i, [&](u64 p) { return Sat(Ext(p, w, false) >> o2.imm, w / 2, true); }); return;
    case o_vqrshrun: Narrow(i, [&](u64 p) { return Sat(ShiftBy(Ext(p, w, false), -(int)o2.imm, true), w / 2, true); }); return;
    case o_vmovn: Narrow(i, [](u64 p) { return p; }); return;
    case o_vqmovn: Narrow(i, [&](u64 p) { return Sat(Ext(p, w, u), w / 2, u); }); return;
    case o_vqmovun: Narrow(i, [&](u64 p) { return Sat(Ext(p, w, false), w / 2, true); }); return;
    case o_vmovl: Long(i, false, [](s128 p, s128, u64) { return p; }); return;
    case o_vshll: Long(i, false, [&](s128 p, s128, u64) { return p << o2.imm; }); return;
    case o_vaddl: Long(i, false, [](s128 p, s128 q, u64) { return p + q; }); return;
    case o_vsubl: Long(i, false, [](s128 p, s128 q, u64) { return p - q; }); return;
    case o_vmull: Long(i, false, [](s128 p, s128 q, u64) { return p * q; }); return;
    case o_vmlal: Long(i, false, [](s128 p, s128 q, u64 d) { return (s128)d + p * q; }); return;
    case o_vmlsl: Long(i, false, [](s128 p, s128 q, u64 d) { return (s128)d - p * q; }); return;
    case o_vaddw: Long(i, true, [](s128 p, s128 q, u64) { return p + q; }); return;
    case o_vsubw: Long(i, true, [](s128 p, s128 q, u64) { return p - q; }); return;
    case o_vpadd: if (fl) Pairs(i, 4, [](u64 p, u64 q) { return Neon(Flush(F(p)) + Flush(F(q))); }); else Pairs(i, w, [](u64 p, u64 q) { return p + q; }); return;
    case o_vpmax: if (fl) Pairs(i, 4, [](u64 p, u64 q) { return Neon(MaxF(Flush(F(p)), Flush(F(q)))); }); else Pairs(i, w, [&](u64 p, u64 q) { return Ext(p, w, u) > Ext(q, w, u) ? p : q; }); return;
    case o_vpmin: if (fl) Pairs(i, 4, [](u64 p, u64 q) { return Neon(MinF(Flush(F(p)), Flush(F(q)))); }); else Pairs(i, w, [&](u64 p, u64 q) { return Ext(p, w, u) < Ext(q, w, u) ? p : q; }); return;
    case o_vpaddl: case o_vpadal: {
      int cnt = Size(o0) / (2 * w);
      u64 out[8];
      for (int k = 0; k < cnt; ++k) {
        s128 x = Ext(Lane(At(o1), 2 * k, w), w, u) + Ext(Lane(At(o1), 2 * k + 1, w), w, u);
        if (i.op == o_vpadal) x += Lane(At(o0), k, 2 * w);
        out[k] = (u64)x;
      }
      for (int k = 0; k < cnt; ++k) SetLane(At(o0), k, 2 * w, out[k]);
      return;
    }
    case o_vcnt: Each(i, 1, [](u64 p, u64, u64) { return (u64)__builtin_popcountll(p); }); return;
    case o_vclz: Each(i, w, [&](u64 p, u64, u64) { return (u64)(p ? __builtin_clzll(p) - (64 - 8 * w) : 8 * w); }); return;
    case o_vext: {
      u8 t[32];
      int n = Size(o0);
      memcpy(t, v + At(o1), n);
      memcpy(t + n, v + At(o2), n);
      memcpy(v + At(o0), t + o3.imm * (w ? w : 1), n);
      return;
    }
    case o_vrev16: case o_vrev32: case o_vrev64: {
      int g = i.op == o_vrev16 ? 2 : i.op == o_vrev32 ? 4 : 8, n = Size(o0), per = g / w;
      u64 t[16];
      for (int k = 0; k < n / w; ++k) t[k] = Lane(At(o1), k / per * per + per - 1 - k % per, w);
      for (int k = 0; k < n / w; ++k) SetLane(At(o0), k, w, t[k]);
      return;
    }
    case o_vswp: { u8 t[16]; memcpy(t, v + At(o0), Size(o0)); memcpy(v + At(o0), v + At(o1), Size(o0)); memcpy(v + At(o1), t, Size(o0)); return; }
    case o_vtrn: case o_vzip: case o_vuzp: {
      int n = Size(o0) / w;
      u64 x[16], y[16], p[16], q[16];
      for (int k = 0; k < n; ++k) { x[k] = Lane(At(o0), k, w); y[k] = Lane(At(o1), k, w); }
      auto cat = [&](int k) { return k < n ? x[k] : y[k - n]; };
      for (int k = 0; k < n; ++k) {
        if (i.op == o_vtrn) { p[k] = k & 1 ? y[k - 1] : x[k]; q[k] = k & 1 ? y[k] : x[k + 1]; }
        else if (i.op == o_vzip) { p[k] = k & 1 ? y[k / 2] : x[k / 2]; q[k] = k & 1 ? y[(n + k) / 2] : x[(n + k) / 2]; }
        else { p[k] = cat(2 * k); q[k] = cat(2 * k + 1); }
      }
      for (int k = 0; k < n; ++k) { SetLane(At(o0), k, w, p[k]); SetLane(At(o1), k, w, q[k]); }
      return;
    }
    default: throw Unmodelled{"an instruction"};
  }
}
}  // namespace a32
