//! RISC-V instruction encoders used by the guest program generator, and the
//! tables of instruction words it samples from.

use crate::rng::Rng;

pub const ZERO: u32 = 0;
pub const RA: u32 = 1;
pub const SP: u32 = 2;
pub const A0: u32 = 10;
pub const A7: u32 = 17;

pub fn r_type(op: u32, f3: u32, f7: u32, rd: u32, rs1: u32, rs2: u32) -> u32 {
    op | (rd << 7) | (f3 << 12) | (rs1 << 15) | (rs2 << 20) | (f7 << 25)
}
pub fn i_type(op: u32, f3: u32, rd: u32, rs1: u32, imm: i32) -> u32 {
    op | (rd << 7) | (f3 << 12) | (rs1 << 15) | (((imm as u32) & 0xfff) << 20)
}
pub fn s_type(op: u32, f3: u32, rs1: u32, rs2: u32, imm: i32) -> u32 {
    let i = imm as u32;
    op | ((i & 0x1f) << 7) | (f3 << 12) | (rs1 << 15) | (rs2 << 20) | (((i >> 5) & 0x7f) << 25)
}
pub fn b_type(f3: u32, rs1: u32, rs2: u32, imm: i32) -> u32 {
    let i = imm as u32;
    0x63 | (((i >> 11) & 1) << 7)
        | (((i >> 1) & 0xf) << 8)
        | (f3 << 12)
        | (rs1 << 15)
        | (rs2 << 20)
        | (((i >> 5) & 0x3f) << 25)
        | (((i >> 12) & 1) << 31)
}
pub fn jal(rd: u32, imm: i32) -> u32 {
    let i = imm as u32;
    0x6f | (rd << 7)
        | (((i >> 12) & 0xff) << 12)
        | (((i >> 11) & 1) << 20)
        | (((i >> 1) & 0x3ff) << 21)
        | (((i >> 20) & 1) << 31)
}
pub fn lui(rd: u32, imm: u32) -> u32 {
    0x37 | (rd << 7) | (imm & 0xffff_f000)
}
pub fn auipc(rd: u32, imm: u32) -> u32 {
    0x17 | (rd << 7) | (imm & 0xffff_f000)
}
pub fn addi(rd: u32, rs1: u32, imm: i32) -> u32 {
    i_type(0x13, 0, rd, rs1, imm)
}
pub fn addiw(rd: u32, rs1: u32, imm: i32) -> u32 {
    i_type(0x1b, 0, rd, rs1, imm)
}
pub fn slli(rd: u32, rs1: u32, sh: u32) -> u32 {
    i_type(0x13, 1, rd, rs1, sh as i32)
}
pub fn add(rd: u32, rs1: u32, rs2: u32) -> u32 {
    r_type(0x33, 0, 0, rd, rs1, rs2)
}
pub fn and(rd: u32, rs1: u32, rs2: u32) -> u32 {
    r_type(0x33, 7, 0, rd, rs1, rs2)
}
pub fn jalr(rd: u32, rs1: u32, imm: i32) -> u32 {
    i_type(0x67, 0, rd, rs1, imm)
}
pub const ECALL: u32 = 0x73;
pub const EBREAK: u32 = 0x0010_0073;
pub const NOP: u32 = 0x13;

/// (opcode, funct3, funct7) of register-register instructions, by extension.
pub const RR_I: &[(u32, u32, u32)] = &[
    (0x33, 0, 0),
    (0x33, 0, 0x20),
    (0x33, 1, 0),
    (0x33, 2, 0),
    (0x33, 3, 0),
    (0x33, 4, 0),
    (0x33, 5, 0),
    (0x33, 5, 0x20),
    (0x33, 6, 0),
    (0x33, 7, 0),
];
pub const RR_IW: &[(u32, u32, u32)] = &[
    (0x3b, 0, 0),
    (0x3b, 0, 0x20),
    (0x3b, 1, 0),
    (0x3b, 5, 0),
    (0x3b, 5, 0x20),
];
pub const RR_M: &[(u32, u32, u32)] = &[
    (0x33, 0, 1),
    (0x33, 1, 1),
    (0x33, 2, 1),
    (0x33, 3, 1),
    (0x33, 4, 1),
    (0x33, 5, 1),
    (0x33, 6, 1),
    (0x33, 7, 1),
];
pub const RR_MW: &[(u32, u32, u32)] =
    &[(0x3b, 0, 1), (0x3b, 4, 1), (0x3b, 5, 1), (0x3b, 6, 1), (0x3b, 7, 1)];
pub const RR_B: &[(u32, u32, u32)] = &[
    (0x3b, 0, 0x04),
    (0x3b, 1, 0x30),
    (0x3b, 2, 0x10),
    (0x3b, 4, 0x10),
    (0x3b, 5, 0x30),
    (0x3b, 6, 0x10),
    (0x33, 7, 0x20),
    (0x33, 6, 0x20),
    (0x33, 4, 0x20),
    (0x33, 1, 0x30),
    (0x33, 5, 0x30),
    (0x33, 1, 0x34),
    (0x33, 1, 0x14),
    (0x33, 1, 0x24),
    (0x33, 5, 0x24),
    (0x33, 2, 0x10),
    (0x33, 4, 0x10),
    (0x33, 6, 0x10),
    (0x33, 1, 0x05),
    (0x33, 3, 0x05),
    (0x33, 2, 0x05),
    (0x33, 4, 0x05),
    (0x33, 5, 0x05),
    (0x33, 6, 0x05),
    (0x33, 7, 0x05),
];
/// Full-word templates (rd and rs1 are filled in) of unary B instructions.
pub const UNARY_B: &[u32] = &[
    0x2870_5013, // orc.b
    0x6b80_5013, // rev8
    0x6000_1013, // clz
    0x6020_1013, // cpop
    0x6010_1013, // ctz
    0x6040_1013, // sext.b
    0x6050_1013, // sext.h
    0x0800_403b, // zext.h
    0x6000_101b, // clzw
    0x6020_101b, // cpopw
    0x6010_101b, // ctzw
];
/// (opcode, funct3, top6) shift-immediate style B instructions with 6-bit shamt.
pub const SHI_B: &[(u32, u32, u32)] = &[
    (0x13, 1, 0b010010), // bclri
    (0x13, 5, 0b010010), // bexti
    (0x13, 1, 0b011010), // binvi
    (0x13, 1, 0b001010), // bseti
    (0x13, 5, 0b011000), // rori
    (0x1b, 1, 0b000010), // slli.uw
];

#[derive(Clone, Copy, Debug)]
pub struct IsaSel {
    pub rv32: bool,
    pub b: bool,
    pub a: bool,
    pub mop: bool,
    pub version: u32,
}

/// A random computational (non-memory, non-control) 32-bit instruction word
/// writing `rd` and reading registers chosen by `src`.
pub fn random_alu(rng: &mut Rng, isa: IsaSel, rd: u32, mut src: impl FnMut(&mut Rng) -> u32) -> u32 {
    let rs1 = src(rng);
    let rs2 = src(rng);
    let rv64 = !isa.rv32;
    loop {
        match rng.below(10) {
            0 | 1 => {
                let (op, f3, f7) = *rng.pick(RR_I);
                return r_type(op, f3, f7, rd, rs1, rs2);
            }
            2 if rv64 => {
                let (op, f3, f7) = *rng.pick(RR_IW);
                return r_type(op, f3, f7, rd, rs1, rs2);
            }
            3 => {
                let (op, f3, f7) = *rng.pick(RR_M);
                return r_type(op, f3, f7, rd, rs1, rs2);
            }
            4 if rv64 => {
                let (op, f3, f7) = *rng.pick(RR_MW);
                return r_type(op, f3, f7, rd, rs1, rs2);
            }
            5 => {
                // immediate ALU
                let f3 = *rng.pick(&[0u32, 2, 3, 4, 6, 7]);
                let imm = match rng.below(5) {
                    0 => 0,
                    1 => -1,
                    2 => 2047,
                    3 => -2048,
                    _ => (rng.next() & 0xfff) as i32,
                };
                return i_type(0x13, f3, rd, rs1, imm);
            }
            6 => {
                // shift immediates
                let sh = if rv64 { rng.below(64) } else { rng.below(32) } as u32;
                return match rng.below(6) {
                    0 => i_type(0x13, 1, rd, rs1, sh as i32),
                    1 => i_type(0x13, 5, rd, rs1, sh as i32),
                    2 => i_type(0x13, 5, rd, rs1, (sh | 0x400) as i32),
                    3 if rv64 => i_type(0x1b, 1, rd, rs1, (sh & 31) as i32),
                    4 if rv64 => i_type(0x1b, 5, rd, rs1, (sh & 31) as i32),
                    5 if rv64 => i_type(0x1b, 5, rd, rs1, ((sh & 31) | 0x400) as i32),
                    _ => continue,
                };
            }
            7 => {
                let imm = rng.next() as u32;
                return match rng.below(3) {
                    0 => lui(rd, imm),
                    1 => auipc(rd, imm),
                    _ if rv64 => addiw(rd, rs1, (imm & 0xfff) as i32),
                    _ => continue,
                };
            }
            8 if isa.b && rv64 => {
                let (op, f3, f7) = *rng.pick(RR_B);
                return r_type(op, f3, f7, rd, rs1, rs2);
            }
            9 if isa.b && rv64 => {
                if rng.bool() {
                    return rng.pick(UNARY_B) | (rd << 7) | (rs1 << 15);
                }
                let (op, f3, top6) = *rng.pick(SHI_B);
                let sh = rng.below(64) as u32;
                return i_type(op, f3, rd, rs1, ((top6 << 6) | sh) as i32);
            }
            _ => continue,
        }
    }
}

/// A random compressed computational instruction (no memory, no control).
/// `rdc` is a compact register number (8..=15), `rd` any destination.
pub fn random_rvc(rng: &mut Rng, isa: IsaSel, rd: u32, rs2: u32, rdc: u32, rs2c: u32) -> u16 {
    let rv64 = !isa.rv32;
    let imm6 = |v: u32| -> u32 { ((v & 0x1f) << 2) | (((v >> 5) & 1) << 12) };
    let c = |r: u32| r - 8;
    loop {
        let w: u32 = match rng.below(14) {
            0 => {
                let v = 1 + rng.below(63) as u32;
                0x0001 | (rd << 7) | imm6(v) // c.addi
            }
            1 if rv64 => 0x2001 | (rd << 7) | imm6(rng.below(64) as u32), // c.addiw
            2 => 0x4001 | (rd << 7) | imm6(rng.below(64) as u32),         // c.li
            3 if rd != 2 => 0x6001 | (rd << 7) | imm6(1 + rng.below(63) as u32), // c.lui
            4 => {
                let sh = 1 + rng.below(if rv64 { 63 } else { 31 }) as u32;
                0x8001 | (c(rdc) << 7) | imm6(sh)
            }
            5 => {
                let sh = 1 + rng.below(if rv64 { 63 } else { 31 }) as u32;
                0x8401 | (c(rdc) << 7) | imm6(sh)
            }
            6 => 0x8801 | (c(rdc) << 7) | imm6(rng.below(64) as u32),
            7 => 0x8c01 | (c(rdc) << 7) | (c(rs2c) << 2) | ((rng.below(4) as u32) << 5),
            8 if rv64 => 0x9c01 | (c(rdc) << 7) | (c(rs2c) << 2) | ((rng.below(2) as u32) << 5),
            9 => {
                let sh = 1 + rng.below(if rv64 { 63 } else { 31 }) as u32;
                0x0002 | (rd << 7) | imm6(sh) // c.slli
            }
            10 if rs2 != 0 => 0x8002 | (rd << 7) | (rs2 << 2), // c.mv
            11 if rs2 != 0 => 0x9002 | (rd << 7) | (rs2 << 2), // c.add
            12 => {
                // c.addi4spn
                let v = 1 + rng.below(255) as u32; // nzuimm[9:2]
                let u = v << 2;
                (((u >> 2) & 1) << 6)
                    | (((u >> 3) & 1) << 5)
                    | (((u >> 4) & 3) << 11)
                    | (((u >> 6) & 0xf) << 7)
                    | (c(rdc) << 2)
            }
            13 => 0x0001, // c.nop
            _ => continue,
        };
        if rd == 0 && matches!(w & 0xe003, 0x0001 | 0x2001 | 0x4001 | 0x6001 | 0x0002 | 0x8002) && w != 1 {
            continue;
        }
        return w as u16;
    }
}
