//! Small RISC-V programs with known behaviour.
use vlib::Rng;

/// RV64 code, loaded at 0x10000, as a static ELF file
pub fn elf(code: &[u32]) -> Vec<u8> {
    let body: Vec<u8> = code.iter().flat_map(|i| i.to_le_bytes()).collect();
    let mut f = vec![0x7f, b'E', b'L', b'F', 2, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0];
    let p16 = |f: &mut Vec<u8>, x: u16| f.extend(x.to_le_bytes());
    let p32 = |f: &mut Vec<u8>, x: u32| f.extend(x.to_le_bytes());
    let p64 = |f: &mut Vec<u8>, x: u64| f.extend(x.to_le_bytes());
    p16(&mut f, 2); // EXEC
    p16(&mut f, 243); // RISC-V
    p32(&mut f, 1);
    p64(&mut f, 0x10000 + 120); // entry
    p64(&mut f, 64); // program headers
    p64(&mut f, 0);
    p32(&mut f, 0);
    for x in [64u16, 56, 1, 64, 0, 0] {
        p16(&mut f, x);
    }
    p32(&mut f, 1); // LOAD
    p32(&mut f, 5); // R X
    let n = 120 + body.len() as u64;
    for x in [0u64, 0x10000, 0x10000, n, n, 0x1000] {
        p64(&mut f, x);
    }
    f.extend(body);
    f
}
// x10 = a0, x11 = a1, x17 = a7, x5 = t0, x6 = t1, x2 = sp
pub fn addi(rd: u32, rs: u32, imm: i32) -> u32 {
    ((imm as u32 & 0xfff) << 20) | rs << 15 | rd << 7 | 0x13
}
pub fn lui(rd: u32, imm20: u32) -> u32 {
    imm20 << 12 | rd << 7 | 0x37
}
pub fn load(rd: u32, rs: u32, imm: i32, f3: u32) -> u32 {
    ((imm as u32 & 0xfff) << 20) | rs << 15 | f3 << 12 | rd << 7 | 0x03
}
pub fn ld(rd: u32, rs: u32, imm: i32) -> u32 {
    load(rd, rs, imm, 3)
}
pub fn lbu(rd: u32, rs: u32, imm: i32) -> u32 {
    load(rd, rs, imm, 4)
}
pub fn add(rd: u32, a: u32, b: u32) -> u32 {
    b << 20 | a << 15 | rd << 7 | 0x33
}
pub fn xor(rd: u32, a: u32, b: u32) -> u32 {
    b << 20 | a << 15 | 4 << 12 | rd << 7 | 0x33
}
pub fn branch(a: u32, b: u32, off: i32, f3: u32) -> u32 {
    let o = off as u32;
    (o >> 12 & 1) << 31 | (o >> 5 & 0x3f) << 25 | b << 20 | a << 15 | f3 << 12 | (o >> 1 & 0xf) << 8 | (o >> 11 & 1) << 7 | 0x63
}
pub fn bne(a: u32, b: u32, off: i32) -> u32 {
    branch(a, b, off, 1)
}
pub fn beq(a: u32, b: u32, off: i32) -> u32 {
    branch(a, b, off, 0)
}
pub fn exit(code: &mut Vec<u32>) {
    code.push(addi(17, 0, 93));
    code.push(0x73);
}
pub fn exits(v: i8) -> Vec<u8> {
    let mut c = vec![addi(10, 0, v as i32)];
    exit(&mut c);
    elf(&c)
}
/// exits with argc
pub fn argc() -> Vec<u8> {
    let mut c = vec![ld(10, 2, 0)];
    exit(&mut c);
    elf(&c)
}
/// exits with the byte at `off` of argument `i`
pub fn arg_byte(i: u32, off: u32) -> Vec<u8> {
    let mut c = vec![ld(5, 2, 8 + 8 * i as i32), lbu(10, 5, off as i32)];
    exit(&mut c);
    elf(&c)
}
/// exits with zero iff both arguments are equal, as NUL-terminated strings, else 1
pub fn args_equal() -> Vec<u8> {
    let mut c = vec![
        ld(5, 2, 8), ld(6, 2, 16), // t0, t1
        lbu(11, 5, 0), lbu(12, 6, 0),
        bne(11, 12, 24),
        beq(11, 0, 28),
        addi(5, 5, 1), addi(6, 6, 1),
        beq(0, 0, -24),
        0x13,
        addi(10, 0, 1), beq(0, 0, 8), addi(10, 0, 0),
    ];
    // offsets: index 4 (bne) -> 10, index 5 (beq) -> 12
    c[5] = beq(11, 0, 28);
    exit(&mut c);
    elf(&c)
}
/// exits with the low byte of the sum of all bytes of argument 0, xored with `k`
pub fn checksum(k: i32) -> Vec<u8> {
    let mut c = vec![
        ld(5, 2, 8), addi(10, 0, 0),
        lbu(11, 5, 0), beq(11, 0, 16), add(10, 10, 11), addi(5, 5, 1), beq(0, 0, -16),
        addi(6, 0, k), xor(10, 10, 6),
    ];
    exit(&mut c);
    elf(&c)
}
pub fn spins(n: u32) -> Vec<u8> {
    let mut c = vec![lui(5, n >> 12), addi(5, 5, -1), bne(5, 0, -4), addi(10, 0, 0)];
    exit(&mut c);
    elf(&c)
}
pub fn faults(r: &mut Rng) -> Vec<u8> {
    let mut c = match r.below(3) {
        0 => vec![lui(5, 0x7fff_f), ld(10, 5, 0)], // out of memory
        1 => vec![0xffff_ffff],                    // no such instruction
        _ => vec![lui(5, 0x10), 0x0052_b023],      // store into code
    };
    exit(&mut c);
    elf(&c)
}

