fn main() {
    let ins = [([1u32, 7, 3, 0xffff_ffff, 5, 0x8000_0000, 77, 9], [0x80u32, 7, 4, 1, 0x1234_5678, 6, 78, 10]), ([0x1234_56ff; 8], [0x1234_56ff; 8]), ([0, 0, 0, 7, 1, 2, 3, 4], [1, 2, 3, 4, 5, 6, 7, 8])];
    for (n, f) in vharness::ALL { for (i, (a, b)) in ins.iter().enumerate() { 
        let r = std::panic::catch_unwind(|| f(*a, *b));
        println!("{} {} {}", n, i, match r { Ok(v) => v.to_string(), Err(_) => "panic".into() }); } }
}
