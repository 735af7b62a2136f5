//! Idioms of core and alloc: the engine's value of each is compared with the native one.
#![allow(clippy::all)]
type A = [u32; 8];
macro_rules! t { ($($n:ident |$a:ident, $b:ident| $e:expr;)*) => {
    $(pub fn $n($a: A, $b: A) -> u64 { $e })*
    pub const ALL: &[(&str, fn(A, A) -> u64)] = &[$((stringify!($n), $n)),*];
} }
fn h(x: &[u32]) -> u64 { let mut s = 0u64; for i in 0..x.len() { s = s.wrapping_mul(31).wrapping_add(x[i] as u64); } s }
fn h8(x: &[u8]) -> u64 { let mut s = 0u64; for i in 0..x.len() { s = s.wrapping_mul(31).wrapping_add(x[i] as u64); } s }
t! {
    mt_skip |a, _b| { let mut s = 0; for (i, x) in a.iter().enumerate().skip(1) { s += (i as u64) * (*x as u64 & 0xff); } s };
    mt_take |a, _b| { let mut s = 0; for x in a.iter().take(3) { s += *x as u64; } s };
    mt_skip_take |a, _b| { let mut s = 0; for x in a.iter().skip(2).take(3) { s += *x as u64; } s };
    mt_step |a, _b| { let mut s = 0; for x in a.iter().step_by(2) { s += *x as u64; } s };
    mt_rstep |a, _b| { let mut s = 0; for i in (0..8).step_by(3) { s += a[i] as u64; } s };
    mt_rev |a, _b| { let mut s = 0u64; for x in a.iter().rev() { s = s * 3 + (*x as u64 & 0xffff); } s };
    mt_rev_skip |a, _b| { let mut s = 0u64; for x in a.iter().rev().skip(1) { s = s * 3 + (*x as u64 & 0xffff); } s };
    mt_skip_rev |a, _b| { let mut s = 0u64; for x in a.iter().skip(1).rev() { s = s * 3 + (*x as u64 & 0xffff); } s };
    mt_rangerev |a, _b| { let mut s = 0u64; for i in (0..8).rev() { s = s * 3 + (a[i] as u64 & 0xffff); } s };
    mt_rangeincl |a, _b| { let mut s = 0u64; for i in 0..=7 { s = s * 3 + (a[i] as u64 & 0xffff); } s };
    mt_rangeinclrev |a, _b| { let mut s = 0u64; for i in (1..=7).rev() { s = s * 3 + (a[i] as u64 & 0xffff); } s };
    mt_zip |a, b| { let mut s = 0u64; for (x, y) in a.iter().zip(b.iter()) { s = s.wrapping_add(*x as u64 * *y as u64); } s };
    mt_zip3 |a, b| { let mut c = [0u32; 8]; for ((z, x), y) in c.iter_mut().zip(a.iter()).zip(b.iter()) { *z = x.wrapping_add(*y); } h(&c) };
    mt_zipval |a, b| { let mut s = 0u64; for (x, y) in a.into_iter().zip(b) { s = s.wrapping_add(x as u64 * y as u64); } s };
    mt_ziprev |a, b| { let mut s = 0u64; for (x, y) in a.iter().zip(b.iter()).rev() { s = s.wrapping_mul(7).wrapping_add(*x as u64 * *y as u64); } s };
    mt_ziprange |a, _b| { let mut s = 0u64; for (x, i) in a.iter().zip(1u64..) { s = s.wrapping_add(*x as u64 * i); } s };
    mt_chunks |a, _b| { let mut s = 0u64; for c in a.chunks(3) { s = s.wrapping_mul(7).wrapping_add(c[0] as u64 + c.len() as u64); } s };
    mt_chunks_exact |a, _b| { let mut s = 0u64; for c in a.chunks_exact(2) { s = s.wrapping_mul(7).wrapping_add(c[0] as u64 + c[1] as u64); } s };
    mt_chunks_enum |a, _b| { let mut s = 0u64; for (i, c) in a.chunks(4).enumerate() { s = s.wrapping_mul(7).wrapping_add(c[0] as u64 + i as u64); } s };
    mt_chunks_zip |a, b| { let mut d = b; for (c, o) in a.chunks_exact(2).zip(d.iter_mut()) { *o = c[0] ^ c[1]; } h(&d) };
    mt_chunks_mut |a, _b| { let mut d = a; for c in d.chunks_mut(2) { c[0] = 5; } h(&d) };
    mt_chunks_exact_mut |a, _b| { let mut d = a; for (i, c) in d.chunks_exact_mut(4).enumerate() { c[3] = i as u32; } h(&d) };
    mt_rchunks |a, _b| { let mut s = 0u64; for c in a.rchunks(3) { s = s.wrapping_mul(7).wrapping_add(c[0] as u64 + c.len() as u64); } s };
    mt_windows |a, _b| { let mut s = 0u64; for w in a.windows(2) { s = s.wrapping_mul(7).wrapping_add((w[0] ^ w[1]) as u64); } s };
    mt_map_sum |a, _b| a.iter().map(|x| *x as u64).sum();
    mt_copied_sum |a, _b| a.iter().copied().map(u64::from).sum::<u64>();
    mt_cloned |a, _b| { let mut s = 0; for x in a.iter().cloned() { s += x as u64; } s };
    mt_fold |a, _b| a.iter().fold(0u64, |s, x| s.wrapping_mul(5).wrapping_add(*x as u64));
    mt_rfold |a, _b| a.iter().rev().fold(0u64, |s, x| s.wrapping_mul(5).wrapping_add(*x as u64));
    mt_rfold2 |a, _b| a.iter().rfold(0u64, |s, x| s.wrapping_mul(5).wrapping_add(*x as u64));
    mt_rangefold |a, _b| (0..8).fold(0u64, |s, i| s.wrapping_mul(5).wrapping_add(a[i] as u64));
    mt_rangemap |a, _b| (0..8).map(|i| a[i] as u64 * i as u64).sum();
    mt_product |a, _b| a.iter().take(2).map(|x| *x as u64 & 15).product();
    mt_foreach |a, _b| { let mut s = 0u64; a.iter().for_each(|x| s = s.wrapping_mul(3).wrapping_add(*x as u64)); s };
    mt_foreach_mut |a, _b| { let mut d = a; d.iter_mut().for_each(|x| *x = x.wrapping_add(1)); h(&d) };
    mt_foreach_enum |a, _b| { let mut d = a; d.iter_mut().enumerate().for_each(|(i, x)| *x = x.wrapping_add(i as u32)); h(&d) };
    mt_all |a, _b| a.iter().all(|x| *x != 7) as u64;
    mt_any |a, _b| a.iter().any(|x| *x == 7) as u64;
    mt_zipall |a, b| a.iter().zip(b.iter()).all(|(x, y)| x == y) as u64;
    mt_position |a, _b| a.iter().position(|x| *x == 7).unwrap_or(99) as u64;
    mt_find |a, _b| a.iter().find(|x| **x == 7).copied().unwrap_or(3) as u64;
    mt_last |a, _b| *a.last().unwrap() as u64 + *a.first().unwrap() as u64;
    mt_iterlast |a, _b| *a.iter().last().unwrap() as u64 + a.iter().count() as u64;
    mt_nth |a, _b| *a.iter().nth(3).unwrap() as u64;
    mt_array_map |a, _b| { let c = a.map(|x| x as u64 * 3); c[0] ^ c[7] };
    mt_collect |a, _b| { let v: Vec<u32> = a.iter().map(|x| x ^ 1).collect(); h(&v) };
    mt_collect_rev |a, _b| { let v: Vec<u32> = a.iter().rev().copied().collect(); h(&v) };
    mt_collect_range |a, _b| { let v: Vec<u64> = (0..5).map(|i| i * 2).collect(); v[3] + v.len() as u64 + a[0] as u64 };
    mt_vec_macro |a, _b| { let mut v = vec![0u32; 8]; for i in 0..8 { v[i] = a[7 - i]; } h(&v) };
    mt_vec_list |a, _b| { let v = vec![a[0], a[1], 7]; h(&v) };
    mt_vec_push |a, _b| { let mut v = Vec::new(); for x in a.iter() { v.push(*x); } v.reverse(); h(&v) };
    mt_vec_extend |a, b| { let mut v = Vec::with_capacity(16); v.extend_from_slice(&a); v.extend(b.iter()); h(&v) };
    mt_vec_extend2 |a, _b| { let mut v = Vec::with_capacity(16); v.extend(a.iter().map(|x| x & 1)); h(&v) };
    mt_to_vec |a, _b| { let v = a[2..5].to_vec(); h(&v) };
    mt_vec_iter |a, _b| { let v = a.to_vec(); let mut s = 0u64; for x in v { s += x as u64; } s };
    mt_vec_iter2 |a, _b| { let v = a.to_vec(); let mut s = 0u64; for x in &v { s += *x as u64; } s };
    mt_vec_rev |a, _b| { let v = a.to_vec(); let mut s = 0u64; for x in v.iter().rev() { s = s.wrapping_mul(3) + *x as u64; } s };
    mt_vec_pop |a, _b| { let mut v = a.to_vec(); let mut s = 0u64; while let Some(x) = v.pop() { s = s.wrapping_mul(3).wrapping_add(x as u64); } s };
    mt_vec_resize |a, _b| { let mut v = a.to_vec(); v.resize(10, 3); v.truncate(9); v.insert(0, 4); v.swap(0, 8); h(&v) };
    mt_try_into |a, _b| { let x: [u32; 3] = a[2..5].try_into().unwrap(); h(&x) };
    mt_try_from |a, _b| { let x = <[u32; 3]>::try_from(&a[2..5]).unwrap(); h(&x) };
    mt_try_ref |a, _b| { let x: &[u32; 3] = (&a[2..5]).try_into().unwrap(); h(x) };
    mt_try_vec |a, _b| { let x: [u32; 8] = a.to_vec().try_into().unwrap(); h(&x) };
    mt_fill |a, _b| { let mut d = a; d[3..6].fill(9); h(&d) };
    mt_swap |a, _b| { let mut d = a; d.swap(1, 6); h(&d) };
    mt_reverse |a, _b| { let mut d = a; d.reverse(); h(&d) };
    mt_rotate |a, _b| { let mut d = a; d.rotate_left(3); h(&d) };
    mt_copy_within |a, _b| { let mut d = a; d.copy_within(0..3, 4); h(&d) };
    mt_split_at |a, _b| { let (x, y) = a.split_at(3); h(x) ^ h(y) };
    mt_split_at_mut |a, _b| { let mut d = a; { let (x, y) = d.split_at_mut(4); x[0] = y[1]; y[0] = 3; } h(&d) };
    mt_split_first |a, _b| { if let Some((x, r)) = a.split_first() { *x as u64 + h(r) } else { 0 } };
    mt_pattern |a, _b| { let [x, .., y] = a; x as u64 * 2 + y as u64 };
    mt_slice_pat |a, _b| { match &a[..] { [x, y, rest @ ..] => *x as u64 + *y as u64 * 2 + h(rest), _ => 0 } };
    mt_get |a, _b| *a.get(3).unwrap() as u64 + a.get(8).is_none() as u64;
    mt_get_mut |a, _b| { let mut d = a; if let Some(x) = d.get_mut(3) { *x = 1; } h(&d) };
    mt_iter_mut_rev |a, _b| { let mut d = a; let mut c = 0u32; for x in d.iter_mut().rev() { let t = *x & 1; *x = (*x >> 1) | (c << 31); c = t; } h(&d) };
    mt_while |a, _b| { let mut i = 0; let mut s = 0u64; while i < a.len() { s += a[i] as u64; i += 1; } s };
    mt_loop |a, _b| { let mut i = 8; let mut s = 0u64; loop { if i == 0 { break; } i -= 1; s = s.wrapping_mul(3).wrapping_add(a[i] as u64); } s };
    mt_overflowing |a, b| { let (x, c) = a[0].overflowing_add(b[0]); x as u64 + ((c as u64) << 40) };
    mt_overflowing_sub |a, b| { let (x, c) = a[0].overflowing_sub(b[0]); x as u64 + ((c as u64) << 40) };
    mt_checked |a, b| a[0].checked_add(b[0]).map(|x| x as u64).unwrap_or(5);
    mt_checked_sub |a, b| match a[0].checked_sub(b[0]) { Some(x) => x as u64, None => 9 };
    mt_saturating |a, b| a[0].saturating_sub(b[0]) as u64;
    mt_carrying |a, b| { let t = a[0] as u64 + b[0] as u64; (t as u32) as u64 + (t >> 32) };
    mt_i64 |a, b| { let t = a[0] as i64 - b[0] as i64; (t >> 32) as u64 & 0xffff };
    mt_i128 |a, b| { let t = a[0] as i128 - b[0] as i128; (t as u64).wrapping_add((t >> 64) as u64) };
    mt_u128 |a, b| { let t = (a[0] as u128) * (b[0] as u128) + 5; t as u64 };
    mt_le_bytes |a, _b| { let x = a[0].to_le_bytes(); h8(&x) };
    mt_from_le |a, _b| { let x = [a[0] as u8, a[1] as u8, 3, 4]; u32::from_le_bytes(x) as u64 };
    mt_from_le_slice |a, _b| { let x = [a[0] as u8, a[1] as u8, 3, 4, 5, 6, 7, 8]; u32::from_le_bytes(x[2..6].try_into().unwrap()) as u64 };
    mt_be_bytes |a, _b| { let x = a[0].to_be_bytes(); h8(&x) };
    mt_minmax |a, b| core::cmp::min(a[0], b[0]) as u64 + a[1].max(b[1]) as u64;
    mt_abs |a, b| (a[0] & 0xff).abs_diff(b[0] & 0xff) as u64;
    mt_option_and |a, b| Some(a[0]).and_then(|x| if x > 5 { Some(b[0]) } else { None }).unwrap_or_default() as u64;
    mt_bool_then |a, b| (a[0] > b[0]).then(|| a[1]).unwrap_or(4) as u64;
    mt_then_some |a, b| (a[0] > b[0]).then_some(a[1]).map_or(4, |x| x as u64);
    mt_matches |a, _b| matches!(a[0] & 3, 1 | 2) as u64;
    mt_bits |a, _b| { let mut s = 0u64; for i in 0..32 { s = s * 2 % 1000003 + ((a[0] >> i) & 1) as u64; } s };
    mt_rotl |a, _b| a[0].rotate_left(5) as u64;
    mt_swap_bytes |a, _b| a[0].swap_bytes() as u64;
    mt_concat |a, b| { let mut o = [0u32; 16]; o[..8].copy_from_slice(&a); o[8..].copy_from_slice(&b); h(&o) };
    mt_memswap |a, b| { let (mut x, mut y) = (a, b); core::mem::swap(&mut x, &mut y); h(&x) ^ h(&y).wrapping_mul(3) };
    mt_memreplace |a, b| { let mut x = a; let y = core::mem::replace(&mut x, b); let z = core::mem::take(&mut x[0]); h(&x) ^ h(&y).wrapping_mul(3) ^ z as u64 };
    mt_scan |a, _b| { let mut s = 0u64; for x in a.iter().scan(0u64, |c, v| { *c += *v as u64; Some(*c) }) { s ^= x; } s };
    mt_chain |a, b| { let mut s = 0u64; for x in a.iter().chain(b.iter()) { s = s.wrapping_mul(3).wrapping_add(*x as u64); } s };
    mt_chain_once |a, _b| { let mut s = 0u64; for x in a.iter().copied().chain(core::iter::once(5)) { s = s.wrapping_mul(3).wrapping_add(x as u64); } s };
    mt_repeat |a, _b| { let mut s = 0u64; for (x, k) in a.iter().zip(core::iter::repeat(3u64)) { s = s.wrapping_mul(k).wrapping_add(*x as u64); } s };
    mt_flat |a, _b| { let mut s = 0u64; for b in a.iter().flat_map(|x| x.to_le_bytes()) { s = s.wrapping_mul(3).wrapping_add(b as u64); } s };
    mt_from_fn |a, b| { let c: [u32; 8] = core::array::from_fn(|i| a[i] ^ b[7 - i]); h(&c) };
    mt_succ |a, _b| { let mut s = 0u64; for x in core::iter::successors(Some(1u64), |x| if *x < 100 { Some(x * 3) } else { None }) { s += x; } s + a[0] as u64 };
    mt_filter |a, _b| { let mut s = 0u64; for (i, x) in a.iter().enumerate().filter(|(i, _)| i % 2 == 0) { s += *x as u64 * i as u64; } s };
    mt_peek |a, _b| { let mut it = a.iter().peekable(); let mut s = 0u64; while let Some(x) = it.next() { if it.peek().is_none() { s += 1; } s += *x as u64; } s };
    mt_cmp |a, b| match a[0].cmp(&b[0]) { core::cmp::Ordering::Less => 1, core::cmp::Ordering::Equal => 2, _ => 3 };
    mt_arr_eq |a, b| (a == b) as u64 + 2 * (a[..4] == b[..4]) as u64 + 4 * (a != b) as u64;
    mt_arr_cmp |a, b| (a < b) as u64;
    mt_rev_cmp |a, b| a.iter().rev().lt(b.iter().rev()) as u64;
    mt_starts |a, b| a.starts_with(&b[..2]) as u64 + a.ends_with(&b[6..]) as u64;
    mt_contains |a, _b| a.contains(&7) as u64;
    mt_max |a, _b| *a.iter().max().unwrap() as u64 + *a.iter().min().unwrap() as u64;
    mt_2d |a, _b| { let mut t = [[0u32; 4]; 2]; for i in 0..2 { for j in 0..4 { t[i][j] = a[i * 4 + j]; } } let mut s = 0; for r in t.iter() { s ^= h(r); } s };
    mt_box |a, _b| { let x = Box::new(a); h(&x[..]) };
    mt_struct_upd |a, b| { #[derive(Clone, Copy, Default)] struct S { x: u32, y: u32 } let s = S { x: a[0], ..S::default() }; let t = S { y: b[0], ..s }; t.x as u64 + t.y as u64 };
    mt_iter_eq |a, b| a.iter().eq(b.iter()) as u64;
    mt_by_ref |a, _b| { let mut it = a.iter(); let mut s = 0u64; for x in it.by_ref().take(3) { s += *x as u64; } for x in it { s = s.wrapping_mul(2) + *x as u64; } s };
    mt_next |a, _b| { let mut it = a.into_iter(); let x = it.next().unwrap(); let y = it.next_back().unwrap(); x as u64 * 2 + y as u64 + it.len() as u64 };
    mt_reduce |a, _b| a.iter().copied().reduce(|x, y| x ^ y).unwrap() as u64;
    mt_try_fold |a, _b| a.iter().try_fold(0u32, |s, x| s.checked_add(*x & 0xffff)).unwrap_or(1) as u64;
    mt_copy_from_iter |a, _b| { let mut d = [0u32; 8]; d.iter_mut().zip(a.iter().rev()).for_each(|(o, i)| *o = *i); h(&d) };
    mt_fnptr |a, b| { fn f(x: u32, y: u32) -> u32 { x ^ y } let g: fn(u32, u32) -> u32 = f; g(a[0], b[0]) as u64 };
    mt_last_mut |a, _b| { let mut d = a; *d.last_mut().unwrap() &= 0x7f; d[0] |= 1; h(&d) };
    mt_ptr |a, _b| { let r = &a; let s: &[u32] = r.as_ref(); let t = a.as_slice(); h(s) ^ h(t).wrapping_mul(3) };
    mt_bool_ops |a, b| { let x = a[0] & 1 == 1; let y = b[0] & 1 == 1; (x ^ y) as u64 + 2 * (x != y) as u64 + 4 * (x & y) as u64 + 8 * (x | y) as u64 + 16 * (!x) as u64 + 32 * (x == y) as u64 };
    mt_u8_sign |a, _b| { let s = a[0] as u8; ((s & 0x80) != 0) as u64 + 2 * ((s >> 7) == 1) as u64 + 4 * (s > 0x7f) as u64 + 8 * ((s as i8) < 0) as u64 + 16 * (s & 128 == 128) as u64 };
    mt_from_bool |a, b| u64::from(a[0] > b[0]) + u8::from(true) as u64;
    mt_neg_mask |a, b| { let m = 0u32.wrapping_sub(a[0] & 1); ((b[0] & m) | (b[1] & !m)) as u64 };
    mt_ct_xor |a, b| { let m = (-((a[0] & 1) as i32)) as u32; (b[0] ^ (m & (b[0] ^ b[1]))) as u64 };
    mt_divrem |a, _b| { let x = a[0]; (x / 28) as u64 * 3 + (x % 28) as u64 };
    mt_shl_var |a, _b| { let mut s = 0u64; for i in 0..8 { s |= (a[i] as u64 & 0xff) << (8 * i); } s };
    mt_leading |a, _b| a[0].leading_zeros() as u64 * 0 + (a[0] & 1).count_ones() as u64;
    mt_pow |a, _b| 2u64.pow(5) + a[0] as u64;
    mt_wrapping_neg |a, _b| a[0].wrapping_neg() as u64;
    mt_array_iter_idx |a, _b| { let t: [(usize, u32); 3] = [(0, 5), (3, 6), (7, 9)]; let mut s = 0u64; for (i, m) in t { s += (a[i] ^ m) as u64; } s };
    mt_array_iter_ref |a, _b| { let t: [(usize, u32); 3] = [(0, 5), (3, 6), (7, 9)]; let mut s = 0u64; for &(i, m) in t.iter() { s += (a[i] ^ m) as u64; } s };
    mt_for_in_ref |a, _b| { let mut d = a; for x in &mut d { *x ^= 3; } for x in &d { if *x == 0 { return 1; } } h(&d) };
    mt_unwrap_else |a, _b| a.get(9).copied().unwrap_or_else(|| a[1]) as u64;
    mt_ok_or |a, _b| { let r: Result<u32, ()> = a.get(2).copied().ok_or(()); match r { Ok(x) => x as u64, Err(_) => 0 } };
    mt_qmark |a, _b| { fn f(a: &A) -> Option<u64> { let x = a.get(1)?; let y = a.get(2)?; Some(*x as u64 + *y as u64) } f(&a).unwrap_or(0) };
    mt_as_mut |a, _b| { let mut d = a; { let s: &mut [u32] = d.as_mut(); s[0] = 1; } h(&d) };
    mt_iter_partition |a, _b| { let mut it = a.chunks_exact(3); let mut s = 0u64; while let Some(c) = it.next() { s ^= h(c); } s + it.remainder().len() as u64 };
    mt_split_chunks |a, _b| { let (c, r) = a.as_chunks::<3>(); let mut s = 0u64; for x in c { s ^= h(x); } s + r.len() as u64 };
    mt_first_chunk |a, _b| { let c = a.first_chunk::<3>().unwrap(); let d = a.last_chunk::<2>().unwrap(); h(c) + h(d) % 1000 };
    mt_select_nested |a, b| { let x = if a[0] > 3 { if b[0] > 2 { 1 } else { 2 } } else { 3 }; let y = match x { 1 => a[1], 2 => a[2], _ => a[3] }; y as u64 };
}
