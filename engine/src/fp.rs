//! Concrete evaluation of floating-point operations (also used for uninterpreted symbolic ones).
pub fn eval_uf(name: &str, a: &[u128]) -> u128 {
    let f32s = |x: u128| f32::from_bits(x as u32);
    let f64s = |x: u128| f64::from_bits(x as u64);
    let b32 = |x: f32| x.to_bits() as u128;
    let b64 = |x: f64| x.to_bits() as u128;
    if let Some(p) = name.strip_prefix("fcmp.") {
        let (pred, ty) = p.split_once('.').unwrap();
        let (x, y) = if ty == "32" { (f32s(a[0]) as f64, f32s(a[1]) as f64) } else { (f64s(a[0]), f64s(a[1])) };
        let uno = x.is_nan() || y.is_nan();
        let r = match pred {
            "oeq" => x == y,
            "ogt" => x > y,
            "oge" => x >= y,
            "olt" => x < y,
            "ole" => x <= y,
            "one" => !uno && x != y,
            "ord" => !uno,
            "uno" => uno,
            "ueq" => uno || x == y,
            "ugt" => uno || x > y,
            "uge" => uno || x >= y,
            "ult" => uno || x < y,
            "ule" => uno || x <= y,
            "une" => x != y,
            "true" => true,
            "false" => false,
            _ => panic!("fcmp {}", pred),
        };
        return r as u128;
    }
    if name.starts_with("decimal.") {
        // up to 38 digits (in two parts), an exponent (and where the point is)
        let m = a[0] * 10u128.pow((a[2] as u32).min(19)) + a[1];
        let t = format!("{}e{}", m, a[3] as u64 as i64);
        return if name == "decimal.32" { b32(t.parse().unwrap()) } else { b64(t.parse().unwrap()) };
    }
    match name {
        "fadd.32" => b32(f32s(a[0]) + f32s(a[1])),
        "fsub.32" => b32(f32s(a[0]) - f32s(a[1])),
        "fmul.32" => b32(f32s(a[0]) * f32s(a[1])),
        "fdiv.32" => b32(f32s(a[0]) / f32s(a[1])),
        "frem.32" => b32(f32s(a[0]) % f32s(a[1])),
        "fadd.64" => b64(f64s(a[0]) + f64s(a[1])),
        "fsub.64" => b64(f64s(a[0]) - f64s(a[1])),
        "fmul.64" => b64(f64s(a[0]) * f64s(a[1])),
        "fdiv.64" => b64(f64s(a[0]) / f64s(a[1])),
        "frem.64" => b64(f64s(a[0]) % f64s(a[1])),
        "fpext" => b64(f32s(a[0]) as f64),
        "fptrunc" => b32(f64s(a[0]) as f32),
        _ => {
            // casts with width parameter: name.from.to
            let p: Vec<&str> = name.split('.').collect();
            let from: u16 = p.get(1).and_then(|x| x.parse().ok()).unwrap_or(64);
            let to: u16 = p.get(2).and_then(|x| x.parse().ok()).unwrap_or(64);
            match p[0] {
                "uitofp" => {
                    if to == 32 { b32(a[0] as f32) } else { b64(a[0] as f64) }
                }
                "sitofp" => {
                    let v = crate::ir::sext(a[0], from);
                    if to == 32 { b32(v as f32) } else { b64(v as f64) }
                }
                "fptoui" => {
                    let v = if from == 32 { f32s(a[0]) as f64 } else { f64s(a[0]) };
                    let m = crate::ir::mask(to);
                    if v.is_nan() || v <= 0.0 { 0 } else { (v as u128).min(m) }
                }
                "fptosi" => {
                    let v = if from == 32 { f32s(a[0]) as f64 } else { f64s(a[0]) };
                    let half = (crate::ir::mask(to) >> 1) as i128;
                    let r = if v.is_nan() { 0 } else { (v as i128).clamp(-half - 1, half) };
                    r as u128 & crate::ir::mask(to)
                }
                _ => panic!("uf {}", name),
            }
        }
    }
}
