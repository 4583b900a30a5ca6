//! Scalars: exact reading and writing of floating point numbers.
use nalgebra::RealField;

pub trait Sc: RealField + Copy + serde::Serialize + serde::de::DeserializeOwned + std::str::FromStr + Send + Sync {
    const W: &'static str;
    fn of_f64(x: f64) -> Self;
    fn txt(self) -> String;
    fn to_f64_exactly(self) -> f64;
}

fn log_parts(neg: bool, mut m: u64, mut e: i32) -> String {
    if m == 0 {
        return if neg { "-0".into() } else { "0".into() };
    }
    let k = m.trailing_zeros();
    m >>= k;
    e += k as i32;
    let s = if neg { "-" } else { "" };
    if e >= 0 && e < 40 && (64 - m.leading_zeros()) as i32 + e < 50 {
        format!("{s}{}", m << e)
    } else {
        format!("{s}{m}@{e}")
    }
}

impl Sc for f64 {
    const W: &'static str = "f64";
    fn of_f64(x: f64) -> f64 {
        x
    }
    fn to_f64_exactly(self) -> f64 {
        self
    }
    fn txt(self) -> String {
        if self.is_nan() {
            return "nan".into();
        }
        if self.is_infinite() {
            return if self > 0.0 { "inf" } else { "-inf" }.into();
        }
        let b = self.to_bits();
        let ex = ((b >> 52) & 0x7ff) as i32;
        let fr = b & ((1 << 52) - 1);
        let (m, e) = if ex == 0 { (fr, -1074) } else { (fr | (1 << 52), ex - 1075) };
        log_parts(b >> 63 == 1, m, e)
    }
}

impl Sc for f32 {
    const W: &'static str = "f32";
    fn of_f64(x: f64) -> f32 {
        x as f32
    }
    fn to_f64_exactly(self) -> f64 {
        self.into()
    }
    fn txt(self) -> String {
        if self.is_nan() {
            return "nan".into();
        }
        if self.is_infinite() {
            return if self > 0.0 { "inf" } else { "-inf" }.into();
        }
        let b = self.to_bits();
        let ex = ((b >> 23) & 0xff) as i32;
        let fr = b & ((1 << 23) - 1);
        let (m, e) = if ex == 0 { (fr, -149) } else { (fr | (1 << 23), ex - 150) };
        log_parts(b >> 31 == 1, m as u64, e)
    }
}

fn pow2(mut x: f64, mut e: i32) -> f64 {
    while e > 1000 {
        x *= 2f64.powi(1000);
        e -= 1000;
    }
    while e < -1000 {
        x *= 2f64.powi(-1000);
        e += 1000;
    }
    x * 2f64.powi(e)
}

/// "nan", "inf", "m@e" (m * 2^e), "a/b", or a decimal numeral.
pub fn parse(s: &str) -> f64 {
    if let Some((m, e)) = s.split_once('@') {
        return pow2(m.parse::<f64>().expect(s), e.parse().expect(s));
    }
    if let Some((a, b)) = s.split_once('/') {
        return a.parse::<f64>().expect(s) / b.parse::<f64>().expect(s);
    }
    match s {
        "nan" => f64::NAN,
        "inf" => f64::INFINITY,
        "-inf" => f64::NEG_INFINITY,
        _ => s.parse().expect(s),
    }
}
