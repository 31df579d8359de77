use crate::core::Ctx;

macro_rules! registry {
    ($($id:literal => $m:ident),* $(,)?) => {
        $(mod $m;)*
        pub const IDS: &[&str] = &[$($id),*];
        pub fn dispatch(ctx: &Ctx) -> i32 {
            match ctx.prop.as_str() {
                $($id => $m::check(ctx),)*
                other => {
                    eprintln!("CHECK ERROR: unknown property {other}");
                    2
                }
            }
        }
    };
}

registry! {
    "P01" => p01,
    "P02" => p02,
    "P03" => p03,
    "P04" => p04,
    "P05" => p05,
    "P06" => p06,
    "P07" => p07,
    "P08" => p08,
    "P09" => p09,
    "P10" => p10,
    "P11" => p11,
    "P12" => p12,
    "P13" => p13,
    "P14" => p14,
    "P15" => p15,
    "P16" => p16,
    "P17" => p17,
    "P18" => p18,
    "P19" => p19,
    "P20" => p20,
    "P21" => p21,
    "P22" => p22,
    "P23" => p23,
    "P24" => p24,
    "P25" => p25,
    "P26" => p26,
    "P27" => p27,
    "P28" => p28,
    "P29" => p29,
}
