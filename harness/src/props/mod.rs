pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;

pub const IDS: [&str; 19] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15",
    "C16", "C17", "C18", "C19",
];

#[macro_export]
macro_rules! with_prop {
    ($id:expr, $p:ident, $e:expr, $other:expr) => {
        match $id {
            "C01" => { let $p = $crate::props::c01::C01; $e }
            "C02" => { let $p = $crate::props::c02::C02; $e }
            "C03" => { let $p = $crate::props::c03::C03; $e }
            "C04" => { let $p = $crate::props::c04::C04; $e }
            "C05" => { let $p = $crate::props::c05::C05; $e }
            "C06" => { let $p = $crate::props::c06::C06; $e }
            "C07" => { let $p = $crate::props::c07::C07; $e }
            "C08" => { let $p = $crate::props::c08::C08; $e }
            "C09" => { let $p = $crate::props::c09::C09; $e }
            "C10" => { let $p = $crate::props::c10::C10; $e }
            "C11" => { let $p = $crate::props::c11::C11; $e }
            "C12" => { let $p = $crate::props::c12::C12; $e }
            "C13" => { let $p = $crate::props::c13::C13; $e }
            "C14" => { let $p = $crate::props::c14::C14; $e }
            "C15" => { let $p = $crate::props::c15::C15; $e }
            "C16" => { let $p = $crate::props::c16::C16; $e }
            "C17" => { let $p = $crate::props::c17::C17; $e }
            "C18" => { let $p = $crate::props::c18::C18; $e }
            "C19" => { let $p = $crate::props::c19::C19; $e }
            _ => $other,
        }
    };
}
