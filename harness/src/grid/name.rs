//! Written by tools/mkgrid.py.
#![allow(dead_code)]
#[rustfmt::skip]
pub mod m {
    #[xsd::all(schema = "schemas/grid/name00.xsd")] pub mod name00 {}
    #[xsd::all(schema = "schemas/grid/name01.xsd")] pub mod name01 {}
    #[xsd::all(schema = "schemas/grid/name02.xsd")] pub mod name02 {}
    #[xsd::all(schema = "schemas/grid/name03.xsd")] pub mod name03 {}
    #[xsd::all(schema = "schemas/grid/name04.xsd")] pub mod name04 {}
    #[xsd::all(schema = "schemas/grid/name05.xsd")] pub mod name05 {}
    #[xsd::all(schema = "schemas/grid/name06.xsd")] pub mod name06 {}
    #[xsd::all(schema = "schemas/grid/name07.xsd")] pub mod name07 {}
    #[xsd::all(schema = "schemas/grid/name08.xsd")] pub mod name08 {}
    #[xsd::all(schema = "schemas/grid/name09.xsd")] pub mod name09 {}
    #[xsd::all(schema = "schemas/grid/name10.xsd")] pub mod name10 {}
    #[xsd::all(schema = "schemas/grid/name11.xsd")] pub mod name11 {}
    #[xsd::all(schema = "schemas/grid/name12.xsd")] pub mod name12 {}
    #[xsd::all(schema = "schemas/grid/name13.xsd")] pub mod name13 {}
    #[xsd::all(schema = "schemas/grid/name14.xsd")] pub mod name14 {}
    #[xsd::all(schema = "schemas/grid/name15.xsd")] pub mod name15 {}
    #[xsd::all(schema = "schemas/grid/name16.xsd")] pub mod name16 {}
    #[xsd::all(schema = "schemas/grid/name17.xsd")] pub mod name17 {}
    #[xsd::all(schema = "schemas/grid/name18.xsd")] pub mod name18 {}
    #[xsd::all(schema = "schemas/grid/name19.xsd")] pub mod name19 {}
    #[xsd::all(schema = "schemas/grid/name20.xsd")] pub mod name20 {}
    #[xsd::all(schema = "schemas/grid/name21.xsd")] pub mod name21 {}
    #[xsd::all(schema = "schemas/grid/name22.xsd")] pub mod name22 {}
    #[xsd::all(schema = "schemas/grid/name23.xsd")] pub mod name23 {}
    #[xsd::all(schema = "schemas/grid/name24.xsd")] pub mod name24 {}
    #[xsd::all(schema = "schemas/grid/name25.xsd")] pub mod name25 {}
    #[xsd::all(schema = "schemas/grid/name26.xsd")] pub mod name26 {}
    #[xsd::all(schema = "schemas/grid/name27.xsd")] pub mod name27 {}
    #[xsd::all(schema = "schemas/grid/name28.xsd")] pub mod name28 {}
    #[xsd::all(schema = "schemas/grid/name29.xsd")] pub mod name29 {}
    #[xsd::all(schema = "schemas/grid/name30.xsd")] pub mod name30 {}
    #[xsd::all(schema = "schemas/grid/name31.xsd")] pub mod name31 {}
    #[xsd::all(schema = "schemas/grid/name32.xsd")] pub mod name32 {}
    #[xsd::all(schema = "schemas/grid/name33.xsd")] pub mod name33 {}
    #[xsd::all(schema = "schemas/grid/name34.xsd")] pub mod name34 {}
    #[xsd::all(schema = "schemas/grid/name35.xsd")] pub mod name35 {}
    #[xsd::all(schema = "schemas/grid/name36.xsd")] pub mod name36 {}
}
pub static CASES: &[crate::gridfns::Case] = &[
    case!("name00", m::name00::R, "../../schemas/grid/name00.xsd"),
    case!("name01", m::name01::R, "../../schemas/grid/name01.xsd"),
    case!("name02", m::name02::R, "../../schemas/grid/name02.xsd"),
    case!("name03", m::name03::R, "../../schemas/grid/name03.xsd"),
    case!("name04", m::name04::R, "../../schemas/grid/name04.xsd"),
    case!("name05", m::name05::R, "../../schemas/grid/name05.xsd"),
    case!("name06", m::name06::R, "../../schemas/grid/name06.xsd"),
    case!("name07", m::name07::R, "../../schemas/grid/name07.xsd"),
    case!("name08", m::name08::R, "../../schemas/grid/name08.xsd"),
    case!("name09", m::name09::R, "../../schemas/grid/name09.xsd"),
    case!("name10", m::name10::R, "../../schemas/grid/name10.xsd"),
    case!("name11", m::name11::R, "../../schemas/grid/name11.xsd"),
    case!("name12", m::name12::R, "../../schemas/grid/name12.xsd"),
    case!("name13", m::name13::R, "../../schemas/grid/name13.xsd"),
    case!("name14", m::name14::R, "../../schemas/grid/name14.xsd"),
    case!("name15", m::name15::R, "../../schemas/grid/name15.xsd"),
    case!("name16", m::name16::R, "../../schemas/grid/name16.xsd"),
    case!("name17", m::name17::R, "../../schemas/grid/name17.xsd"),
    case!("name18", m::name18::R, "../../schemas/grid/name18.xsd"),
    case!("name19", m::name19::R, "../../schemas/grid/name19.xsd"),
    case!("name20", m::name20::R, "../../schemas/grid/name20.xsd"),
    case!("name21", m::name21::R, "../../schemas/grid/name21.xsd"),
    case!("name22", m::name22::R, "../../schemas/grid/name22.xsd"),
    case!("name23", m::name23::R, "../../schemas/grid/name23.xsd"),
    case!("name24", m::name24::R, "../../schemas/grid/name24.xsd"),
    case!("name25", m::name25::R, "../../schemas/grid/name25.xsd"),
    case!("name26", m::name26::R, "../../schemas/grid/name26.xsd"),
    case!("name27", m::name27::R, "../../schemas/grid/name27.xsd"),
    case!("name28", m::name28::R, "../../schemas/grid/name28.xsd"),
    case!("name29", m::name29::R, "../../schemas/grid/name29.xsd"),
    case!("name30", m::name30::R, "../../schemas/grid/name30.xsd"),
    case!("name31", m::name31::R, "../../schemas/grid/name31.xsd"),
    case!("name32", m::name32::R, "../../schemas/grid/name32.xsd"),
    case!("name33", m::name33::R, "../../schemas/grid/name33.xsd"),
    case!("name34", m::name34::R, "../../schemas/grid/name34.xsd"),
    case!("name35", m::name35::R, "../../schemas/grid/name35.xsd"),
    case!("name36", m::name36::R, "../../schemas/grid/name36.xsd"),
];
family!(m::name00::R, m::name01::R, m::name02::R, m::name03::R, m::name04::R, m::name05::R, m::name06::R, m::name07::R, m::name08::R, m::name09::R, m::name10::R, m::name11::R, m::name12::R, m::name13::R, m::name14::R, m::name15::R, m::name16::R, m::name17::R, m::name18::R, m::name19::R, m::name20::R, m::name21::R, m::name22::R, m::name23::R, m::name24::R, m::name25::R, m::name26::R, m::name27::R, m::name28::R, m::name29::R, m::name30::R, m::name31::R, m::name32::R, m::name33::R, m::name34::R, m::name35::R, m::name36::R);
