//! Written by tools/mkgrid.py.
#![allow(dead_code)]
#[rustfmt::skip]
pub mod m {
    #[xsd::all(schema = "schemas/grid/mix00.xsd")] pub mod mix00 {}
    #[xsd::all(schema = "schemas/grid/mix01.xsd")] pub mod mix01 {}
    #[xsd::all(schema = "schemas/grid/mix02.xsd")] pub mod mix02 {}
    #[xsd::all(schema = "schemas/grid/mix03.xsd")] pub mod mix03 {}
    #[xsd::all(schema = "schemas/grid/mix04.xsd")] pub mod mix04 {}
    #[xsd::all(schema = "schemas/grid/mix05.xsd")] pub mod mix05 {}
    #[xsd::all(schema = "schemas/grid/mix06.xsd")] pub mod mix06 {}
    #[xsd::all(schema = "schemas/grid/mix07.xsd")] pub mod mix07 {}
    #[xsd::all(schema = "schemas/grid/mix08.xsd")] pub mod mix08 {}
    #[xsd::all(schema = "schemas/grid/mix09.xsd")] pub mod mix09 {}
    #[xsd::all(schema = "schemas/grid/mix10.xsd")] pub mod mix10 {}
    #[xsd::all(schema = "schemas/grid/mix11.xsd")] pub mod mix11 {}
    #[xsd::all(schema = "schemas/grid/mix12.xsd")] pub mod mix12 {}
    #[xsd::all(schema = "schemas/grid/mix13.xsd")] pub mod mix13 {}
    #[xsd::all(schema = "schemas/grid/mix14.xsd")] pub mod mix14 {}
    #[xsd::all(schema = "schemas/grid/mix15.xsd")] pub mod mix15 {}
    #[xsd::all(schema = "schemas/grid/mix16.xsd")] pub mod mix16 {}
    #[xsd::all(schema = "schemas/grid/mix17.xsd")] pub mod mix17 {}
    #[xsd::all(schema = "schemas/grid/mix18.xsd")] pub mod mix18 {}
    #[xsd::all(schema = "schemas/grid/mix19.xsd")] pub mod mix19 {}
    #[xsd::all(schema = "schemas/grid/mix20.xsd")] pub mod mix20 {}
    #[xsd::all(schema = "schemas/grid/mix21.xsd")] pub mod mix21 {}
    #[xsd::all(schema = "schemas/grid/mix22.xsd")] pub mod mix22 {}
    #[xsd::all(schema = "schemas/grid/mix23.xsd")] pub mod mix23 {}
    #[xsd::all(schema = "schemas/grid/mix24.xsd")] pub mod mix24 {}
    #[xsd::all(schema = "schemas/grid/mix25.xsd")] pub mod mix25 {}
    #[xsd::all(schema = "schemas/grid/mix26.xsd")] pub mod mix26 {}
    #[xsd::all(schema = "schemas/grid/mix27.xsd")] pub mod mix27 {}
    #[xsd::all(schema = "schemas/grid/mix28.xsd")] pub mod mix28 {}
    #[xsd::all(schema = "schemas/grid/mix29.xsd")] pub mod mix29 {}
    #[xsd::all(schema = "schemas/grid/mix30.xsd")] pub mod mix30 {}
    #[xsd::all(schema = "schemas/grid/mix31.xsd")] pub mod mix31 {}
    #[xsd::all(schema = "schemas/grid/mix32.xsd")] pub mod mix32 {}
    #[xsd::all(schema = "schemas/grid/mix33.xsd")] pub mod mix33 {}
    #[xsd::all(schema = "schemas/grid/mix34.xsd")] pub mod mix34 {}
    #[xsd::all(schema = "schemas/grid/mix35.xsd")] pub mod mix35 {}
    #[xsd::all(schema = "schemas/grid/mix36.xsd")] pub mod mix36 {}
    #[xsd::all(schema = "schemas/grid/mix37.xsd")] pub mod mix37 {}
    #[xsd::all(schema = "schemas/grid/mix38.xsd")] pub mod mix38 {}
    #[xsd::all(schema = "schemas/grid/mix39.xsd")] pub mod mix39 {}
    #[xsd::all(schema = "schemas/grid/mix40.xsd")] pub mod mix40 {}
    #[xsd::all(schema = "schemas/grid/mix41.xsd")] pub mod mix41 {}
    #[xsd::all(schema = "schemas/grid/mix42.xsd")] pub mod mix42 {}
    #[xsd::all(schema = "schemas/grid/mix43.xsd")] pub mod mix43 {}
    #[xsd::all(schema = "schemas/grid/mix44.xsd")] pub mod mix44 {}
    #[xsd::all(schema = "schemas/grid/mix45.xsd")] pub mod mix45 {}
    #[xsd::all(schema = "schemas/grid/mix46.xsd")] pub mod mix46 {}
    #[xsd::all(schema = "schemas/grid/mix47.xsd")] pub mod mix47 {}
}
pub static CASES: &[crate::gridfns::Case] = &[
    case!("mix00", m::mix00::R, "../../schemas/grid/mix00.xsd"),
    case!("mix01", m::mix01::R, "../../schemas/grid/mix01.xsd"),
    case!("mix02", m::mix02::R, "../../schemas/grid/mix02.xsd"),
    case!("mix03", m::mix03::R, "../../schemas/grid/mix03.xsd"),
    case!("mix04", m::mix04::R, "../../schemas/grid/mix04.xsd"),
    case!("mix05", m::mix05::R, "../../schemas/grid/mix05.xsd"),
    case!("mix06", m::mix06::R, "../../schemas/grid/mix06.xsd"),
    case!("mix07", m::mix07::R, "../../schemas/grid/mix07.xsd"),
    case!("mix08", m::mix08::R, "../../schemas/grid/mix08.xsd"),
    case!("mix09", m::mix09::R, "../../schemas/grid/mix09.xsd"),
    case!("mix10", m::mix10::R, "../../schemas/grid/mix10.xsd"),
    case!("mix11", m::mix11::R, "../../schemas/grid/mix11.xsd"),
    case!("mix12", m::mix12::R, "../../schemas/grid/mix12.xsd"),
    case!("mix13", m::mix13::R, "../../schemas/grid/mix13.xsd"),
    case!("mix14", m::mix14::R, "../../schemas/grid/mix14.xsd"),
    case!("mix15", m::mix15::R, "../../schemas/grid/mix15.xsd"),
    case!("mix16", m::mix16::R, "../../schemas/grid/mix16.xsd"),
    case!("mix17", m::mix17::R, "../../schemas/grid/mix17.xsd"),
    case!("mix18", m::mix18::R, "../../schemas/grid/mix18.xsd"),
    case!("mix19", m::mix19::R, "../../schemas/grid/mix19.xsd"),
    case!("mix20", m::mix20::R, "../../schemas/grid/mix20.xsd"),
    case!("mix21", m::mix21::R, "../../schemas/grid/mix21.xsd"),
    case!("mix22", m::mix22::R, "../../schemas/grid/mix22.xsd"),
    case!("mix23", m::mix23::R, "../../schemas/grid/mix23.xsd"),
    case!("mix24", m::mix24::R, "../../schemas/grid/mix24.xsd"),
    case!("mix25", m::mix25::R, "../../schemas/grid/mix25.xsd"),
    case!("mix26", m::mix26::R, "../../schemas/grid/mix26.xsd"),
    case!("mix27", m::mix27::R, "../../schemas/grid/mix27.xsd"),
    case!("mix28", m::mix28::R, "../../schemas/grid/mix28.xsd"),
    case!("mix29", m::mix29::R, "../../schemas/grid/mix29.xsd"),
    case!("mix30", m::mix30::R, "../../schemas/grid/mix30.xsd"),
    case!("mix31", m::mix31::R, "../../schemas/grid/mix31.xsd"),
    case!("mix32", m::mix32::R, "../../schemas/grid/mix32.xsd"),
    case!("mix33", m::mix33::R, "../../schemas/grid/mix33.xsd"),
    case!("mix34", m::mix34::R, "../../schemas/grid/mix34.xsd"),
    case!("mix35", m::mix35::R, "../../schemas/grid/mix35.xsd"),
    case!("mix36", m::mix36::R, "../../schemas/grid/mix36.xsd"),
    case!("mix37", m::mix37::R, "../../schemas/grid/mix37.xsd"),
    case!("mix38", m::mix38::R, "../../schemas/grid/mix38.xsd"),
    case!("mix39", m::mix39::R, "../../schemas/grid/mix39.xsd"),
    case!("mix40", m::mix40::R, "../../schemas/grid/mix40.xsd"),
    case!("mix41", m::mix41::R, "../../schemas/grid/mix41.xsd"),
    case!("mix42", m::mix42::R, "../../schemas/grid/mix42.xsd"),
    case!("mix43", m::mix43::R, "../../schemas/grid/mix43.xsd"),
    case!("mix44", m::mix44::R, "../../schemas/grid/mix44.xsd"),
    case!("mix45", m::mix45::R, "../../schemas/grid/mix45.xsd"),
    case!("mix46", m::mix46::R, "../../schemas/grid/mix46.xsd"),
    case!("mix47", m::mix47::R, "../../schemas/grid/mix47.xsd"),
];
family!(m::mix00::R, m::mix01::R, m::mix02::R, m::mix03::R, m::mix04::R, m::mix05::R, m::mix06::R, m::mix07::R, m::mix08::R, m::mix09::R, m::mix10::R, m::mix11::R, m::mix12::R, m::mix13::R, m::mix14::R, m::mix15::R, m::mix16::R, m::mix17::R, m::mix18::R, m::mix19::R, m::mix20::R, m::mix21::R, m::mix22::R, m::mix23::R, m::mix24::R, m::mix25::R, m::mix26::R, m::mix27::R, m::mix28::R, m::mix29::R, m::mix30::R, m::mix31::R, m::mix32::R, m::mix33::R, m::mix34::R, m::mix35::R, m::mix36::R, m::mix37::R, m::mix38::R, m::mix39::R, m::mix40::R, m::mix41::R, m::mix42::R, m::mix43::R, m::mix44::R, m::mix45::R, m::mix46::R, m::mix47::R);
