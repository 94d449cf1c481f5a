//! Written by tools/mkgrid.py.
#![allow(dead_code)]
#[rustfmt::skip]
pub mod m {
    #[xsd::all(schema = "schemas/grid/ext00.xsd")] pub mod ext00 {}
    #[xsd::all(schema = "schemas/grid/ext01.xsd")] pub mod ext01 {}
    #[xsd::all(schema = "schemas/grid/ext02.xsd")] pub mod ext02 {}
    #[xsd::all(schema = "schemas/grid/ext03.xsd")] pub mod ext03 {}
    #[xsd::all(schema = "schemas/grid/ext04.xsd")] pub mod ext04 {}
    #[xsd::all(schema = "schemas/grid/ext05.xsd")] pub mod ext05 {}
    #[xsd::all(schema = "schemas/grid/ext06.xsd")] pub mod ext06 {}
    #[xsd::all(schema = "schemas/grid/ext07.xsd")] pub mod ext07 {}
    #[xsd::all(schema = "schemas/grid/ext08.xsd")] pub mod ext08 {}
    #[xsd::all(schema = "schemas/grid/ext09.xsd")] pub mod ext09 {}
    #[xsd::all(schema = "schemas/grid/ext10.xsd")] pub mod ext10 {}
    #[xsd::all(schema = "schemas/grid/ext11.xsd")] pub mod ext11 {}
    #[xsd::all(schema = "schemas/grid/ext12.xsd")] pub mod ext12 {}
    #[xsd::all(schema = "schemas/grid/ext13.xsd")] pub mod ext13 {}
    #[xsd::all(schema = "schemas/grid/ext14.xsd")] pub mod ext14 {}
    #[xsd::all(schema = "schemas/grid/ext15.xsd")] pub mod ext15 {}
    #[xsd::all(schema = "schemas/grid/ext16.xsd")] pub mod ext16 {}
    #[xsd::all(schema = "schemas/grid/ext17.xsd")] pub mod ext17 {}
    #[xsd::all(schema = "schemas/grid/ext18.xsd")] pub mod ext18 {}
    #[xsd::all(schema = "schemas/grid/ext19.xsd")] pub mod ext19 {}
    #[xsd::all(schema = "schemas/grid/ext20.xsd")] pub mod ext20 {}
    #[xsd::all(schema = "schemas/grid/ext21.xsd")] pub mod ext21 {}
    #[xsd::all(schema = "schemas/grid/ext22.xsd")] pub mod ext22 {}
    #[xsd::all(schema = "schemas/grid/ext23.xsd")] pub mod ext23 {}
    #[xsd::all(schema = "schemas/grid/ext24.xsd")] pub mod ext24 {}
    #[xsd::all(schema = "schemas/grid/ext25.xsd")] pub mod ext25 {}
    #[xsd::all(schema = "schemas/grid/ext26.xsd")] pub mod ext26 {}
    #[xsd::all(schema = "schemas/grid/ext27.xsd")] pub mod ext27 {}
    #[xsd::all(schema = "schemas/grid/ext28.xsd")] pub mod ext28 {}
    #[xsd::all(schema = "schemas/grid/ext29.xsd")] pub mod ext29 {}
    #[xsd::all(schema = "schemas/grid/ext30.xsd")] pub mod ext30 {}
    #[xsd::all(schema = "schemas/grid/ext31.xsd")] pub mod ext31 {}
    #[xsd::all(schema = "schemas/grid/ext32.xsd")] pub mod ext32 {}
}
pub static CASES: &[crate::gridfns::Case] = &[
    case!("ext00", m::ext00::R, "../../schemas/grid/ext00.xsd"),
    case!("ext01", m::ext01::R, "../../schemas/grid/ext01.xsd"),
    case!("ext02", m::ext02::R, "../../schemas/grid/ext02.xsd"),
    case!("ext03", m::ext03::R, "../../schemas/grid/ext03.xsd"),
    case!("ext04", m::ext04::R, "../../schemas/grid/ext04.xsd"),
    case!("ext05", m::ext05::R, "../../schemas/grid/ext05.xsd"),
    case!("ext06", m::ext06::R, "../../schemas/grid/ext06.xsd"),
    case!("ext07", m::ext07::R, "../../schemas/grid/ext07.xsd"),
    case!("ext08", m::ext08::R, "../../schemas/grid/ext08.xsd"),
    case!("ext09", m::ext09::R, "../../schemas/grid/ext09.xsd"),
    case!("ext10", m::ext10::R, "../../schemas/grid/ext10.xsd"),
    case!("ext11", m::ext11::R, "../../schemas/grid/ext11.xsd"),
    case!("ext12", m::ext12::R, "../../schemas/grid/ext12.xsd"),
    case!("ext13", m::ext13::R, "../../schemas/grid/ext13.xsd"),
    case!("ext14", m::ext14::R, "../../schemas/grid/ext14.xsd"),
    case!("ext15", m::ext15::R, "../../schemas/grid/ext15.xsd"),
    case!("ext16", m::ext16::R, "../../schemas/grid/ext16.xsd"),
    case!("ext17", m::ext17::R, "../../schemas/grid/ext17.xsd"),
    case!("ext18", m::ext18::R, "../../schemas/grid/ext18.xsd"),
    case!("ext19", m::ext19::R, "../../schemas/grid/ext19.xsd"),
    case!("ext20", m::ext20::R, "../../schemas/grid/ext20.xsd"),
    case!("ext21", m::ext21::R, "../../schemas/grid/ext21.xsd"),
    case!("ext22", m::ext22::R, "../../schemas/grid/ext22.xsd"),
    case!("ext23", m::ext23::R, "../../schemas/grid/ext23.xsd"),
    case!("ext24", m::ext24::R, "../../schemas/grid/ext24.xsd"),
    case!("ext25", m::ext25::R, "../../schemas/grid/ext25.xsd"),
    case!("ext26", m::ext26::R, "../../schemas/grid/ext26.xsd"),
    case!("ext27", m::ext27::R, "../../schemas/grid/ext27.xsd"),
    case!("ext28", m::ext28::R, "../../schemas/grid/ext28.xsd"),
    case!("ext29", m::ext29::R, "../../schemas/grid/ext29.xsd"),
    case!("ext30", m::ext30::R, "../../schemas/grid/ext30.xsd"),
    case!("ext31", m::ext31::R, "../../schemas/grid/ext31.xsd"),
    case!("ext32", m::ext32::R, "../../schemas/grid/ext32.xsd"),
];
family!(m::ext00::R, m::ext01::R, m::ext02::R, m::ext03::R, m::ext04::R, m::ext05::R, m::ext06::R, m::ext07::R, m::ext08::R, m::ext09::R, m::ext10::R, m::ext11::R, m::ext12::R, m::ext13::R, m::ext14::R, m::ext15::R, m::ext16::R, m::ext17::R, m::ext18::R, m::ext19::R, m::ext20::R, m::ext21::R, m::ext22::R, m::ext23::R, m::ext24::R, m::ext25::R, m::ext26::R, m::ext27::R, m::ext28::R, m::ext29::R, m::ext30::R, m::ext31::R, m::ext32::R);
