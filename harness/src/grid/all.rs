//! Written by tools/mkgrid.py.
#![allow(dead_code)]
#[rustfmt::skip]
pub mod m {
    #[xsd::all(schema = "schemas/grid/all00.xsd")] pub mod all00 {}
    #[xsd::all(schema = "schemas/grid/all01.xsd")] pub mod all01 {}
    #[xsd::all(schema = "schemas/grid/all02.xsd")] pub mod all02 {}
    #[xsd::all(schema = "schemas/grid/all03.xsd")] pub mod all03 {}
    #[xsd::all(schema = "schemas/grid/all04.xsd")] pub mod all04 {}
    #[xsd::all(schema = "schemas/grid/all05.xsd")] pub mod all05 {}
    #[xsd::all(schema = "schemas/grid/all06.xsd")] pub mod all06 {}
    #[xsd::all(schema = "schemas/grid/all07.xsd")] pub mod all07 {}
    #[xsd::all(schema = "schemas/grid/all08.xsd")] pub mod all08 {}
    #[xsd::all(schema = "schemas/grid/all09.xsd")] pub mod all09 {}
}
pub static CASES: &[crate::gridfns::Case] = &[
    case!("all00", m::all00::R, "../../schemas/grid/all00.xsd"),
    case!("all01", m::all01::R, "../../schemas/grid/all01.xsd"),
    case!("all02", m::all02::R, "../../schemas/grid/all02.xsd"),
    case!("all03", m::all03::R, "../../schemas/grid/all03.xsd"),
    case!("all04", m::all04::R, "../../schemas/grid/all04.xsd"),
    case!("all05", m::all05::R, "../../schemas/grid/all05.xsd"),
    case!("all06", m::all06::R, "../../schemas/grid/all06.xsd"),
    case!("all07", m::all07::R, "../../schemas/grid/all07.xsd"),
    case!("all08", m::all08::R, "../../schemas/grid/all08.xsd"),
    case!("all09", m::all09::R, "../../schemas/grid/all09.xsd"),
];
family!(m::all00::R, m::all01::R, m::all02::R, m::all03::R, m::all04::R, m::all05::R, m::all06::R, m::all07::R, m::all08::R, m::all09::R);
