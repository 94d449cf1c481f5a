//! Written by tools/mkgrid.py.
#![allow(dead_code)]
#[rustfmt::skip]
pub mod m {
    #[xsd::all(schema = "schemas/grid/inc00.xsd")] pub mod inc00 {}
    #[xsd::all(schema = "schemas/grid/inc01.xsd")] pub mod inc01 {}
    #[xsd::all(schema = "schemas/grid/inc02.xsd")] pub mod inc02 {}
    #[xsd::all(schema = "schemas/grid/inc03.xsd")] pub mod inc03 {}
    #[xsd::all(schema = "schemas/grid/inc04.xsd")] pub mod inc04 {}
    #[xsd::all(schema = "schemas/grid/inc05.xsd")] pub mod inc05 {}
    #[xsd::all(schema = "schemas/grid/inc06.xsd")] pub mod inc06 {}
    #[xsd::all(schema = "schemas/grid/inc07.xsd")] pub mod inc07 {}
    #[xsd::all(schema = "schemas/grid/inc08.xsd")] pub mod inc08 {}
    #[xsd::all(schema = "schemas/grid/inc09.xsd")] pub mod inc09 {}
    #[xsd::all(schema = "schemas/grid/inc10.xsd")] pub mod inc10 {}
    #[xsd::all(schema = "schemas/grid/inc11.xsd")] pub mod inc11 {}
    #[xsd::all(schema = "schemas/grid/inc12.xsd")] pub mod inc12 {}
    #[xsd::all(schema = "schemas/grid/inc13.xsd")] pub mod inc13 {}
    #[xsd::all(schema = "schemas/grid/inc14.xsd")] pub mod inc14 {}
    #[xsd::all(schema = "schemas/grid/inc15.xsd")] pub mod inc15 {}
    #[xsd::all(schema = "schemas/grid/inc16.xsd")] pub mod inc16 {}
    #[xsd::all(schema = "schemas/grid/inc17.xsd")] pub mod inc17 {}
}
pub static CASES: &[crate::gridfns::Case] = &[
    case!("inc00", m::inc00::R, "../../schemas/grid/inc00.xsd"),
    case!("inc01", m::inc01::R, "../../schemas/grid/inc01.xsd", "../../schemas/grid/inc01_1.xsd"),
    case!("inc02", m::inc02::R, "../../schemas/grid/inc02.xsd", "../../schemas/grid/inc02_1.xsd", "../../schemas/grid/inc02_2.xsd", "../../schemas/grid/inc02_3.xsd"),
    case!("inc03", m::inc03::R, "../../schemas/grid/inc03.xsd", "../../schemas/grid/inc03_1.xsd", "../../schemas/grid/inc03_2.xsd", "../../schemas/grid/inc03_3.xsd"),
    case!("inc04", m::inc04::R, "../../schemas/grid/inc04.xsd", "../../schemas/grid/inc04_1.xsd", "../../schemas/grid/inc04_2.xsd"),
    case!("inc05", m::inc05::R, "../../schemas/grid/inc05.xsd", "../../schemas/grid/inc05_1.xsd", "../../schemas/grid/inc05_2.xsd"),
    case!("inc06", m::inc06::R, "../../schemas/grid/inc06.xsd"),
    case!("inc07", m::inc07::R, "../../schemas/grid/inc07.xsd", "../../schemas/grid/inc07_1.xsd"),
    case!("inc08", m::inc08::R, "../../schemas/grid/inc08.xsd", "../../schemas/grid/inc08_1.xsd", "../../schemas/grid/inc08_2.xsd", "../../schemas/grid/inc08_3.xsd"),
    case!("inc09", m::inc09::R, "../../schemas/grid/inc09.xsd", "../../schemas/grid/inc09_1.xsd", "../../schemas/grid/inc09_2.xsd", "../../schemas/grid/inc09_3.xsd"),
    case!("inc10", m::inc10::R, "../../schemas/grid/inc10.xsd", "../../schemas/grid/inc10_1.xsd", "../../schemas/grid/inc10_2.xsd"),
    case!("inc11", m::inc11::R, "../../schemas/grid/inc11.xsd", "../../schemas/grid/inc11_1.xsd", "../../schemas/grid/inc11_2.xsd"),
    case!("inc12", m::inc12::R, "../../schemas/grid/inc12.xsd"),
    case!("inc13", m::inc13::R, "../../schemas/grid/inc13.xsd", "../../schemas/grid/inc13_1.xsd"),
    case!("inc14", m::inc14::R, "../../schemas/grid/inc14.xsd", "../../schemas/grid/inc14_1.xsd", "../../schemas/grid/inc14_2.xsd", "../../schemas/grid/inc14_3.xsd"),
    case!("inc15", m::inc15::R, "../../schemas/grid/inc15.xsd", "../../schemas/grid/inc15_1.xsd", "../../schemas/grid/inc15_2.xsd", "../../schemas/grid/inc15_3.xsd"),
    case!("inc16", m::inc16::R, "../../schemas/grid/inc16.xsd", "../../schemas/grid/inc16_1.xsd", "../../schemas/grid/inc16_2.xsd"),
    case!("inc17", m::inc17::R, "../../schemas/grid/inc17.xsd", "../../schemas/grid/inc17_1.xsd", "../../schemas/grid/inc17_2.xsd"),
];
family!(m::inc00::R, m::inc01::R, m::inc02::R, m::inc03::R, m::inc04::R, m::inc05::R, m::inc06::R, m::inc07::R, m::inc08::R, m::inc09::R, m::inc10::R, m::inc11::R, m::inc12::R, m::inc13::R, m::inc14::R, m::inc15::R, m::inc16::R, m::inc17::R);
