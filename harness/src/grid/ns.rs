//! Written by tools/mkgrid.py.
#![allow(dead_code)]
#[rustfmt::skip]
pub mod m {
    #[xsd::all(schema = "schemas/grid/ns00.xsd")] pub mod ns00 {}
    #[xsd::all(schema = "schemas/grid/ns01.xsd")] pub mod ns01 {}
    #[xsd::all(schema = "schemas/grid/ns02.xsd")] pub mod ns02 {}
    #[xsd::all(schema = "schemas/grid/ns03.xsd")] pub mod ns03 {}
    #[xsd::all(schema = "schemas/grid/ns04.xsd")] pub mod ns04 {}
    #[xsd::all(schema = "schemas/grid/ns05.xsd")] pub mod ns05 {}
    #[xsd::all(schema = "schemas/grid/ns06.xsd")] pub mod ns06 {}
    #[xsd::all(schema = "schemas/grid/ns07.xsd")] pub mod ns07 {}
    #[xsd::all(schema = "schemas/grid/ns08.xsd")] pub mod ns08 {}
    #[xsd::all(schema = "schemas/grid/ns09.xsd")] pub mod ns09 {}
    #[xsd::all(schema = "schemas/grid/ns10.xsd")] pub mod ns10 {}
    #[xsd::all(schema = "schemas/grid/ns11.xsd")] pub mod ns11 {}
    #[xsd::all(schema = "schemas/grid/ns12.xsd")] pub mod ns12 {}
    #[xsd::all(schema = "schemas/grid/ns13.xsd")] pub mod ns13 {}
    #[xsd::all(schema = "schemas/grid/ns14.xsd")] pub mod ns14 {}
    #[xsd::all(schema = "schemas/grid/ns15.xsd")] pub mod ns15 {}
    #[xsd::all(schema = "schemas/grid/ns16.xsd")] pub mod ns16 {}
    #[xsd::all(schema = "schemas/grid/ns17.xsd")] pub mod ns17 {}
    #[xsd::all(schema = "schemas/grid/ns18.xsd")] pub mod ns18 {}
    #[xsd::all(schema = "schemas/grid/ns19.xsd")] pub mod ns19 {}
    #[xsd::all(schema = "schemas/grid/ns20.xsd")] pub mod ns20 {}
}
pub static CASES: &[crate::gridfns::Case] = &[
    case!("ns00", m::ns00::R, "../../schemas/grid/ns00.xsd", "../../schemas/grid/ns00_1.xsd"),
    case!("ns01", m::ns01::R, "../../schemas/grid/ns01.xsd", "../../schemas/grid/ns01_1.xsd"),
    case!("ns02", m::ns02::R, "../../schemas/grid/ns02.xsd", "../../schemas/grid/ns02_1.xsd", "../../schemas/grid/ns02_2.xsd"),
    case!("ns03", m::ns03::R, "../../schemas/grid/ns03.xsd", "../../schemas/grid/ns03_1.xsd", "../../schemas/grid/ns03_2.xsd"),
    case!("ns04", m::ns04::R, "../../schemas/grid/ns04.xsd", "../../schemas/grid/ns04_1.xsd", "../../schemas/grid/ns04_2.xsd", "../../schemas/grid/ns04_3.xsd"),
    case!("ns05", m::ns05::R, "../../schemas/grid/ns05.xsd", "../../schemas/grid/ns05_1.xsd", "../../schemas/grid/ns05_2.xsd", "../../schemas/grid/ns05_3.xsd"),
    case!("ns06", m::ns06::R, "../../schemas/grid/ns06.xsd", "../../schemas/grid/ns06_1.xsd", "../../schemas/grid/ns06_2.xsd"),
    case!("ns07", m::ns07::R, "../../schemas/grid/ns07.xsd", "../../schemas/grid/ns07_1.xsd"),
    case!("ns08", m::ns08::R, "../../schemas/grid/ns08.xsd", "../../schemas/grid/ns08_1.xsd"),
    case!("ns09", m::ns09::R, "../../schemas/grid/ns09.xsd", "../../schemas/grid/ns09_1.xsd", "../../schemas/grid/ns09_2.xsd"),
    case!("ns10", m::ns10::R, "../../schemas/grid/ns10.xsd", "../../schemas/grid/ns10_1.xsd", "../../schemas/grid/ns10_2.xsd"),
    case!("ns11", m::ns11::R, "../../schemas/grid/ns11.xsd", "../../schemas/grid/ns11_1.xsd", "../../schemas/grid/ns11_2.xsd", "../../schemas/grid/ns11_3.xsd"),
    case!("ns12", m::ns12::R, "../../schemas/grid/ns12.xsd", "../../schemas/grid/ns12_1.xsd", "../../schemas/grid/ns12_2.xsd", "../../schemas/grid/ns12_3.xsd"),
    case!("ns13", m::ns13::R, "../../schemas/grid/ns13.xsd", "../../schemas/grid/ns13_1.xsd", "../../schemas/grid/ns13_2.xsd"),
    case!("ns14", m::ns14::R, "../../schemas/grid/ns14.xsd", "../../schemas/grid/ns14_1.xsd"),
    case!("ns15", m::ns15::R, "../../schemas/grid/ns15.xsd", "../../schemas/grid/ns15_1.xsd"),
    case!("ns16", m::ns16::R, "../../schemas/grid/ns16.xsd", "../../schemas/grid/ns16_1.xsd", "../../schemas/grid/ns16_2.xsd"),
    case!("ns17", m::ns17::R, "../../schemas/grid/ns17.xsd", "../../schemas/grid/ns17_1.xsd", "../../schemas/grid/ns17_2.xsd"),
    case!("ns18", m::ns18::R, "../../schemas/grid/ns18.xsd", "../../schemas/grid/ns18_1.xsd", "../../schemas/grid/ns18_2.xsd", "../../schemas/grid/ns18_3.xsd"),
    case!("ns19", m::ns19::R, "../../schemas/grid/ns19.xsd", "../../schemas/grid/ns19_1.xsd", "../../schemas/grid/ns19_2.xsd", "../../schemas/grid/ns19_3.xsd"),
    case!("ns20", m::ns20::R, "../../schemas/grid/ns20.xsd", "../../schemas/grid/ns20_1.xsd", "../../schemas/grid/ns20_2.xsd"),
];
family!(m::ns00::R, m::ns01::R, m::ns02::R, m::ns03::R, m::ns04::R, m::ns05::R, m::ns06::R, m::ns07::R, m::ns08::R, m::ns09::R, m::ns10::R, m::ns11::R, m::ns12::R, m::ns13::R, m::ns14::R, m::ns15::R, m::ns16::R, m::ns17::R, m::ns18::R, m::ns19::R, m::ns20::R);
