//! Written by tools/mkgrid.py.
#![allow(dead_code)]
#[rustfmt::skip]
pub mod m {
    #[xsd::all(schema = "schemas/grid/enum00.xsd")] pub mod enum00 {}
    #[xsd::all(schema = "schemas/grid/enum01.xsd")] pub mod enum01 {}
    #[xsd::all(schema = "schemas/grid/enum02.xsd")] pub mod enum02 {}
    #[xsd::all(schema = "schemas/grid/enum03.xsd")] pub mod enum03 {}
    #[xsd::all(schema = "schemas/grid/enum04.xsd")] pub mod enum04 {}
    #[xsd::all(schema = "schemas/grid/enum05.xsd")] pub mod enum05 {}
    #[xsd::all(schema = "schemas/grid/enum06.xsd")] pub mod enum06 {}
    #[xsd::all(schema = "schemas/grid/enum07.xsd")] pub mod enum07 {}
    #[xsd::all(schema = "schemas/grid/enum08.xsd")] pub mod enum08 {}
    #[xsd::all(schema = "schemas/grid/enum09.xsd")] pub mod enum09 {}
    #[xsd::all(schema = "schemas/grid/enum10.xsd")] pub mod enum10 {}
    #[xsd::all(schema = "schemas/grid/enum11.xsd")] pub mod enum11 {}
    #[xsd::all(schema = "schemas/grid/enum12.xsd")] pub mod enum12 {}
    #[xsd::all(schema = "schemas/grid/enum13.xsd")] pub mod enum13 {}
    #[xsd::all(schema = "schemas/grid/enum14.xsd")] pub mod enum14 {}
    #[xsd::all(schema = "schemas/grid/enum15.xsd")] pub mod enum15 {}
    #[xsd::all(schema = "schemas/grid/enum16.xsd")] pub mod enum16 {}
    #[xsd::all(schema = "schemas/grid/enum17.xsd")] pub mod enum17 {}
    #[xsd::all(schema = "schemas/grid/enum18.xsd")] pub mod enum18 {}
    #[xsd::all(schema = "schemas/grid/enum19.xsd")] pub mod enum19 {}
    #[xsd::all(schema = "schemas/grid/enum20.xsd")] pub mod enum20 {}
    #[xsd::all(schema = "schemas/grid/enum21.xsd")] pub mod enum21 {}
    #[xsd::all(schema = "schemas/grid/enum22.xsd")] pub mod enum22 {}
    #[xsd::all(schema = "schemas/grid/enum23.xsd")] pub mod enum23 {}
    #[xsd::all(schema = "schemas/grid/enum24.xsd")] pub mod enum24 {}
    #[xsd::all(schema = "schemas/grid/enum25.xsd")] pub mod enum25 {}
    #[xsd::all(schema = "schemas/grid/enum26.xsd")] pub mod enum26 {}
    #[xsd::all(schema = "schemas/grid/enum27.xsd")] pub mod enum27 {}
    #[xsd::all(schema = "schemas/grid/enum28.xsd")] pub mod enum28 {}
    #[xsd::all(schema = "schemas/grid/enum29.xsd")] pub mod enum29 {}
    #[xsd::all(schema = "schemas/grid/enum30.xsd")] pub mod enum30 {}
    #[xsd::all(schema = "schemas/grid/enum31.xsd")] pub mod enum31 {}
    #[xsd::all(schema = "schemas/grid/enum32.xsd")] pub mod enum32 {}
    #[xsd::all(schema = "schemas/grid/enum33.xsd")] pub mod enum33 {}
    #[xsd::all(schema = "schemas/grid/enum34.xsd")] pub mod enum34 {}
    #[xsd::all(schema = "schemas/grid/enum35.xsd")] pub mod enum35 {}
}
pub static CASES: &[crate::gridfns::Case] = &[
    case!("enum00", m::enum00::R, "../../schemas/grid/enum00.xsd"),
    case!("enum01", m::enum01::R, "../../schemas/grid/enum01.xsd"),
    case!("enum02", m::enum02::R, "../../schemas/grid/enum02.xsd"),
    case!("enum03", m::enum03::R, "../../schemas/grid/enum03.xsd"),
    case!("enum04", m::enum04::R, "../../schemas/grid/enum04.xsd"),
    case!("enum05", m::enum05::R, "../../schemas/grid/enum05.xsd"),
    case!("enum06", m::enum06::R, "../../schemas/grid/enum06.xsd"),
    case!("enum07", m::enum07::R, "../../schemas/grid/enum07.xsd"),
    case!("enum08", m::enum08::R, "../../schemas/grid/enum08.xsd"),
    case!("enum09", m::enum09::R, "../../schemas/grid/enum09.xsd"),
    case!("enum10", m::enum10::R, "../../schemas/grid/enum10.xsd"),
    case!("enum11", m::enum11::R, "../../schemas/grid/enum11.xsd"),
    case!("enum12", m::enum12::R, "../../schemas/grid/enum12.xsd"),
    case!("enum13", m::enum13::R, "../../schemas/grid/enum13.xsd"),
    case!("enum14", m::enum14::R, "../../schemas/grid/enum14.xsd"),
    case!("enum15", m::enum15::R, "../../schemas/grid/enum15.xsd"),
    case!("enum16", m::enum16::R, "../../schemas/grid/enum16.xsd"),
    case!("enum17", m::enum17::R, "../../schemas/grid/enum17.xsd"),
    case!("enum18", m::enum18::R, "../../schemas/grid/enum18.xsd"),
    case!("enum19", m::enum19::R, "../../schemas/grid/enum19.xsd"),
    case!("enum20", m::enum20::R, "../../schemas/grid/enum20.xsd"),
    case!("enum21", m::enum21::R, "../../schemas/grid/enum21.xsd"),
    case!("enum22", m::enum22::R, "../../schemas/grid/enum22.xsd"),
    case!("enum23", m::enum23::R, "../../schemas/grid/enum23.xsd"),
    case!("enum24", m::enum24::R, "../../schemas/grid/enum24.xsd"),
    case!("enum25", m::enum25::R, "../../schemas/grid/enum25.xsd"),
    case!("enum26", m::enum26::R, "../../schemas/grid/enum26.xsd"),
    case!("enum27", m::enum27::R, "../../schemas/grid/enum27.xsd"),
    case!("enum28", m::enum28::R, "../../schemas/grid/enum28.xsd"),
    case!("enum29", m::enum29::R, "../../schemas/grid/enum29.xsd"),
    case!("enum30", m::enum30::R, "../../schemas/grid/enum30.xsd"),
    case!("enum31", m::enum31::R, "../../schemas/grid/enum31.xsd"),
    case!("enum32", m::enum32::R, "../../schemas/grid/enum32.xsd"),
    case!("enum33", m::enum33::R, "../../schemas/grid/enum33.xsd"),
    case!("enum34", m::enum34::R, "../../schemas/grid/enum34.xsd"),
    case!("enum35", m::enum35::R, "../../schemas/grid/enum35.xsd"),
];
family!(m::enum00::R, m::enum01::R, m::enum02::R, m::enum03::R, m::enum04::R, m::enum05::R, m::enum06::R, m::enum07::R, m::enum08::R, m::enum09::R, m::enum10::R, m::enum11::R, m::enum12::R, m::enum13::R, m::enum14::R, m::enum15::R, m::enum16::R, m::enum17::R, m::enum18::R, m::enum19::R, m::enum20::R, m::enum21::R, m::enum22::R, m::enum23::R, m::enum24::R, m::enum25::R, m::enum26::R, m::enum27::R, m::enum28::R, m::enum29::R, m::enum30::R, m::enum31::R, m::enum32::R, m::enum33::R, m::enum34::R, m::enum35::R);
