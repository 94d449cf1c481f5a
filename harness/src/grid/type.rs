//! Written by tools/mkgrid.py.
#![allow(dead_code)]
#[rustfmt::skip]
pub mod m {
    #[xsd::all(schema = "schemas/grid/type00.xsd")] pub mod type00 {}
    #[xsd::all(schema = "schemas/grid/type01.xsd")] pub mod type01 {}
    #[xsd::all(schema = "schemas/grid/type02.xsd")] pub mod type02 {}
    #[xsd::all(schema = "schemas/grid/type03.xsd")] pub mod type03 {}
    #[xsd::all(schema = "schemas/grid/type04.xsd")] pub mod type04 {}
    #[xsd::all(schema = "schemas/grid/type05.xsd")] pub mod type05 {}
    #[xsd::all(schema = "schemas/grid/type06.xsd")] pub mod type06 {}
    #[xsd::all(schema = "schemas/grid/type07.xsd")] pub mod type07 {}
    #[xsd::all(schema = "schemas/grid/type08.xsd")] pub mod type08 {}
    #[xsd::all(schema = "schemas/grid/type09.xsd")] pub mod type09 {}
    #[xsd::all(schema = "schemas/grid/type10.xsd")] pub mod type10 {}
    #[xsd::all(schema = "schemas/grid/type11.xsd")] pub mod type11 {}
    #[xsd::all(schema = "schemas/grid/type12.xsd")] pub mod type12 {}
    #[xsd::all(schema = "schemas/grid/type13.xsd")] pub mod type13 {}
    #[xsd::all(schema = "schemas/grid/type14.xsd")] pub mod type14 {}
    #[xsd::all(schema = "schemas/grid/type15.xsd")] pub mod type15 {}
    #[xsd::all(schema = "schemas/grid/type16.xsd")] pub mod type16 {}
    #[xsd::all(schema = "schemas/grid/type17.xsd")] pub mod type17 {}
    #[xsd::all(schema = "schemas/grid/type18.xsd")] pub mod type18 {}
    #[xsd::all(schema = "schemas/grid/type19.xsd")] pub mod type19 {}
    #[xsd::all(schema = "schemas/grid/type20.xsd")] pub mod type20 {}
    #[xsd::all(schema = "schemas/grid/type21.xsd")] pub mod type21 {}
    #[xsd::all(schema = "schemas/grid/type22.xsd")] pub mod type22 {}
    #[xsd::all(schema = "schemas/grid/type23.xsd")] pub mod type23 {}
    #[xsd::all(schema = "schemas/grid/type24.xsd")] pub mod type24 {}
    #[xsd::all(schema = "schemas/grid/type25.xsd")] pub mod type25 {}
    #[xsd::all(schema = "schemas/grid/type26.xsd")] pub mod type26 {}
    #[xsd::all(schema = "schemas/grid/type27.xsd")] pub mod type27 {}
    #[xsd::all(schema = "schemas/grid/type28.xsd")] pub mod type28 {}
    #[xsd::all(schema = "schemas/grid/type29.xsd")] pub mod type29 {}
    #[xsd::all(schema = "schemas/grid/type30.xsd")] pub mod type30 {}
    #[xsd::all(schema = "schemas/grid/type31.xsd")] pub mod type31 {}
}
pub static CASES: &[crate::gridfns::Case] = &[
    case!("type00", m::type00::R, "../../schemas/grid/type00.xsd"),
    case!("type01", m::type01::R, "../../schemas/grid/type01.xsd"),
    case!("type02", m::type02::R, "../../schemas/grid/type02.xsd"),
    case!("type03", m::type03::R, "../../schemas/grid/type03.xsd"),
    case!("type04", m::type04::R, "../../schemas/grid/type04.xsd"),
    case!("type05", m::type05::R, "../../schemas/grid/type05.xsd"),
    case!("type06", m::type06::R, "../../schemas/grid/type06.xsd"),
    case!("type07", m::type07::R, "../../schemas/grid/type07.xsd"),
    case!("type08", m::type08::R, "../../schemas/grid/type08.xsd"),
    case!("type09", m::type09::R, "../../schemas/grid/type09.xsd"),
    case!("type10", m::type10::R, "../../schemas/grid/type10.xsd"),
    case!("type11", m::type11::R, "../../schemas/grid/type11.xsd"),
    case!("type12", m::type12::R, "../../schemas/grid/type12.xsd"),
    case!("type13", m::type13::R, "../../schemas/grid/type13.xsd"),
    case!("type14", m::type14::R, "../../schemas/grid/type14.xsd"),
    case!("type15", m::type15::R, "../../schemas/grid/type15.xsd"),
    case!("type16", m::type16::R, "../../schemas/grid/type16.xsd"),
    case!("type17", m::type17::R, "../../schemas/grid/type17.xsd"),
    case!("type18", m::type18::R, "../../schemas/grid/type18.xsd"),
    case!("type19", m::type19::R, "../../schemas/grid/type19.xsd"),
    case!("type20", m::type20::R, "../../schemas/grid/type20.xsd"),
    case!("type21", m::type21::R, "../../schemas/grid/type21.xsd"),
    case!("type22", m::type22::R, "../../schemas/grid/type22.xsd"),
    case!("type23", m::type23::R, "../../schemas/grid/type23.xsd"),
    case!("type24", m::type24::R, "../../schemas/grid/type24.xsd"),
    case!("type25", m::type25::R, "../../schemas/grid/type25.xsd"),
    case!("type26", m::type26::R, "../../schemas/grid/type26.xsd"),
    case!("type27", m::type27::R, "../../schemas/grid/type27.xsd"),
    case!("type28", m::type28::R, "../../schemas/grid/type28.xsd"),
    case!("type29", m::type29::R, "../../schemas/grid/type29.xsd"),
    case!("type30", m::type30::R, "../../schemas/grid/type30.xsd"),
    case!("type31", m::type31::R, "../../schemas/grid/type31.xsd"),
];
family!(m::type00::R, m::type01::R, m::type02::R, m::type03::R, m::type04::R, m::type05::R, m::type06::R, m::type07::R, m::type08::R, m::type09::R, m::type10::R, m::type11::R, m::type12::R, m::type13::R, m::type14::R, m::type15::R, m::type16::R, m::type17::R, m::type18::R, m::type19::R, m::type20::R, m::type21::R, m::type22::R, m::type23::R, m::type24::R, m::type25::R, m::type26::R, m::type27::R, m::type28::R, m::type29::R, m::type30::R, m::type31::R);
