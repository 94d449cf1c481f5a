//! Written by tools/mkgrid.py.
#![allow(dead_code)]
#[rustfmt::skip]
pub mod m {
    #[xsd::all(schema = "schemas/grid/group00.xsd")] pub mod group00 {}
    #[xsd::all(schema = "schemas/grid/group01.xsd")] pub mod group01 {}
    #[xsd::all(schema = "schemas/grid/group02.xsd")] pub mod group02 {}
    #[xsd::all(schema = "schemas/grid/group03.xsd")] pub mod group03 {}
    #[xsd::all(schema = "schemas/grid/group04.xsd")] pub mod group04 {}
    #[xsd::all(schema = "schemas/grid/group05.xsd")] pub mod group05 {}
    #[xsd::all(schema = "schemas/grid/group06.xsd")] pub mod group06 {}
    #[xsd::all(schema = "schemas/grid/group07.xsd")] pub mod group07 {}
    #[xsd::all(schema = "schemas/grid/group08.xsd")] pub mod group08 {}
    #[xsd::all(schema = "schemas/grid/group09.xsd")] pub mod group09 {}
    #[xsd::all(schema = "schemas/grid/group10.xsd")] pub mod group10 {}
    #[xsd::all(schema = "schemas/grid/group11.xsd")] pub mod group11 {}
    #[xsd::all(schema = "schemas/grid/group12.xsd")] pub mod group12 {}
    #[xsd::all(schema = "schemas/grid/group13.xsd")] pub mod group13 {}
    #[xsd::all(schema = "schemas/grid/group14.xsd")] pub mod group14 {}
    #[xsd::all(schema = "schemas/grid/group15.xsd")] pub mod group15 {}
    #[xsd::all(schema = "schemas/grid/group16.xsd")] pub mod group16 {}
    #[xsd::all(schema = "schemas/grid/group17.xsd")] pub mod group17 {}
    #[xsd::all(schema = "schemas/grid/group18.xsd")] pub mod group18 {}
    #[xsd::all(schema = "schemas/grid/group19.xsd")] pub mod group19 {}
    #[xsd::all(schema = "schemas/grid/group20.xsd")] pub mod group20 {}
    #[xsd::all(schema = "schemas/grid/group21.xsd")] pub mod group21 {}
    #[xsd::all(schema = "schemas/grid/group22.xsd")] pub mod group22 {}
    #[xsd::all(schema = "schemas/grid/group23.xsd")] pub mod group23 {}
    #[xsd::all(schema = "schemas/grid/group24.xsd")] pub mod group24 {}
    #[xsd::all(schema = "schemas/grid/group25.xsd")] pub mod group25 {}
    #[xsd::all(schema = "schemas/grid/group26.xsd")] pub mod group26 {}
    #[xsd::all(schema = "schemas/grid/group27.xsd")] pub mod group27 {}
    #[xsd::all(schema = "schemas/grid/group28.xsd")] pub mod group28 {}
}
pub static CASES: &[crate::gridfns::Case] = &[
    case!("group00", m::group00::R, "../../schemas/grid/group00.xsd"),
    case!("group01", m::group01::R, "../../schemas/grid/group01.xsd"),
    case!("group02", m::group02::R, "../../schemas/grid/group02.xsd"),
    case!("group03", m::group03::R, "../../schemas/grid/group03.xsd"),
    case!("group04", m::group04::R, "../../schemas/grid/group04.xsd"),
    case!("group05", m::group05::R, "../../schemas/grid/group05.xsd"),
    case!("group06", m::group06::R, "../../schemas/grid/group06.xsd"),
    case!("group07", m::group07::R, "../../schemas/grid/group07.xsd"),
    case!("group08", m::group08::R, "../../schemas/grid/group08.xsd"),
    case!("group09", m::group09::R, "../../schemas/grid/group09.xsd"),
    case!("group10", m::group10::R, "../../schemas/grid/group10.xsd"),
    case!("group11", m::group11::R, "../../schemas/grid/group11.xsd"),
    case!("group12", m::group12::R, "../../schemas/grid/group12.xsd"),
    case!("group13", m::group13::R, "../../schemas/grid/group13.xsd"),
    case!("group14", m::group14::R, "../../schemas/grid/group14.xsd"),
    case!("group15", m::group15::R, "../../schemas/grid/group15.xsd"),
    case!("group16", m::group16::R, "../../schemas/grid/group16.xsd"),
    case!("group17", m::group17::R, "../../schemas/grid/group17.xsd"),
    case!("group18", m::group18::R, "../../schemas/grid/group18.xsd"),
    case!("group19", m::group19::R, "../../schemas/grid/group19.xsd"),
    case!("group20", m::group20::R, "../../schemas/grid/group20.xsd"),
    case!("group21", m::group21::R, "../../schemas/grid/group21.xsd"),
    case!("group22", m::group22::R, "../../schemas/grid/group22.xsd"),
    case!("group23", m::group23::R, "../../schemas/grid/group23.xsd"),
    case!("group24", m::group24::R, "../../schemas/grid/group24.xsd"),
    case!("group25", m::group25::R, "../../schemas/grid/group25.xsd"),
    case!("group26", m::group26::R, "../../schemas/grid/group26.xsd"),
    case!("group27", m::group27::R, "../../schemas/grid/group27.xsd"),
    case!("group28", m::group28::R, "../../schemas/grid/group28.xsd"),
];
family!(m::group00::R, m::group01::R, m::group02::R, m::group03::R, m::group04::R, m::group05::R, m::group06::R, m::group07::R, m::group08::R, m::group09::R, m::group10::R, m::group11::R, m::group12::R, m::group13::R, m::group14::R, m::group15::R, m::group16::R, m::group17::R, m::group18::R, m::group19::R, m::group20::R, m::group21::R, m::group22::R, m::group23::R, m::group24::R, m::group25::R, m::group26::R, m::group27::R, m::group28::R);
