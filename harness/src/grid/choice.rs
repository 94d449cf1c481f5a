//! Written by tools/mkgrid.py.
#![allow(dead_code)]
#[rustfmt::skip]
pub mod m {
    #[xsd::all(schema = "schemas/grid/choice00.xsd")] pub mod choice00 {}
    #[xsd::all(schema = "schemas/grid/choice01.xsd")] pub mod choice01 {}
    #[xsd::all(schema = "schemas/grid/choice02.xsd")] pub mod choice02 {}
    #[xsd::all(schema = "schemas/grid/choice03.xsd")] pub mod choice03 {}
    #[xsd::all(schema = "schemas/grid/choice04.xsd")] pub mod choice04 {}
    #[xsd::all(schema = "schemas/grid/choice05.xsd")] pub mod choice05 {}
    #[xsd::all(schema = "schemas/grid/choice06.xsd")] pub mod choice06 {}
    #[xsd::all(schema = "schemas/grid/choice07.xsd")] pub mod choice07 {}
    #[xsd::all(schema = "schemas/grid/choice08.xsd")] pub mod choice08 {}
    #[xsd::all(schema = "schemas/grid/choice09.xsd")] pub mod choice09 {}
    #[xsd::all(schema = "schemas/grid/choice10.xsd")] pub mod choice10 {}
    #[xsd::all(schema = "schemas/grid/choice11.xsd")] pub mod choice11 {}
    #[xsd::all(schema = "schemas/grid/choice12.xsd")] pub mod choice12 {}
    #[xsd::all(schema = "schemas/grid/choice13.xsd")] pub mod choice13 {}
    #[xsd::all(schema = "schemas/grid/choice14.xsd")] pub mod choice14 {}
    #[xsd::all(schema = "schemas/grid/choice15.xsd")] pub mod choice15 {}
    #[xsd::all(schema = "schemas/grid/choice16.xsd")] pub mod choice16 {}
    #[xsd::all(schema = "schemas/grid/choice17.xsd")] pub mod choice17 {}
    #[xsd::all(schema = "schemas/grid/choice18.xsd")] pub mod choice18 {}
    #[xsd::all(schema = "schemas/grid/choice19.xsd")] pub mod choice19 {}
    #[xsd::all(schema = "schemas/grid/choice20.xsd")] pub mod choice20 {}
    #[xsd::all(schema = "schemas/grid/choice21.xsd")] pub mod choice21 {}
    #[xsd::all(schema = "schemas/grid/choice22.xsd")] pub mod choice22 {}
    #[xsd::all(schema = "schemas/grid/choice23.xsd")] pub mod choice23 {}
    #[xsd::all(schema = "schemas/grid/choice24.xsd")] pub mod choice24 {}
    #[xsd::all(schema = "schemas/grid/choice25.xsd")] pub mod choice25 {}
    #[xsd::all(schema = "schemas/grid/choice26.xsd")] pub mod choice26 {}
    #[xsd::all(schema = "schemas/grid/choice27.xsd")] pub mod choice27 {}
    #[xsd::all(schema = "schemas/grid/choice28.xsd")] pub mod choice28 {}
    #[xsd::all(schema = "schemas/grid/choice29.xsd")] pub mod choice29 {}
    #[xsd::all(schema = "schemas/grid/choice30.xsd")] pub mod choice30 {}
    #[xsd::all(schema = "schemas/grid/choice31.xsd")] pub mod choice31 {}
    #[xsd::all(schema = "schemas/grid/choice32.xsd")] pub mod choice32 {}
    #[xsd::all(schema = "schemas/grid/choice33.xsd")] pub mod choice33 {}
    #[xsd::all(schema = "schemas/grid/choice34.xsd")] pub mod choice34 {}
    #[xsd::all(schema = "schemas/grid/choice35.xsd")] pub mod choice35 {}
    #[xsd::all(schema = "schemas/grid/choice36.xsd")] pub mod choice36 {}
    #[xsd::all(schema = "schemas/grid/choice37.xsd")] pub mod choice37 {}
    #[xsd::all(schema = "schemas/grid/choice38.xsd")] pub mod choice38 {}
    #[xsd::all(schema = "schemas/grid/choice39.xsd")] pub mod choice39 {}
    #[xsd::all(schema = "schemas/grid/choice40.xsd")] pub mod choice40 {}
    #[xsd::all(schema = "schemas/grid/choice41.xsd")] pub mod choice41 {}
    #[xsd::all(schema = "schemas/grid/choice42.xsd")] pub mod choice42 {}
    #[xsd::all(schema = "schemas/grid/choice43.xsd")] pub mod choice43 {}
    #[xsd::all(schema = "schemas/grid/choice44.xsd")] pub mod choice44 {}
    #[xsd::all(schema = "schemas/grid/choice45.xsd")] pub mod choice45 {}
    #[xsd::all(schema = "schemas/grid/choice46.xsd")] pub mod choice46 {}
}
pub static CASES: &[crate::gridfns::Case] = &[
    case!("choice00", m::choice00::R, "../../schemas/grid/choice00.xsd"),
    case!("choice01", m::choice01::R, "../../schemas/grid/choice01.xsd"),
    case!("choice02", m::choice02::R, "../../schemas/grid/choice02.xsd"),
    case!("choice03", m::choice03::R, "../../schemas/grid/choice03.xsd"),
    case!("choice04", m::choice04::R, "../../schemas/grid/choice04.xsd"),
    case!("choice05", m::choice05::R, "../../schemas/grid/choice05.xsd"),
    case!("choice06", m::choice06::R, "../../schemas/grid/choice06.xsd"),
    case!("choice07", m::choice07::R, "../../schemas/grid/choice07.xsd"),
    case!("choice08", m::choice08::R, "../../schemas/grid/choice08.xsd"),
    case!("choice09", m::choice09::R, "../../schemas/grid/choice09.xsd"),
    case!("choice10", m::choice10::R, "../../schemas/grid/choice10.xsd"),
    case!("choice11", m::choice11::R, "../../schemas/grid/choice11.xsd"),
    case!("choice12", m::choice12::R, "../../schemas/grid/choice12.xsd"),
    case!("choice13", m::choice13::R, "../../schemas/grid/choice13.xsd"),
    case!("choice14", m::choice14::R, "../../schemas/grid/choice14.xsd"),
    case!("choice15", m::choice15::R, "../../schemas/grid/choice15.xsd"),
    case!("choice16", m::choice16::R, "../../schemas/grid/choice16.xsd"),
    case!("choice17", m::choice17::R, "../../schemas/grid/choice17.xsd"),
    case!("choice18", m::choice18::R, "../../schemas/grid/choice18.xsd"),
    case!("choice19", m::choice19::R, "../../schemas/grid/choice19.xsd"),
    case!("choice20", m::choice20::R, "../../schemas/grid/choice20.xsd"),
    case!("choice21", m::choice21::R, "../../schemas/grid/choice21.xsd"),
    case!("choice22", m::choice22::R, "../../schemas/grid/choice22.xsd"),
    case!("choice23", m::choice23::R, "../../schemas/grid/choice23.xsd"),
    case!("choice24", m::choice24::R, "../../schemas/grid/choice24.xsd"),
    case!("choice25", m::choice25::R, "../../schemas/grid/choice25.xsd"),
    case!("choice26", m::choice26::R, "../../schemas/grid/choice26.xsd"),
    case!("choice27", m::choice27::R, "../../schemas/grid/choice27.xsd"),
    case!("choice28", m::choice28::R, "../../schemas/grid/choice28.xsd"),
    case!("choice29", m::choice29::R, "../../schemas/grid/choice29.xsd"),
    case!("choice30", m::choice30::R, "../../schemas/grid/choice30.xsd"),
    case!("choice31", m::choice31::R, "../../schemas/grid/choice31.xsd"),
    case!("choice32", m::choice32::R, "../../schemas/grid/choice32.xsd"),
    case!("choice33", m::choice33::R, "../../schemas/grid/choice33.xsd"),
    case!("choice34", m::choice34::R, "../../schemas/grid/choice34.xsd"),
    case!("choice35", m::choice35::R, "../../schemas/grid/choice35.xsd"),
    case!("choice36", m::choice36::R, "../../schemas/grid/choice36.xsd"),
    case!("choice37", m::choice37::R, "../../schemas/grid/choice37.xsd"),
    case!("choice38", m::choice38::R, "../../schemas/grid/choice38.xsd"),
    case!("choice39", m::choice39::R, "../../schemas/grid/choice39.xsd"),
    case!("choice40", m::choice40::R, "../../schemas/grid/choice40.xsd"),
    case!("choice41", m::choice41::R, "../../schemas/grid/choice41.xsd"),
    case!("choice42", m::choice42::R, "../../schemas/grid/choice42.xsd"),
    case!("choice43", m::choice43::R, "../../schemas/grid/choice43.xsd"),
    case!("choice44", m::choice44::R, "../../schemas/grid/choice44.xsd"),
    case!("choice45", m::choice45::R, "../../schemas/grid/choice45.xsd"),
    case!("choice46", m::choice46::R, "../../schemas/grid/choice46.xsd"),
];
family!(m::choice00::R, m::choice01::R, m::choice02::R, m::choice03::R, m::choice04::R, m::choice05::R, m::choice06::R, m::choice07::R, m::choice08::R, m::choice09::R, m::choice10::R, m::choice11::R, m::choice12::R, m::choice13::R, m::choice14::R, m::choice15::R, m::choice16::R, m::choice17::R, m::choice18::R, m::choice19::R, m::choice20::R, m::choice21::R, m::choice22::R, m::choice23::R, m::choice24::R, m::choice25::R, m::choice26::R, m::choice27::R, m::choice28::R, m::choice29::R, m::choice30::R, m::choice31::R, m::choice32::R, m::choice33::R, m::choice34::R, m::choice35::R, m::choice36::R, m::choice37::R, m::choice38::R, m::choice39::R, m::choice40::R, m::choice41::R, m::choice42::R, m::choice43::R, m::choice44::R, m::choice45::R, m::choice46::R);
