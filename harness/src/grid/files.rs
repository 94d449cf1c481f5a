//! Written by tools/mkgrid.py: the schemas as text, one family after another.
#![allow(dead_code)]
#[rustfmt::skip]
pub static GROUP: &[(&str, &str)] = &[
    ("group00", include_str!("../../schemas/grid/group00.xsd")),
    ("group01", include_str!("../../schemas/grid/group01.xsd")),
    ("group02", include_str!("../../schemas/grid/group02.xsd")),
    ("group03", include_str!("../../schemas/grid/group03.xsd")),
    ("group04", include_str!("../../schemas/grid/group04.xsd")),
    ("group05", include_str!("../../schemas/grid/group05.xsd")),
    ("group06", include_str!("../../schemas/grid/group06.xsd")),
    ("group07", include_str!("../../schemas/grid/group07.xsd")),
    ("group08", include_str!("../../schemas/grid/group08.xsd")),
    ("group09", include_str!("../../schemas/grid/group09.xsd")),
    ("group10", include_str!("../../schemas/grid/group10.xsd")),
    ("group11", include_str!("../../schemas/grid/group11.xsd")),
    ("group12", include_str!("../../schemas/grid/group12.xsd")),
    ("group13", include_str!("../../schemas/grid/group13.xsd")),
    ("group14", include_str!("../../schemas/grid/group14.xsd")),
    ("group15", include_str!("../../schemas/grid/group15.xsd")),
    ("group16", include_str!("../../schemas/grid/group16.xsd")),
    ("group17", include_str!("../../schemas/grid/group17.xsd")),
    ("group18", include_str!("../../schemas/grid/group18.xsd")),
    ("group19", include_str!("../../schemas/grid/group19.xsd")),
    ("group20", include_str!("../../schemas/grid/group20.xsd")),
    ("group21", include_str!("../../schemas/grid/group21.xsd")),
    ("group22", include_str!("../../schemas/grid/group22.xsd")),
    ("group23", include_str!("../../schemas/grid/group23.xsd")),
    ("group24", include_str!("../../schemas/grid/group24.xsd")),
    ("group25", include_str!("../../schemas/grid/group25.xsd")),
    ("group26", include_str!("../../schemas/grid/group26.xsd")),
    ("group27", include_str!("../../schemas/grid/group27.xsd")),
    ("group28", include_str!("../../schemas/grid/group28.xsd")),
];
#[rustfmt::skip]
pub static CHOICE: &[(&str, &str)] = &[
    ("choice00", include_str!("../../schemas/grid/choice00.xsd")),
    ("choice01", include_str!("../../schemas/grid/choice01.xsd")),
    ("choice02", include_str!("../../schemas/grid/choice02.xsd")),
    ("choice03", include_str!("../../schemas/grid/choice03.xsd")),
    ("choice04", include_str!("../../schemas/grid/choice04.xsd")),
    ("choice05", include_str!("../../schemas/grid/choice05.xsd")),
    ("choice06", include_str!("../../schemas/grid/choice06.xsd")),
    ("choice07", include_str!("../../schemas/grid/choice07.xsd")),
    ("choice08", include_str!("../../schemas/grid/choice08.xsd")),
    ("choice09", include_str!("../../schemas/grid/choice09.xsd")),
    ("choice10", include_str!("../../schemas/grid/choice10.xsd")),
    ("choice11", include_str!("../../schemas/grid/choice11.xsd")),
    ("choice12", include_str!("../../schemas/grid/choice12.xsd")),
    ("choice13", include_str!("../../schemas/grid/choice13.xsd")),
    ("choice14", include_str!("../../schemas/grid/choice14.xsd")),
    ("choice15", include_str!("../../schemas/grid/choice15.xsd")),
    ("choice16", include_str!("../../schemas/grid/choice16.xsd")),
    ("choice17", include_str!("../../schemas/grid/choice17.xsd")),
    ("choice18", include_str!("../../schemas/grid/choice18.xsd")),
    ("choice19", include_str!("../../schemas/grid/choice19.xsd")),
    ("choice20", include_str!("../../schemas/grid/choice20.xsd")),
    ("choice21", include_str!("../../schemas/grid/choice21.xsd")),
    ("choice22", include_str!("../../schemas/grid/choice22.xsd")),
    ("choice23", include_str!("../../schemas/grid/choice23.xsd")),
    ("choice24", include_str!("../../schemas/grid/choice24.xsd")),
    ("choice25", include_str!("../../schemas/grid/choice25.xsd")),
    ("choice26", include_str!("../../schemas/grid/choice26.xsd")),
    ("choice27", include_str!("../../schemas/grid/choice27.xsd")),
    ("choice28", include_str!("../../schemas/grid/choice28.xsd")),
    ("choice29", include_str!("../../schemas/grid/choice29.xsd")),
    ("choice30", include_str!("../../schemas/grid/choice30.xsd")),
    ("choice31", include_str!("../../schemas/grid/choice31.xsd")),
    ("choice32", include_str!("../../schemas/grid/choice32.xsd")),
    ("choice33", include_str!("../../schemas/grid/choice33.xsd")),
    ("choice34", include_str!("../../schemas/grid/choice34.xsd")),
    ("choice35", include_str!("../../schemas/grid/choice35.xsd")),
    ("choice36", include_str!("../../schemas/grid/choice36.xsd")),
    ("choice37", include_str!("../../schemas/grid/choice37.xsd")),
    ("choice38", include_str!("../../schemas/grid/choice38.xsd")),
    ("choice39", include_str!("../../schemas/grid/choice39.xsd")),
    ("choice40", include_str!("../../schemas/grid/choice40.xsd")),
    ("choice41", include_str!("../../schemas/grid/choice41.xsd")),
    ("choice42", include_str!("../../schemas/grid/choice42.xsd")),
    ("choice43", include_str!("../../schemas/grid/choice43.xsd")),
    ("choice44", include_str!("../../schemas/grid/choice44.xsd")),
    ("choice45", include_str!("../../schemas/grid/choice45.xsd")),
    ("choice46", include_str!("../../schemas/grid/choice46.xsd")),
];
#[rustfmt::skip]
pub static EXT: &[(&str, &str)] = &[
    ("ext00", include_str!("../../schemas/grid/ext00.xsd")),
    ("ext01", include_str!("../../schemas/grid/ext01.xsd")),
    ("ext02", include_str!("../../schemas/grid/ext02.xsd")),
    ("ext03", include_str!("../../schemas/grid/ext03.xsd")),
    ("ext04", include_str!("../../schemas/grid/ext04.xsd")),
    ("ext05", include_str!("../../schemas/grid/ext05.xsd")),
    ("ext06", include_str!("../../schemas/grid/ext06.xsd")),
    ("ext07", include_str!("../../schemas/grid/ext07.xsd")),
    ("ext08", include_str!("../../schemas/grid/ext08.xsd")),
    ("ext09", include_str!("../../schemas/grid/ext09.xsd")),
    ("ext10", include_str!("../../schemas/grid/ext10.xsd")),
    ("ext11", include_str!("../../schemas/grid/ext11.xsd")),
    ("ext12", include_str!("../../schemas/grid/ext12.xsd")),
    ("ext13", include_str!("../../schemas/grid/ext13.xsd")),
    ("ext14", include_str!("../../schemas/grid/ext14.xsd")),
    ("ext15", include_str!("../../schemas/grid/ext15.xsd")),
    ("ext16", include_str!("../../schemas/grid/ext16.xsd")),
    ("ext17", include_str!("../../schemas/grid/ext17.xsd")),
    ("ext18", include_str!("../../schemas/grid/ext18.xsd")),
    ("ext19", include_str!("../../schemas/grid/ext19.xsd")),
    ("ext20", include_str!("../../schemas/grid/ext20.xsd")),
    ("ext21", include_str!("../../schemas/grid/ext21.xsd")),
    ("ext22", include_str!("../../schemas/grid/ext22.xsd")),
    ("ext23", include_str!("../../schemas/grid/ext23.xsd")),
    ("ext24", include_str!("../../schemas/grid/ext24.xsd")),
    ("ext25", include_str!("../../schemas/grid/ext25.xsd")),
    ("ext26", include_str!("../../schemas/grid/ext26.xsd")),
    ("ext27", include_str!("../../schemas/grid/ext27.xsd")),
    ("ext28", include_str!("../../schemas/grid/ext28.xsd")),
    ("ext29", include_str!("../../schemas/grid/ext29.xsd")),
    ("ext30", include_str!("../../schemas/grid/ext30.xsd")),
    ("ext31", include_str!("../../schemas/grid/ext31.xsd")),
    ("ext32", include_str!("../../schemas/grid/ext32.xsd")),
];
#[rustfmt::skip]
pub static ALL: &[(&str, &str)] = &[
    ("all00", include_str!("../../schemas/grid/all00.xsd")),
    ("all01", include_str!("../../schemas/grid/all01.xsd")),
    ("all02", include_str!("../../schemas/grid/all02.xsd")),
    ("all03", include_str!("../../schemas/grid/all03.xsd")),
    ("all04", include_str!("../../schemas/grid/all04.xsd")),
    ("all05", include_str!("../../schemas/grid/all05.xsd")),
    ("all06", include_str!("../../schemas/grid/all06.xsd")),
    ("all07", include_str!("../../schemas/grid/all07.xsd")),
    ("all08", include_str!("../../schemas/grid/all08.xsd")),
    ("all09", include_str!("../../schemas/grid/all09.xsd")),
];
#[rustfmt::skip]
pub static NAME: &[(&str, &str)] = &[
    ("name00", include_str!("../../schemas/grid/name00.xsd")),
    ("name01", include_str!("../../schemas/grid/name01.xsd")),
    ("name02", include_str!("../../schemas/grid/name02.xsd")),
    ("name03", include_str!("../../schemas/grid/name03.xsd")),
    ("name04", include_str!("../../schemas/grid/name04.xsd")),
    ("name05", include_str!("../../schemas/grid/name05.xsd")),
    ("name06", include_str!("../../schemas/grid/name06.xsd")),
    ("name07", include_str!("../../schemas/grid/name07.xsd")),
    ("name08", include_str!("../../schemas/grid/name08.xsd")),
    ("name09", include_str!("../../schemas/grid/name09.xsd")),
    ("name10", include_str!("../../schemas/grid/name10.xsd")),
    ("name11", include_str!("../../schemas/grid/name11.xsd")),
    ("name12", include_str!("../../schemas/grid/name12.xsd")),
    ("name13", include_str!("../../schemas/grid/name13.xsd")),
    ("name14", include_str!("../../schemas/grid/name14.xsd")),
    ("name15", include_str!("../../schemas/grid/name15.xsd")),
    ("name16", include_str!("../../schemas/grid/name16.xsd")),
    ("name17", include_str!("../../schemas/grid/name17.xsd")),
    ("name18", include_str!("../../schemas/grid/name18.xsd")),
    ("name19", include_str!("../../schemas/grid/name19.xsd")),
    ("name20", include_str!("../../schemas/grid/name20.xsd")),
    ("name21", include_str!("../../schemas/grid/name21.xsd")),
    ("name22", include_str!("../../schemas/grid/name22.xsd")),
    ("name23", include_str!("../../schemas/grid/name23.xsd")),
    ("name24", include_str!("../../schemas/grid/name24.xsd")),
    ("name25", include_str!("../../schemas/grid/name25.xsd")),
    ("name26", include_str!("../../schemas/grid/name26.xsd")),
    ("name27", include_str!("../../schemas/grid/name27.xsd")),
    ("name28", include_str!("../../schemas/grid/name28.xsd")),
    ("name29", include_str!("../../schemas/grid/name29.xsd")),
    ("name30", include_str!("../../schemas/grid/name30.xsd")),
    ("name31", include_str!("../../schemas/grid/name31.xsd")),
    ("name32", include_str!("../../schemas/grid/name32.xsd")),
    ("name33", include_str!("../../schemas/grid/name33.xsd")),
    ("name34", include_str!("../../schemas/grid/name34.xsd")),
    ("name35", include_str!("../../schemas/grid/name35.xsd")),
    ("name36", include_str!("../../schemas/grid/name36.xsd")),
];
#[rustfmt::skip]
pub static ENUM: &[(&str, &str)] = &[
    ("enum00", include_str!("../../schemas/grid/enum00.xsd")),
    ("enum01", include_str!("../../schemas/grid/enum01.xsd")),
    ("enum02", include_str!("../../schemas/grid/enum02.xsd")),
    ("enum03", include_str!("../../schemas/grid/enum03.xsd")),
    ("enum04", include_str!("../../schemas/grid/enum04.xsd")),
    ("enum05", include_str!("../../schemas/grid/enum05.xsd")),
    ("enum06", include_str!("../../schemas/grid/enum06.xsd")),
    ("enum07", include_str!("../../schemas/grid/enum07.xsd")),
    ("enum08", include_str!("../../schemas/grid/enum08.xsd")),
    ("enum09", include_str!("../../schemas/grid/enum09.xsd")),
    ("enum10", include_str!("../../schemas/grid/enum10.xsd")),
    ("enum11", include_str!("../../schemas/grid/enum11.xsd")),
    ("enum12", include_str!("../../schemas/grid/enum12.xsd")),
    ("enum13", include_str!("../../schemas/grid/enum13.xsd")),
    ("enum14", include_str!("../../schemas/grid/enum14.xsd")),
    ("enum15", include_str!("../../schemas/grid/enum15.xsd")),
    ("enum16", include_str!("../../schemas/grid/enum16.xsd")),
    ("enum17", include_str!("../../schemas/grid/enum17.xsd")),
    ("enum18", include_str!("../../schemas/grid/enum18.xsd")),
    ("enum19", include_str!("../../schemas/grid/enum19.xsd")),
    ("enum20", include_str!("../../schemas/grid/enum20.xsd")),
    ("enum21", include_str!("../../schemas/grid/enum21.xsd")),
    ("enum22", include_str!("../../schemas/grid/enum22.xsd")),
    ("enum23", include_str!("../../schemas/grid/enum23.xsd")),
    ("enum24", include_str!("../../schemas/grid/enum24.xsd")),
    ("enum25", include_str!("../../schemas/grid/enum25.xsd")),
    ("enum26", include_str!("../../schemas/grid/enum26.xsd")),
    ("enum27", include_str!("../../schemas/grid/enum27.xsd")),
    ("enum28", include_str!("../../schemas/grid/enum28.xsd")),
    ("enum29", include_str!("../../schemas/grid/enum29.xsd")),
    ("enum30", include_str!("../../schemas/grid/enum30.xsd")),
    ("enum31", include_str!("../../schemas/grid/enum31.xsd")),
    ("enum32", include_str!("../../schemas/grid/enum32.xsd")),
    ("enum33", include_str!("../../schemas/grid/enum33.xsd")),
    ("enum34", include_str!("../../schemas/grid/enum34.xsd")),
    ("enum35", include_str!("../../schemas/grid/enum35.xsd")),
];
#[rustfmt::skip]
pub static TYPE: &[(&str, &str)] = &[
    ("type00", include_str!("../../schemas/grid/type00.xsd")),
    ("type01", include_str!("../../schemas/grid/type01.xsd")),
    ("type02", include_str!("../../schemas/grid/type02.xsd")),
    ("type03", include_str!("../../schemas/grid/type03.xsd")),
    ("type04", include_str!("../../schemas/grid/type04.xsd")),
    ("type05", include_str!("../../schemas/grid/type05.xsd")),
    ("type06", include_str!("../../schemas/grid/type06.xsd")),
    ("type07", include_str!("../../schemas/grid/type07.xsd")),
    ("type08", include_str!("../../schemas/grid/type08.xsd")),
    ("type09", include_str!("../../schemas/grid/type09.xsd")),
    ("type10", include_str!("../../schemas/grid/type10.xsd")),
    ("type11", include_str!("../../schemas/grid/type11.xsd")),
    ("type12", include_str!("../../schemas/grid/type12.xsd")),
    ("type13", include_str!("../../schemas/grid/type13.xsd")),
    ("type14", include_str!("../../schemas/grid/type14.xsd")),
    ("type15", include_str!("../../schemas/grid/type15.xsd")),
    ("type16", include_str!("../../schemas/grid/type16.xsd")),
    ("type17", include_str!("../../schemas/grid/type17.xsd")),
    ("type18", include_str!("../../schemas/grid/type18.xsd")),
    ("type19", include_str!("../../schemas/grid/type19.xsd")),
    ("type20", include_str!("../../schemas/grid/type20.xsd")),
    ("type21", include_str!("../../schemas/grid/type21.xsd")),
    ("type22", include_str!("../../schemas/grid/type22.xsd")),
    ("type23", include_str!("../../schemas/grid/type23.xsd")),
    ("type24", include_str!("../../schemas/grid/type24.xsd")),
    ("type25", include_str!("../../schemas/grid/type25.xsd")),
    ("type26", include_str!("../../schemas/grid/type26.xsd")),
    ("type27", include_str!("../../schemas/grid/type27.xsd")),
    ("type28", include_str!("../../schemas/grid/type28.xsd")),
    ("type29", include_str!("../../schemas/grid/type29.xsd")),
    ("type30", include_str!("../../schemas/grid/type30.xsd")),
    ("type31", include_str!("../../schemas/grid/type31.xsd")),
];
#[rustfmt::skip]
pub static MIX: &[(&str, &str)] = &[
    ("mix00", include_str!("../../schemas/grid/mix00.xsd")),
    ("mix01", include_str!("../../schemas/grid/mix01.xsd")),
    ("mix02", include_str!("../../schemas/grid/mix02.xsd")),
    ("mix03", include_str!("../../schemas/grid/mix03.xsd")),
    ("mix04", include_str!("../../schemas/grid/mix04.xsd")),
    ("mix05", include_str!("../../schemas/grid/mix05.xsd")),
    ("mix06", include_str!("../../schemas/grid/mix06.xsd")),
    ("mix07", include_str!("../../schemas/grid/mix07.xsd")),
    ("mix08", include_str!("../../schemas/grid/mix08.xsd")),
    ("mix09", include_str!("../../schemas/grid/mix09.xsd")),
    ("mix10", include_str!("../../schemas/grid/mix10.xsd")),
    ("mix11", include_str!("../../schemas/grid/mix11.xsd")),
    ("mix12", include_str!("../../schemas/grid/mix12.xsd")),
    ("mix13", include_str!("../../schemas/grid/mix13.xsd")),
    ("mix14", include_str!("../../schemas/grid/mix14.xsd")),
    ("mix15", include_str!("../../schemas/grid/mix15.xsd")),
    ("mix16", include_str!("../../schemas/grid/mix16.xsd")),
    ("mix17", include_str!("../../schemas/grid/mix17.xsd")),
    ("mix18", include_str!("../../schemas/grid/mix18.xsd")),
    ("mix19", include_str!("../../schemas/grid/mix19.xsd")),
    ("mix20", include_str!("../../schemas/grid/mix20.xsd")),
    ("mix21", include_str!("../../schemas/grid/mix21.xsd")),
    ("mix22", include_str!("../../schemas/grid/mix22.xsd")),
    ("mix23", include_str!("../../schemas/grid/mix23.xsd")),
    ("mix24", include_str!("../../schemas/grid/mix24.xsd")),
    ("mix25", include_str!("../../schemas/grid/mix25.xsd")),
    ("mix26", include_str!("../../schemas/grid/mix26.xsd")),
    ("mix27", include_str!("../../schemas/grid/mix27.xsd")),
    ("mix28", include_str!("../../schemas/grid/mix28.xsd")),
    ("mix29", include_str!("../../schemas/grid/mix29.xsd")),
    ("mix30", include_str!("../../schemas/grid/mix30.xsd")),
    ("mix31", include_str!("../../schemas/grid/mix31.xsd")),
    ("mix32", include_str!("../../schemas/grid/mix32.xsd")),
    ("mix33", include_str!("../../schemas/grid/mix33.xsd")),
    ("mix34", include_str!("../../schemas/grid/mix34.xsd")),
    ("mix35", include_str!("../../schemas/grid/mix35.xsd")),
    ("mix36", include_str!("../../schemas/grid/mix36.xsd")),
    ("mix37", include_str!("../../schemas/grid/mix37.xsd")),
    ("mix38", include_str!("../../schemas/grid/mix38.xsd")),
    ("mix39", include_str!("../../schemas/grid/mix39.xsd")),
    ("mix40", include_str!("../../schemas/grid/mix40.xsd")),
    ("mix41", include_str!("../../schemas/grid/mix41.xsd")),
    ("mix42", include_str!("../../schemas/grid/mix42.xsd")),
    ("mix43", include_str!("../../schemas/grid/mix43.xsd")),
    ("mix44", include_str!("../../schemas/grid/mix44.xsd")),
    ("mix45", include_str!("../../schemas/grid/mix45.xsd")),
    ("mix46", include_str!("../../schemas/grid/mix46.xsd")),
    ("mix47", include_str!("../../schemas/grid/mix47.xsd")),
];
#[rustfmt::skip]
pub static NS: &[(&str, &str)] = &[
    ("ns00", include_str!("../../schemas/grid/ns00.xsd")),
    ("ns01", include_str!("../../schemas/grid/ns01.xsd")),
    ("ns02", include_str!("../../schemas/grid/ns02.xsd")),
    ("ns03", include_str!("../../schemas/grid/ns03.xsd")),
    ("ns04", include_str!("../../schemas/grid/ns04.xsd")),
    ("ns05", include_str!("../../schemas/grid/ns05.xsd")),
    ("ns06", include_str!("../../schemas/grid/ns06.xsd")),
    ("ns07", include_str!("../../schemas/grid/ns07.xsd")),
    ("ns08", include_str!("../../schemas/grid/ns08.xsd")),
    ("ns09", include_str!("../../schemas/grid/ns09.xsd")),
    ("ns10", include_str!("../../schemas/grid/ns10.xsd")),
    ("ns11", include_str!("../../schemas/grid/ns11.xsd")),
    ("ns12", include_str!("../../schemas/grid/ns12.xsd")),
    ("ns13", include_str!("../../schemas/grid/ns13.xsd")),
    ("ns14", include_str!("../../schemas/grid/ns14.xsd")),
    ("ns15", include_str!("../../schemas/grid/ns15.xsd")),
    ("ns16", include_str!("../../schemas/grid/ns16.xsd")),
    ("ns17", include_str!("../../schemas/grid/ns17.xsd")),
    ("ns18", include_str!("../../schemas/grid/ns18.xsd")),
    ("ns19", include_str!("../../schemas/grid/ns19.xsd")),
    ("ns20", include_str!("../../schemas/grid/ns20.xsd")),
];
#[rustfmt::skip]
pub static INC: &[(&str, &str)] = &[
    ("inc00", include_str!("../../schemas/grid/inc00.xsd")),
    ("inc01", include_str!("../../schemas/grid/inc01.xsd")),
    ("inc02", include_str!("../../schemas/grid/inc02.xsd")),
    ("inc03", include_str!("../../schemas/grid/inc03.xsd")),
    ("inc04", include_str!("../../schemas/grid/inc04.xsd")),
    ("inc05", include_str!("../../schemas/grid/inc05.xsd")),
    ("inc06", include_str!("../../schemas/grid/inc06.xsd")),
    ("inc07", include_str!("../../schemas/grid/inc07.xsd")),
    ("inc08", include_str!("../../schemas/grid/inc08.xsd")),
    ("inc09", include_str!("../../schemas/grid/inc09.xsd")),
    ("inc10", include_str!("../../schemas/grid/inc10.xsd")),
    ("inc11", include_str!("../../schemas/grid/inc11.xsd")),
    ("inc12", include_str!("../../schemas/grid/inc12.xsd")),
    ("inc13", include_str!("../../schemas/grid/inc13.xsd")),
    ("inc14", include_str!("../../schemas/grid/inc14.xsd")),
    ("inc15", include_str!("../../schemas/grid/inc15.xsd")),
    ("inc16", include_str!("../../schemas/grid/inc16.xsd")),
    ("inc17", include_str!("../../schemas/grid/inc17.xsd")),
];
