//! Choices: exactly the alternative that is present is decoded, and exactly the one held is encoded.
#[path = "../cmdocs.rs"]
mod cmdocs;
#[path = "../corpus/mod.rs"]
#[macro_use]
mod corpus;
#[path = "../gridfns.rs"]
#[macro_use]
mod gridfns;
#[path = "../grid/choice.rs"]
mod g_choice;
#[path = "../grid/mix.rs"]
mod g_mix;
use cmdocs as c;
use corpus::*;
use vph::*;
#[xsd::all(schema = "schemas/kf_choice.xsd")]
mod kf_choice {}
/// known finding: the alternative with minOccurs="0" may be empty, which makes <r/> valid
fn kf_empty_choice() {
    note("<r/>");
    check(kf_choice::R::from_xml("<r/>").is_ok(), "a required choice whose alternative is empty is rejected");
}
harness! {
    kf_empty_choice => super::kf_empty_choice();
    d_choice => both(choices::choice); d_choice_vec => both(choices::choice_vec); d_choice2 => both(choices::choice2); d_choice3 => both(choices::choice3); d_ctchoice => both(choices::ctchoice); d_choice_refs => both(choices::choice_refs); d_groups3 => both(groups::groups3); d_groups2 => both(groups::groups2);
    r_choice => rejects(choices::choice); r_choice2 => rejects(choices::choice2); r_choice3 => rejects(choices::choice3); r_ctchoice => rejects(choices::ctchoice); r_choice_refs => rejects(choices::choice_refs);
    pick => c::pick(4); pickmany => c::pickmany(4); pickseq => c::pickseq(4); only => c::only(4); deep => c::deep(3);
    x_pick => c::pick(6); x_pickmany => c::pickmany(7); x_pickseq => c::pickseq(6); x_only => c::only(5); x_deep => c::deep(6);
    tg_choice => crate::gridfns::trips(crate::g_choice::CASES, 4); tg_mix => crate::gridfns::trips(crate::g_mix::CASES, 4); x_tg_choice => crate::gridfns::trips(crate::g_choice::CASES, 6); x_tg_mix => crate::gridfns::trips(crate::g_mix::CASES, 6); rg_choice => crate::gridfns::rejected(crate::g_choice::CASES, 2); x_rg_choice => crate::gridfns::rejected(crate::g_choice::CASES, 4);
}
